// C01: random programs against the reference interpreter.
#include "lang_run.hpp"

using namespace lang;
using pbt::Case;
using pbt::Suite;

namespace {

void run(Case& c, Cfg cfg) {
    Program p;
    Gen g(c.t, p, cfg);
    g.program();
    std::string src = Printer().program(p);
    c.describe(src);
    std::map<std::string, pbt::u64> stats;
    Observed want = reference(p, &stats);
    auto m = tu::compile("main", src);
    if (!m.ok()) c.fail("a valid program is rejected: " + m.errors());
    tu::Vm vm(64u << 20);
    vm.load_env();
    Observed got = observe(vm, m);
    std::string d = difference(got, want);
    if (!d.empty()) c.fail(d);
    for (auto& [k, v] : p.stats) c.label("programs with " + k, v > 0);
    for (auto& [k, v] : stats) c.label("runs with " + k, v > 0);
    c.count("observed effects", want.log.size());
    c.label("runs ending in a panic", want.result.rfind("panic", 0) == 0);
    c.nontrivial = want.log.size() >= 4;
}

void plain(Case& c) {
    Cfg cfg;
    cfg.defer = 1;
    cfg.panic = 0;
    run(c, cfg);
}
void small(Case& c) {
    Cfg cfg;
    cfg.budget = 60;
    cfg.depth = 3;
    cfg.panic = 1;
    cfg.bad_type = 5;
    run(c, cfg);
}
void deep(Case& c) {
    Cfg cfg;
    cfg.budget = 500;
    cfg.depth = 6;
    cfg.trace = 8;
    cfg.panic = 1;
    run(c, cfg);
}
void loops(Case& c) {
    Cfg cfg;
    cfg.budget = 200;
    cfg.depth = 3;
    cfg.loops = 10;
    cfg.closures = 8;
    cfg.early_exit = 5;
    cfg.defer = 1;
    cfg.panic = 0;
    cfg.katch = 0;
    run(c, cfg);
}

} // namespace

int main(int argc, char** argv) {
    pbt::Runner r("C01", "the program produced at least four observed effects", {
        Suite{"small", 6000, 300000, small},
        Suite{"plain", 5000, 250000, plain},
        Suite{"deep", 2500, 120000, deep},
        Suite{"loops", 4000, 200000, loops},
    });
    return r.main(argc, argv);
}
