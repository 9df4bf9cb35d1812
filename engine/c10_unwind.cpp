// C10: programs full of deferred expressions, early exits, panics and catches, against the reference interpreter.
#include "lang_run.hpp"

using namespace lang;
using pbt::Case;
using pbt::Suite;

void chains(Case& c);

namespace {

void run(Case& c, Cfg cfg) {
    Program p;
    Gen g(c.t, p, cfg);
    g.program();
    std::string src = Printer().program(p);
    c.describe(src);
    std::map<std::string, pbt::u64> stats;
    Observed want = reference(p, &stats);
    auto m = tu::compile("main", src);
    if (!m.ok()) c.fail("a valid program is rejected: " + m.errors());
    tu::Vm vm(64u << 20, 0, c.t.chance(1, 8));
    vm.load_env();
    Observed got = observe(vm, m);
    std::string d = difference(got, want);
    if (!d.empty()) c.fail(d);
    // the machine must be as good as new after an unwound panic
    if (want.result.rfind("init panic", 0) != 0) {
        vm.log.clear();
        std::string again = run_main(vm);
        if (want.result.rfind("panic", 0) == 0 && again.rfind("error", 0) == 0) c.fail("second run: " + again);
    }
    for (auto& [k, v] : p.stats) c.label("programs with " + k, v > 0);
    for (auto& [k, v] : stats) c.label("runs with " + k, v > 0);
    c.count("observed effects", want.log.size());
    c.label("runs ending in a panic", want.result.rfind("panic", 0) == 0);
    c.nontrivial = stats["deferred statements run"] > 0;
}

void defers(Case& c) {
    Cfg cfg;
    cfg.budget = 140;
    cfg.depth = 3;
    cfg.trace = 9;
    cfg.defer = 14;
    cfg.panic = 1;
    cfg.early_exit = 7;
    cfg.loops = 5;
    cfg.katch = 2;
    run(c, cfg);
}
void panics(Case& c) {
    Cfg cfg;
    cfg.budget = 180;
    cfg.depth = 4;
    cfg.trace = 8;
    cfg.defer = 9;
    cfg.panic = 5;
    cfg.katch = 8;
    cfg.early_exit = 3;
    cfg.assertion = 2;
    cfg.bad_type = 5;
    run(c, cfg);
}
void tiny(Case& c) {
    Cfg cfg;
    cfg.budget = 60;
    cfg.depth = 2;
    cfg.trace = 10;
    cfg.defer = 12;
    cfg.panic = 3;
    cfg.katch = 5;
    cfg.early_exit = 6;
    cfg.closures = 4;
    run(c, cfg);
}

} // namespace

int main(int argc, char** argv) {
    pbt::Runner r("C10", "the program ran at least one deferred statement; chains: at least four calls deep", {
        Suite{"tiny", 12000, 400000, tiny},
        Suite{"defers", 10000, 300000, defers},
        Suite{"panics", 10000, 300000, panics},
        Suite{"chains", 2000, 60000, chains},
    });
    return r.main(argc, argv);
}
