// C16: random import graphs of script and native modules, loaded and used in random order, against a model of module
// initialisation.
#include "tiro_util.hpp"

using namespace tu;
using pbt::Case;
using pbt::Suite;

namespace {

struct Exp {
    std::string name;
    int kind = 0; // 0 constant, 1 function returning a constant, 2 array (identity), 3 tuple pattern element
    i64 value = 0;
    bool exported = true;
};
struct Mod {
    std::string name;
    bool native = false;
    std::vector<int> imports;   // indices; may include itself and missing modules
    std::vector<Exp> items;
    bool loadable = true;       // false: never loaded
    int failing = 0;            // number of initialisation attempts that panic
    int fail_at = 0;            // position of the failing statement
    bool deferred = false;      // the initialiser contains loops and closures
    // model
    bool loaded = false, initialised = false;
    i64 counter = 0;
    int begins = 0, ends = 0;
};

struct World {
    std::vector<Mod> m;
    std::vector<std::string> log;
    std::string trouble;
    std::vector<int> active; // modules whose initialiser runs
};

const char* const name_pool[] = {"a", "b", "lib", "lib.a", "lib.b", "lib.a.b", "x1", "_", "zeta", "net.http", "net", "main", "q.q", "long_module_name_with_many_parts.and.dots", "h", "g", "f", "std2"};

i64 value_of(int mod, int item) { return mod * 1000 + item * 7 + 1; }

// the expected value of item k of module i: own value plus the values of imported items it refers to
struct Builder {
    World& w;
    pbt::Tape& t;
    std::string alias(const Mod& m, const Mod& imp, size_t k) const {
        (void) m;
        (void) imp;
        return sfmt("i%zu", k);
    }
    std::string source(int index, std::vector<tu::Source>* files) {
        Mod& m = w.m[index];
        std::string head = "import env;\n", body;
        for (size_t k = 0; k < m.imports.size(); ++k) {
            const std::string& n = w.m[m.imports[k]].name;
            head += sfmt("import %s as i%zu;\n", n.c_str(), k);
        }
        body += sfmt("const begin_ = env.begin(%d);\n", index);
        body += "var counter_ = 0;\n";
        if (m.deferred)
            body += "const loop_ = { var s = 0; for var i = 0; i < 5; i += 1 { const f = func() = i; s += f(); } s; };\nconst caught_ = env.guard(func() { return env.fail(); });\n";
        for (size_t k = 0; k < m.items.size(); ++k) {
            Exp& e = m.items[k];
            if (m.failing && m.fail_at == (int) k) body += sfmt("const fail_%zu = env.maybe_fail(%d);\n", k, index);
            // constant items may depend on constants of imported modules
            std::string expr = sfmt("%lld", (long long) value_of(index, (int) k));
            i64 v = value_of(index, (int) k);
            // calls to functions of this module that are defined further down are allowed as well
            std::string ex = e.exported ? "export " : "";
            switch (e.kind) {
            case 0: {
                for (size_t j = 0; j < m.imports.size(); ++j) {
                    Mod& d = w.m[m.imports[j]];
                    if (m.imports[j] <= index || t.below(3)) continue; // only dependencies with known values
                    for (auto& x : d.items)
                        if (x.exported && x.kind <= 1 && t.chance(1, 2)) {
                            expr += sfmt(" + i%zu.%s%s", j, x.name.c_str(), x.kind == 1 ? "()" : "");
                            v += x.value;
                        }
                }
                e.value = v;
                body += ex + "const " + e.name + " = " + expr + ";\n";
                break;
            }
            case 1:
                e.value = v;
                body += ex + "func " + e.name + "() { return " + expr + "; }\n";
                break;
            case 2:
                e.value = v;
                body += ex + "const " + e.name + " = [" + expr + "];\n";
                break;
            default:
                e.value = v;
                body += ex + "const (" + e.name + sfmt(", other_%zu) = (%s, 0);\n", k, expr.c_str());
            }
        }
        if (m.failing && m.fail_at >= (int) m.items.size()) body += sfmt("const fail_ = env.maybe_fail(%d);\n", index);
        // shared state, observed through every path
        body += "export func bump() { counter_ += 1; return counter_; }\n";
        body += "export func call_missing() { return " + std::string(m.imports.empty() ? "null" : "i0.does_not_exist") + "; }\n";
        for (size_t k = 0; k < m.imports.size(); ++k) body += sfmt("export func bump_%zu() = i%zu.bump();\nexport func same_%zu() = i%zu;\n", k, k, k, k);
        body += sfmt("const end_ = env.end(%d);\n", index);
        if (files) {
            // the same module in two files: statements of the first file run first
            size_t cut = body.find("\nexport func bump()") + 1;
            files->push_back({"one", head + body.substr(0, cut)});
            files->push_back({"two", head + body.substr(cut)});
        }
        return head + body;
    }
};

// transitive closure over modules that are not initialised yet
struct Closure {
    std::set<int> all;
    bool missing = false, cyclic = false, failing = false;
};
void visit(World& w, int i, Closure& c, std::vector<int>& path) {
    Mod& m = w.m[i];
    if (!m.loaded) {
        c.missing = true;
        return;
    }
    if (m.initialised) return;
    if (std::find(path.begin(), path.end(), i) != path.end()) {
        c.cyclic = true;
        return;
    }
    if (c.all.count(i)) return;
    c.all.insert(i);
    if (m.failing > 0) c.failing = true;
    path.push_back(i);
    for (int d : m.imports) visit(w, d, c, path);
    path.pop_back();
}

World& of(tiro_vm_t v) { return *(World*) Vm::of(v).user; }
int arg_int(tiro_vm_t v, tiro_sync_frame_t f) {
    H a(v);
    MUST(tiro_sync_frame_arg(f, 0, a, must));
    return (int) tiro_integer_value(v, a);
}

void on_begin(tiro_vm_t v, tiro_sync_frame_t f) {
    World& w = of(v);
    int i = arg_int(v, f);
    Mod& m = w.m[i];
    ++m.begins;
    w.active.push_back(i);
    w.log.push_back("begin " + m.name);
    auto bad = [&](std::string s) {
        if (w.trouble.empty()) w.trouble = "initialiser of module " + m.name + ": " + s;
    };
    if (m.initialised) bad("runs again");
    for (int d : m.imports)
        if (!w.m[d].initialised) bad("runs before the imported module " + w.m[d].name + " is initialised");
}
void on_end(tiro_vm_t v, tiro_sync_frame_t f) {
    World& w = of(v);
    int i = arg_int(v, f);
    Mod& m = w.m[i];
    ++m.ends;
    w.log.push_back("end " + m.name);
    if (w.active.empty() || w.active.back() != i) w.trouble = "initialisers are interleaved";
    else w.active.pop_back();
    m.initialised = true;
    m.counter = 0;
}
void on_maybe_fail(tiro_vm_t v, tiro_sync_frame_t f) {
    World& w = of(v);
    int i = arg_int(v, f);
    if (w.m[i].failing > 0) {
        --w.m[i].failing;
        w.log.push_back("failure in " + w.m[i].name);
        w.active.clear();
        MUST(tiro_sync_frame_panic_msg(f, ts("initialiser fails"), must));
    }
}

void graphs(Case& c) {
    World w;
    size_t n = 2 + c.t.below(7);
    w.m.resize(n);
    std::vector<std::string> names(std::begin(name_pool), std::end(name_pool));
    bool cycles = c.t.chance(1, 3);
    for (size_t i = 0; i < n; ++i) {
        Mod& m = w.m[i];
        size_t k = c.t.below(names.size());
        m.name = names[k];
        names.erase(names.begin() + k);
        m.native = c.t.chance(1, 7);
        m.loadable = !c.t.chance(1, 10);
        m.deferred = c.t.chance(1, 4);
        if (c.t.chance(1, 6)) m.failing = 1 + (int) c.t.below(3);
        size_t items = c.t.below(5);
        for (size_t j = 0; j < items; ++j) {
            Exp e;
            e.name = sfmt("e%zu", (j * 3 + i) % 7);
            e.kind = (int) c.t.below(4);
            e.exported = c.t.chance(2, 3);
            e.value = value_of((int) i, (int) j);
            m.items.push_back(e);
        }
        m.fail_at = (int) c.t.below(items + 1);
        if (m.native) {
            m.failing = 0;
            for (auto& e : m.items) e.exported = true, e.kind = e.kind == 1 ? 0 : e.kind;
            continue;
        }
        // mostly imports of later modules (no cycles)
        for (size_t d = 0; d < n; ++d) {
            if (d == i && !(cycles && c.t.chance(1, 8))) continue;
            if (d < i && !(cycles && c.t.chance(1, 5))) continue;
            if (d > i && !c.t.chance(2, 5)) continue;
            m.imports.push_back((int) d);
        }
        for (size_t x = m.imports.size(); x > 1; --x) std::swap(m.imports[x - 1], m.imports[c.t.below(x)]);
    }
    Builder b{w, c.t};
    std::vector<std::string> src(n);
    std::vector<Compiled> mods(n);
    Vm vm(64u << 20);
    vm.user = &w;
    std::vector<std::pair<std::string, H>> env;
    env.emplace_back("begin", vm.sync_function("begin", on_begin, 1));
    env.emplace_back("end", vm.sync_function("end", on_end, 1));
    env.emplace_back("maybe_fail", vm.sync_function("maybe_fail", on_maybe_fail, 1));
    env.emplace_back("fail", vm.sync_function("fail", [](tiro_vm_t, tiro_sync_frame_t f) { MUST(tiro_sync_frame_panic_msg(f, ts("inner"), must)); }, 0));
    {
        H g = vm.get_export("std", "catch_panic");
        env.emplace_back("guard", std::move(g));
    }
    vm.load_env_with(env);
    env.clear();
    std::string text;
    for (size_t i = n; i-- > 0;) { // later modules first: their values are known
        if (w.m[i].native) {
            text = "native module " + w.m[i].name + "\n" + text;
            continue;
        }
        std::vector<tu::Source> files;
        bool split = c.t.chance(1, 3);
        src[i] = b.source((int) i, split ? &files : nullptr);
        text = "---- module " + w.m[i].name + (w.m[i].loadable ? "" : " (never loaded)") + sfmt(", fails %d times", w.m[i].failing) + (split ? ", two files" : "") + " ----\n" + src[i] + text;
        mods[i] = split ? compile(w.m[i].name, files) : compile(w.m[i].name, src[i]);
    }
    c.describe(text);
    for (size_t i = 0; i < n; ++i)
        if (!w.m[i].native && !mods[i].ok()) c.fail("module " + w.m[i].name + " is rejected: " + mods[i].errors());

    std::vector<H> native_values;
    size_t steps = 4 + c.t.below(24), reinit = 0, failures = 0, successes = 0, dup = 0, shared = 0;
    auto load = [&](int i) {
        Mod& m = w.m[i];
        Err e;
        if (m.native) {
            std::vector<tiro_module_member_t> mem;
            std::vector<H> hs;
            for (auto& x : m.items) {
                H v = vm.integer(x.value);
                if (x.kind == 2) {
                    H a(vm);
                    MUST(tiro_make_array(vm, 1, a, must));
                    MUST(tiro_array_push(vm, a, v, must));
                    v = std::move(a);
                }
                hs.push_back(std::move(v));
                mem.push_back({ts(x.name), hs.back()});
            }
            H bump(vm);
            H idx = vm.integer(i), name = vm.string("bump");
            MUST(tiro_make_sync_function(vm, name, [](tiro_vm_t v, tiro_sync_frame_t f) {
                World& w = of(v);
                H idx(v);
                MUST(tiro_sync_frame_closure(f, idx, must));
                H r = Vm::of(v).integer(w.m[tiro_integer_value(v, idx)].counter + 1);
                MUST(tiro_sync_frame_return_value(f, r, must));
            }, 0, idx, bump, must));
            mem.push_back({ts("bump"), bump});
            H mod(vm);
            MUST(tiro_make_module(vm, ts(m.name), mem.data(), mem.size(), mod, must));
            tiro_vm_load_module(vm, mod, e);
        } else
            tiro_vm_load_bytecode(vm, mods[i].module, e);
        if (m.loaded) {
            if (e.code() != TIRO_ERROR_MODULE_EXISTS) c.fail("loading module " + m.name + " again: " + (e.ok() ? "no error" : e.text()));
            ++dup;
        } else {
            if (!e.ok()) c.fail("loading module " + m.name + " failed: " + e.text());
            m.loaded = true;
            if (m.native) m.initialised = true;
        }
    };
    size_t why[4] = {};
    // resolves the module through the API and checks what happened; returns whether the module is usable
    auto resolve = [&](int i, const std::string& name, H* out, int expect /* 0 exists, 1 does not exist */) {
        Mod& m = w.m[i];
        Closure cl;
        std::vector<int> path;
        bool was_loaded = m.loaded, was_initialised = m.initialised;
        visit(w, i, cl, path);
        bool good = was_loaded && !cl.missing && !cl.cyclic && !cl.failing;
        w.log.clear();
        w.active.clear();
        Err e;
        H h(vm);
        tiro_vm_get_export(vm, ts(m.name), ts(name), h, e);
        std::string what = "tiro_vm_get_export(" + m.name + ", " + name + ")";
        if (!w.trouble.empty()) c.fail(what + ": " + w.trouble);
        if (was_initialised && !w.log.empty()) c.fail(what + ": initialisers ran although the module was initialised: " + w.log[0]);
        if (good) {
            for (int d : cl.all) {
                if (!w.m[d].initialised) c.fail(what + ": the initialiser of module " + w.m[d].name + " did not run");
            }
            if (!cl.all.empty()) ++successes;
            if (expect == 0 && !e.ok()) c.fail(what + " failed: " + e.text());
            if (expect == 1 && e.code() != TIRO_ERROR_EXPORT_NOT_FOUND) c.fail(what + (e.ok() ? " succeeded" : " failed with " + e.text()) + ", but there is no such export");
        } else {
            ++failures;
            ++why[!was_loaded ? 0 : cl.missing ? 1 : cl.cyclic ? 2 : 3];
            if (e.ok()) c.fail(what + " succeeded although " + (!was_loaded ? "the module was not loaded" : cl.missing ? "an imported module is missing" : cl.cyclic ? "the imports are cyclic" : "an initialiser panics"));
            if (!was_loaded && e.code() != TIRO_ERROR_MODULE_NOT_FOUND) c.fail(what + " of a module that was not loaded: " + e.text());
            if (was_loaded && cl.missing && !cl.cyclic && !cl.failing && e.code() != TIRO_ERROR_MODULE_NOT_FOUND) c.fail(what + " with a missing import: " + e.text());
            if (m.initialised) c.fail(what + ": the initialiser ran although a dependency is not usable");
        }
        if (out) *out = std::move(h);
        if (good) return true;
        if (was_loaded && (cl.cyclic || cl.failing)) ++reinit;
        return false;
    };
    if (c.t.chance(2, 3)) {
        c.add("\nfirst most modules are loaded");
        for (size_t i = 0; i < n; ++i) {
            int x = (int) (n - 1 - i);
            if (w.m[x].loadable && !c.t.chance(1, 10)) load(x);
        }
    }
    for (size_t s = 0; s < steps; ++s) {
        int i = (int) c.t.below(n);
        Mod& m = w.m[i];
        switch (c.t.weighted({6, 8, 3, 4, 1, 2})) {
        case 0: // load
            if (m.loadable) {
                c.add(sfmt("\nstep %zu: load ", s) + m.name);
                load(i);
            }
            break;
        case 1: { // an existing item
            if (m.items.empty()) break;
            auto& e = m.items[c.t.below(m.items.size())];
            // names can be used by more than one item of a native module, never in a script module
            c.add(sfmt("\nstep %zu: export ", s) + m.name + "." + e.name);
            H h(vm);
            if (!resolve(i, e.name, &h, e.exported ? 0 : 1) || !e.exported) break;
            std::string got;
            if (e.kind == 1 && !m.native) {
                auto r = vm.call(h);
                if (!r.ok()) c.fail("calling " + m.name + "." + e.name + " failed: " + r.message);
                got = vm.show(r.value);
            } else
                got = vm.show(h);
            std::string want = e.kind == 2 ? sfmt("[%lld]", (long long) e.value) : sfmt("%lld", (long long) e.value);
            if (got != want) c.fail("the value of " + m.name + "." + e.name + " is " + got + ", expected " + want);
            // the same through tiro_module_get_export? modules are only reachable by functions of importing modules
            break;
        }
        case 2: { // things that are not exported
            static const char* const no[] = {"nothing", "counter_", "begin_", "i0", "env", "E0", "e", "e00"};
            std::string nn = no[c.t.below(8)];
            c.add(sfmt("\nstep %zu: export ", s) + m.name + "." + nn);
            resolve(i, nn, nullptr, 1);
            break;
        }
        case 3: { // shared state
            if (m.native) break;
            size_t k = c.t.below(m.imports.size() + 1);
            int target = k < m.imports.size() ? m.imports[k] : i;
            std::string fn = k < m.imports.size() ? sfmt("bump_%zu", k) : "bump";
            c.add(sfmt("\nstep %zu: call ", s) + m.name + "." + fn);
            H h(vm);
            if (!resolve(i, fn, &h, 0)) break;
            auto r = vm.call(h);
            if (!r.ok()) c.fail("calling " + m.name + "." + fn + " failed: " + r.message);
            i64 want = ++w.m[target].counter;
            if (vm.show(r.value) != sfmt("%lld", (long long) want)) c.fail("calling " + m.name + "." + fn + " returned " + vm.show(r.value) + sfmt(", expected %lld", (long long) want));
            ++shared;
            break;
        }
        case 4: { // a missing member of an imported module
            if (m.native) break;
            c.add(sfmt("\nstep %zu: call ", s) + m.name + ".call_missing");
            H h(vm);
            if (!resolve(i, "call_missing", &h, 0)) break;
            auto r = vm.call(h);
            if (r.ok() == !m.imports.empty()) c.fail("using a missing member of an imported module: " + (r.ok() ? "no error" : r.message));
            break;
        }
        default: { // imports refer to one shared instance
            if (m.native || m.imports.empty()) break;
            size_t k = c.t.below(m.imports.size());
            c.add(sfmt("\nstep %zu: module object of import %zu of ", s, k) + m.name);
            H h(vm);
            if (!resolve(i, sfmt("same_%zu", k), &h, 0)) break;
            auto r = vm.call(h);
            if (!r.ok() || tiro_value_kind(vm, r.value) != TIRO_KIND_MODULE) c.fail("an import is not a module");
            Mod& d = w.m[m.imports[k]];
            for (auto& x : d.items) {
                Err e;
                H v(vm);
                tiro_module_get_export(vm, r.value, ts(x.name), v, e);
                if (e.ok() != x.exported) c.fail("tiro_module_get_export(" + d.name + ", " + x.name + "): " + (e.ok() ? "found, but it is not exported" : e.text()));
                if (x.exported && x.kind != 1) {
                    H direct(vm);
                    MUST(tiro_vm_get_export(vm, ts(d.name), ts(x.name), direct, must));
                    bool same = tiro_value_same(vm, v, direct);
                    if (x.kind == 2 && !same) c.fail("the exported array " + d.name + "." + x.name + " is not the same object for everyone");
                }
            }
        }
        }
    }
    // one module per name: loading after use changes nothing
    for (size_t i = 0; i < n; ++i)
        if (w.m[i].begins - w.m[i].ends > 3) c.fail("too many initialisations");
    c.count("failed resolutions", failures);
    c.count("failed resolutions: not loaded", why[0]);
    c.count("failed resolutions: missing import", why[1]);
    c.count("failed resolutions: cyclic imports", why[2]);
    c.count("failed resolutions: failing initialiser", why[3]);
    c.count("resolutions that ran initialisers", successes);
    c.count("calls to shared functions", shared);
    c.count("duplicate loads", dup);
    c.label("retry after failure", reinit > 1);
    c.nontrivial = successes >= 1 && steps >= 6;
}

// long chains and wide fans
void chains(Case& c) {
    size_t n = c.t.pick({size_t(10), size_t(100), size_t(500), size_t(1000), size_t(2000)}) + c.t.below(40);
    bool wide = c.t.chance(1, 3);
    bool reversed = c.t.chance(1, 2);
    if (wide) n = std::min<size_t>(n, 600);
    c.describe(sfmt("%zu modules, %s, loaded %s", n, wide ? "one imports all others" : "each imports the next", reversed ? "last first" : "first first"));
    Vm vm(128u << 20);
    vm.load_env();
    std::vector<size_t> order(n);
    for (size_t i = 0; i < n; ++i) order[i] = reversed ? n - 1 - i : i;
    for (size_t i : order) {
        std::string s = "import env;\n";
        if (!wide && i + 1 < n) s += sfmt("import chain.m%zu as next;\n", i + 1);
        if (wide && i == 0)
            for (size_t k = 1; k < n; ++k) s += sfmt("import chain.m%zu as m%zu;\n", k, k);
        s += sfmt("const e_ = env.emit(\"m%zu\");\n", i);
        if (wide && i == 0) {
            s += "export const v = 0";
            for (size_t k = 1; k < n; ++k) s += sfmt(" + m%zu.v", k);
            s += ";\n";
        } else
            s += !wide && i + 1 < n ? "export const v = next.v + 1;\n" : "export const v = 1;\n";
        auto m = compile(sfmt("chain.m%zu", i), s);
        if (!m.ok()) c.fail("rejected: " + m.errors());
        vm.load(m);
    }
    Err e;
    H h(vm);
    tiro_vm_get_export(vm, ts("chain.m0"), ts("v"), h, e);
    bool limit = !wide && n > 2048;
    if (limit) {
        if (e.ok()) return;
        c.label("recursion limit");
        // the rest of the chain is still usable
        Err e2;
        tiro_vm_get_export(vm, ts(sfmt("chain.m%zu", n - 100)), ts("v"), h, e2);
        if (!e2.ok() || vm.show(h) != "100") c.fail("the end of the chain is not usable: " + e2.text());
        return;
    }
    if (!e.ok()) c.fail("resolution failed: " + e.text());
    std::string want = sfmt("%zu", wide ? n - 1 : n);
    if (vm.show(h) != want) c.fail("value " + vm.show(h) + ", expected " + want);
    if (vm.log.size() != n) c.fail(sfmt("%zu initialisers ran, expected %zu", vm.log.size(), n));
    if (!wide)
        for (size_t i = 0; i < n; ++i)
            if (vm.log[i] != sfmt("m%zu", n - 1 - i)) c.fail("wrong order of initialisation: " + vm.log[i]);
    if (wide && vm.log.back() != "m0") c.fail("the importing module was not initialised last");
    c.nontrivial = n >= 100;
}

} // namespace

int main(int argc, char** argv) {
    pbt::Runner r("C16", "graphs: at least six steps and one resolution that ran initialisers; chains: at least 100 modules", {
        Suite{"graphs", 8000, 400000, graphs},
        Suite{"chains", 24, 500, chains},
    });
    return r.main(argc, argv);
}
