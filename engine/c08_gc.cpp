// C08: garbage collection is invisible. Collections are forced at generated allocation points (hook in Heap::allocate)
// and the observable behaviour is compared with an undisturbed run, with models, or with a reachability graph.
#include "lang_run.hpp"
#include "gc_plan.hpp"

#include <optional>
#include <unordered_map>

using namespace gc;
// c08_models.cpp
void gc_maps(pbt::Case&);
void gc_sequences(pbt::Case&);
void gc_strings(pbt::Case&);
// c08_hosts.cpp
void gc_native(pbt::Case&);
void gc_tokens(pbt::Case&);
void gc_coroutines(pbt::Case&);
void gc_modules(pbt::Case&);
void gc_values(pbt::Case&);
void gc_frames(pbt::Case&);

using namespace tu;
using pbt::Case;
using pbt::Suite;
using pbt::Tape;

namespace {

// ------------------------------------------------------------------------------------------------ whole programs
lang::Observed run_program(const Compiled& m, const Plan& p, size_t page, bool traces, bool std_too, u64& allocs) {
    std::optional<Guard> g;
    if (std_too) g.emplace(p);
    Vm vm(64u << 20, page, traces);
    vm.load_env();
    if (!g) g.emplace(p);
    lang::Observed o = lang::observe(vm, m);
    allocs = plan.allocs;
    return o;
}

void programs(Case& c) {
    lang::Cfg cfg;
    cfg.budget = 40 + c.t.below(140);
    cfg.depth = 3 + c.t.below(2);
    cfg.trace = 9;
    cfg.defer = 1 + c.t.below(5);
    cfg.panic = 1 + c.t.below(3);
    cfg.katch = 3;
    cfg.closures = 3 + c.t.below(5);
    cfg.loops = 4;
    size_t page = 1u << (16 + c.t.below(5));
    bool traces = c.t.chance(1, 6), std_too = c.t.chance(1, 12);
    lang::Program p;
    lang::Gen g(c.t, p, cfg);
    g.program();
    std::string src = lang::Printer().program(p);
    c.describe(src);
    auto m = compile("main", src);
    if (!m.ok()) throw pbt::Discard{};
    u64 allocs = 0, a2 = 0;
    lang::Observed plain = run_program(m, Plan{}, 1u << 20, traces, std_too, allocs);
    Plan pl = pick_plan(c.t, 250, std::max<u64>(allocs, 1));
    c.add(describe(pl));
    lang::Observed gc = run_program(m, pl, page, traces, std_too, a2);
    c.count("forced collections", plan.collections);
    std::string d = lang::difference(gc, plain);
    if (!d.empty()) c.fail("a program behaves differently when garbage is collected: " + d);
    c.nontrivial = plan.collections >= 3 && plain.log.size() >= 2;
}

// ------------------------------------------------------------------------------------------------ library soup
// Random statements over the whole library, most of them reasonable, all of them wrapped in std.catch_panic.
const char* soup_head = R"(
import std;
import env;
var total = 0;
const emit = env.emit;
func sig(v) {
    const t = std.Type.name(std.type_of(v));
    if (t == "String" || t == "Integer" || t == "Float" || t == "Boolean" || t == "Symbol" || t == "Null") {
        return std.debug_repr(v);
    };
    if (t == "Array" || t == "Map" || t == "Set" || t == "Tuple" || t == "StringBuilder" || t == "Buffer" || t == "StringSlice") {
        return "${t} of ${v.size()}";
    };
    return t;
}
func step(n, f) {
    const r = std.catch_panic(f);
    if (r.is_success()) {
        emit("${n} ${sig(r.value())}");
        return r.value();
    };
    emit("${n} panic ${std.debug_repr(r.error().message())}");
    return null;
}
func rec(n, acc) { if (n > 0) { acc.append([n]); return rec(n - 1, acc); }; return acc; }
func sum(x) { var s = []; for i in x { s.append(i); }; return s; }
func later(tag, f) { return std.launch(func() { emit("start ${tag}"); const r = f(); emit("end ${tag}"); return r; }); }
func suspended(tag, x) {
    const box = [];
    std.launch(func() {
        const mine = [x, "local ${tag}"];
        const tok = std.coroutine_token();
        box.append(tok);
        const got = std.yield_coroutine();
        emit("${tag} resumed ${sig(got)} ${sig(mine[0])} ${mine[1]}");
    });
    return box;
}
func counter() { var n = 0; return func() { n += 1; return [n, func() = n]; }; }
func guard(x) { defer emit("deferred ${sig(x)}"); return std.panic("guard"); }
)";

struct Soup {
    Tape& t;
    int vars;
    std::string var() { return sfmt("v%d", (int) t.below(vars)); }
    std::string lit() {
        switch (t.below(9)) {
        case 0: return std::to_string(t.range(0, 3));
        case 1: return "4611686018427387904";
        case 2: return "1.5";
        case 3: return "\"s" + std::to_string(t.below(4)) + "\"";
        case 4: return "#sym" + std::to_string(t.below(3));
        case 5: return "null";
        case 6: return "true";
        case 7: return "\"\xc3\xbc\xe2\x82\xac text\"";
        default: return "-1";
        }
    }
    std::string any() { return t.chance(2, 3) ? var() : lit(); }
    std::string text(const char* pattern) {
        std::string r;
        for (const char* p = pattern; *p; ++p) {
            if (*p == '@') r += any();
            else if (*p == '&') r += var();
            else if (*p == '?') r += std::to_string(t.below(4));
            else if (*p == '~') r += sfmt("\"t%d\"", (int) t.below(100));
            else r += *p;
        }
        return r;
    }
    std::string expr() {
        static const char* pat[] = {
            // constructors
            "[@, @, @]", "[@]", "(@, @)", "(@,)", "map{@: @, @: @}", "set{@, @, @}", "(a: @, b: @)", "(a: @)", "(a: ?, b: &)",
            "std.new_string_builder()", "std.new_buffer(?, 7)", "func() = @", "func(x) = [x, @]", "counter()", "std.success(@)",
            "std.error(@)", "std.catch_panic(func() = std.panic(@))", "std.catch_panic(func() = guard(@))", "std.type_of(@)",
            "std.schema_of(&)", "\"a${sig(@)}b${sig(@)}\"", "\"${?}-${?}\"", "std.to_utf8(\"abc\")", "4611686018427387904 + ?",
            "9.25 * ?", "later(~, func() = @)", "later(~, func() { std.yield_coroutine(); return @; })", "suspended(~, @)",
            "rec(30, [])", "rec(200, [])", "sum(@)", "sum(&)", "env.keep(@)", "env.fetch(?)", "env.native(?)", "env.native(20000)",
            "env.wait(@)", "later(~, func() = env.wait(@))", "env.settle(@)", "env.apply(&, @)", "env.callback(&)", "std.current_coroutine()", "std.debug_repr(?)",
            "std.coroutine_token()",
            // operations
            "&.append(@)", "&.append(~)", "&.append(~, ~)", "&.append_byte(65)", "&[?]", "&[@]", "&[?] = @", "&[@] = @", "&.0", "&.1", "&.0 = @", "&.a",
            "&.b = @", "&.contains(@)", "&.contains(~)", "&.remove(@)", "&.insert(@)", "&.keys()", "&.values()", "sum(&.keys())",
            "sum(&.values())", "&.clear()", "&.size()", "&.to_string()", "&.slice(?, ?)", "&.slice_first(?)", "&.slice_last(?)", "&()", "&(@)",
            "&.value()", "&.error()", "&.message()", "&.trace()", "&.resume()", "&.resume(@)", "&[0].resume()", "&.valid()", "&.coroutine()", "&.name()",
            "&.append", "&.size", "&[0]()", "& = [&]", "(&, &) = (&, &)", "& || @", "& == @", "sig(&)", "total = total + 1",
        };
        constexpr size_t n = sizeof pat / sizeof *pat;
        std::string e = text(pat[t.below(n)]);
        if (t.chance(1, 4)) { // operands that are fresh values
            size_t k = t.below(n);
            std::string inner = text(pat[k]);
            switch (t.below(5)) {
            case 0: return "[" + inner + ", " + e + "]";
            case 1: return "(" + e + ", " + inner + ")";
            case 2: return "map{" + inner + ": " + e + "}";
            case 3: return "rec(5, [" + e + ", " + inner + "])";
            default: return "[" + e + "]";
            }
        }
        return e;
    }
    std::string program(int steps) {
        std::string r = soup_head;
        r += "export func main() {\n";
        for (int i = 0; i < vars; ++i) r += sfmt("    var v%d = ", i) + (i % 2 ? "[]" : lit()) + ";\n";
        for (int i = 0; i < steps; ++i) {
            std::string e = expr();
            if (t.chance(2, 3)) r += "    " + var() + sfmt(" = step(%d, func() { return ", i) + e + "; });\n";
            else r += sfmt("    step(%d, func() { return ", i) + e + "; });\n";
            if (t.chance(1, 14)) r += "    std.dispatch();\n";
        }
        r += "    return [";
        for (int i = 0; i < vars; ++i) r += sfmt("v%d, ", i);
        r += "];\n}\n";
        return r;
    }
};

void strip_addresses(std::string& s) {
    for (size_t p = 0; (p = s.find("@0x", p)) != std::string::npos;) {
        size_t e = p + 3;
        while (e < s.size() && isxdigit((unsigned char) s[e])) ++e;
        s.erase(p + 1, e - p - 1);
    }
}

struct SoupWorld {
    Vm vm;
    std::vector<H> kept;
    std::vector<std::pair<tiro_async_token_t, u64>> pending;
    std::vector<std::unique_ptr<std::vector<unsigned char>>> natives;
    u64 serial = 0;
    static SoupWorld& of(tiro_vm_t v) { return *(SoupWorld*) Vm::of(v).user; }

    explicit SoupWorld(size_t page, bool traces)
        : vm(48u << 20, page, traces) {
        vm.user = this;
        vm.load_env_with(members());
    }
    ~SoupWorld() {
        for (auto& [t, n] : pending) tiro_async_token_free(t);
        kept.clear();
    }
    static const tiro_native_type_t* native_type() {
        static tiro_native_type_t t{ts("verif-native"), 8, nullptr};
        return &t;
    }
    std::vector<std::pair<std::string, H>> members() {
        std::vector<std::pair<std::string, H>> r;
        auto sync = [&](const char* name, size_t argc, tiro_sync_function_t f) { r.emplace_back(name, vm.sync_function(name, f, argc)); };
        sync("keep", 1, [](tiro_vm_t v, tiro_sync_frame_t f) {
            auto& w = of(v);
            Err e;
            H a(v);
            tiro_sync_frame_arg(f, 0, a, e);
            if (w.kept.size() < 6) w.kept.push_back(std::move(a));
            else w.kept[w.serial++ % 6] = std::move(a);
        });
        sync("fetch", 1, [](tiro_vm_t v, tiro_sync_frame_t f) {
            auto& w = of(v);
            Err e;
            H a(v);
            tiro_sync_frame_arg(f, 0, a, e);
            size_t i = tiro_integer_value(v, a);
            if (i < w.kept.size()) tiro_sync_frame_return_value(f, w.kept[i], e);
        });
        sync("native", 1, [](tiro_vm_t v, tiro_sync_frame_t f) {
            Err e;
            H a(v), n(v);
            tiro_sync_frame_arg(f, 0, a, e);
            size_t size = 8 + (tiro_integer_value(v, a) & 0xffff);
            tiro_make_native(v, native_type(), size, n, e);
            if (e.ok()) {
                memset(tiro_native_data(v, n), 0x5a, size);
                tiro_sync_frame_return_value(f, n, e);
            }
        });
        sync("apply", 2, [](tiro_vm_t v, tiro_sync_frame_t f) { // creates (and starts) a coroutine
            Err e;
            H fn(v), a(v), args(v), co(v);
            tiro_sync_frame_arg(f, 0, fn, e);
            tiro_sync_frame_arg(f, 1, a, e);
            tiro_make_tuple(v, 1, args, e);
            if (e.ok()) tiro_tuple_set(v, args, 0, a, e);
            if (e.ok()) tiro_make_coroutine(v, fn, args, co, e);
            if (!e.ok()) {
                Err e2;
                tiro_sync_frame_panic_msg(f, ts("apply failed"), e2);
                return;
            }
            tiro_coroutine_start(v, co, e);
            tiro_sync_frame_return_value(f, co, e);
        });
        sync("callback", 1, [](tiro_vm_t v, tiro_sync_frame_t f) {
            Err e;
            H fn(v), none(v), co(v);
            tiro_sync_frame_arg(f, 0, fn, e);
            tiro_make_coroutine(v, fn, none, co, e);
            if (!e.ok()) return;
            tiro_coroutine_set_callback(
                v, co,
                [](tiro_vm_t vv, tiro_handle_t c, void*) {
                    Vm& vm = Vm::of(vv);
                    Err e;
                    H r(vv);
                    tiro_coroutine_result(vv, c, r, e);
                    vm.log.push_back(std::string("completed ") + (tiro_result_is_success(vv, r) ? "ok" : "panic"));
                },
                nullptr, nullptr, e);
            tiro_coroutine_start(v, co, e);
        });
        sync("settle", 1, [](tiro_vm_t v, tiro_sync_frame_t f) {
            auto& w = of(v);
            if (w.pending.empty()) return;
            auto [t, n] = w.pending.front();
            w.pending.erase(w.pending.begin());
            Err e;
            H a(v), r(v);
            tiro_sync_frame_arg(f, 0, a, e);
            if (n % 3 == 2) tiro_async_token_panic_msg(t, ts("async panic"), e);
            else tiro_async_token_return_value(t, a, e);
            tiro_async_token_free(t);
        });
        H name = vm.string("wait"), fn(vm);
        MUST(tiro_make_async_function(
            vm, name,
            [](tiro_vm_t v, tiro_async_frame_t f) {
                auto& w = of(v);
                Err e;
                H a(v);
                tiro_async_frame_arg(f, 0, a, e);
                if (w.serial++ % 4 == 0) {
                    tiro_async_frame_return_value(f, a, e);
                    return;
                }
                auto tok = tiro_async_frame_token(f, e);
                tiro_async_frame_yield(f, e);
                w.pending.push_back({tok, w.serial});
            },
            1, nullptr, fn, must));
        r.emplace_back("wait", std::move(fn));
        return r;
    }
    // run everything, then settle pending async calls one at a time
    std::string finish(const Compiled& m) {
        Err e;
        H fn(vm), none(vm), co(vm);
        tiro_vm_load_bytecode(vm, m.module, e);
        if (e.ok()) tiro_vm_get_export(vm, ts("main"), ts("main"), fn, e);
        if (e.ok()) tiro_make_coroutine(vm, fn, none, co, e);
        if (e.ok()) tiro_coroutine_start(vm, co, e);
        for (int round = 0; e.ok() && round < 60; ++round) {
            vm.run(e);
            if (!e.ok() || pending.empty()) break;
            auto [t, n] = pending.front();
            pending.erase(pending.begin());
            H v = vm.string("settled");
            tiro_async_token_return_value(t, v, e);
            tiro_async_token_free(t);
        }
        if (!e.ok()) return "error " + std::string(tiro_error_name(e.e));
        auto r = vm.result_of(co);
        std::string s = r.kind == CallResult::success ? vm.show_limited(r.value) : r.kind == CallResult::panic ? "panic " + r.message : "not completed";
        for (auto& h : kept) s += " | " + vm.show_limited(h);
        return s;
    }
};

struct SoupResult {
    std::vector<std::string> log;
    std::string end;
};
SoupResult run_soup(const Compiled& m, const Plan& p, size_t page, bool traces) {
    SoupWorld w(page, traces);
    Guard g(p);
    SoupResult r;
    r.end = w.finish(m);
    r.log = w.vm.log;
    strip_addresses(r.end);
    for (auto& l : r.log) strip_addresses(l);
    return r;
}

void library(Case& c) {
    Soup s{c.t, 3 + (int) c.t.below(4)};
    size_t page = 1u << (16 + c.t.below(5));
    bool traces = c.t.chance(1, 3);
    std::string src = s.program(4 + (int) c.t.size(36));
    c.describe(src);
    auto m = compile("main", src);
    if (!m.ok()) c.fail("generated program is rejected: " + m.errors());
    SoupResult plain = run_soup(m, Plan{}, 1u << 20, traces);
    Plan pl = pick_plan(c.t, 300, std::max<u64>(plan.allocs, 1));
    c.add(describe(pl));
    SoupResult gc = run_soup(m, pl, page, traces);
    c.count("forced collections", plan.collections);
    for (size_t i = 0; i < std::max(plain.log.size(), gc.log.size()); ++i) {
        std::string a = i < gc.log.size() ? gc.log[i] : "<end>", b = i < plain.log.size() ? plain.log[i] : "<end>";
        if (a != b) c.fail("with forced collections: " + a + "; without: " + b);
    }
    if (plain.end != gc.end) c.fail("with forced collections the result is " + gc.end + "; without: " + plain.end);
    c.label("ended in an error", plain.end.rfind("error", 0) == 0);
    c.count("steps", plain.log.size());
    size_t good = 0;
    for (auto& l : plain.log) good += l.find(" panic ") == std::string::npos;
    c.count("steps without panic", good);
    c.nontrivial = plan.collections >= 3 && good >= 3;
}

// ------------------------------------------------------------------------------------------------ finalisers
struct Leaf {
    int finalised = 0;
    std::string bad;
};
std::vector<Leaf>* leaves = nullptr;
struct Payload {
    u64 magic, id, size;
};
constexpr u64 magic = 0x7e57ab1e5eed1234ull;
void leaf_finalizer(void* data, size_t size) {
    Payload p;
    if (!leaves) return;
    memcpy(&p, data, sizeof p);
    if (p.magic != magic || p.id >= leaves->size()) {
        for (auto& l : *leaves) l.bad = "a finaliser was called with corrupted data";
        return;
    }
    Leaf& l = (*leaves)[p.id];
    ++l.finalised;
    if (p.size != size) l.bad = sfmt("finaliser of object of size %zu was called with size %zu", (size_t) p.size, size);
    for (size_t i = sizeof p; i < size; ++i)
        if (((unsigned char*) data)[i] != (unsigned char) (p.id + i)) {
            l.bad = "the contents of a native object were changed";
            break;
        }
}

const char* graph_lib = R"(
import std;
var module_var = null;
export func closure(x) { return func() = x; }
export func nested_closure(x) { const y = [x]; return func() { var z = y; return func() = z; }; }
export func mk_map(k, v) { return map{k: v}; }
export func put(m, k, v) { m[k] = v; }
export func mk_set(a) { return set{a}; }
export func insert(s, a) { s.insert(a); }
export func remove(c, a) { c.remove(a); }
export func clear(c) { c.clear(); }
export func mk_record(a) { return (x: a, y: null); }
export func rec_put(r, v) { r.y = v; }
export func bound(a) { return [a].append; }
export func store(x) { module_var = x; }
export func suspend(x) {
    const box = [];
    std.launch(func() { const local = (x, 1); box.append(std.coroutine_token()); std.yield_coroutine(); return local; });
    return box;
}
export func trouble(x) { return std.catch_panic(func() { const y = [x]; std.panic("x"); return y; }); }
export func echo(x) { var a = [x, x]; var b = map{1: a}; for i in a { b[2] = i; } return x; }
export func waste(n) { var a = []; for var i = 0; i < n; i += 1 { a.append("garbage ${i}"); a = [a, i]; if (i % 10 == 0) { a = []; } } return null; }
)";

struct GraphWorld {
    Vm vm;
    std::vector<H> fns;
    static constexpr const char* names[] = {"closure", "nested_closure", "mk_map", "put", "mk_set", "insert", "remove", "clear", "mk_record",
        "rec_put", "bound", "store", "suspend", "trouble", "echo", "waste"};
    GraphWorld(size_t page)
        : vm(128u << 20, page) {
        static Compiled m = compile("lib", graph_lib);
        if (!m.ok()) throw pbt::Fail{"library rejected: " + m.errors()};
        vm.load(m);
        for (auto n : names) fns.push_back(vm.get_export("lib", n));
    }
    CallResult call(const char* name, const std::vector<tiro_handle_t>& args) {
        for (size_t i = 0; i < fns.size(); ++i)
            if (std::string_view(names[i]) == name) return vm.call(fns[i], args);
        throw pbt::Fail{"no such function"};
    }
};

struct GNode {
    std::string kind;
    int leaf = -1;
    std::vector<int> edges;
};

void finalisers(Case& c) {
    std::vector<Leaf> all;
    leaves = &all;
    struct Reset {
        ~Reset() { leaves = nullptr; }
    } reset;
    size_t page = 1u << (16 + c.t.below(5));
    std::vector<GNode> nodes;
    auto vmp = std::make_unique<GraphWorld>(page);
    GraphWorld& w = *vmp;
    Vm& vm = w.vm;
    Plan pl = pick_plan(c.t, 30, 600);
    Guard guard(pl);
    static const tiro_native_type_t type{ts("leaf"), 8, leaf_finalizer};

    constexpr int none = -1;
    std::vector<H> slots;
    std::vector<int> content; // node per slot
    for (int i = 0; i < 6; ++i) {
        slots.push_back(vm.h());
        content.push_back(none);
    }
    int module_var = none;
    H scratch(vm);
    size_t collections_checked = 0, finalised_checked = 0;

    auto reachable = [&] {
        std::vector<bool> seen(nodes.size());
        std::vector<int> work = content;
        work.push_back(module_var);
        while (!work.empty()) {
            int n = work.back();
            work.pop_back();
            if (n == none || seen[n]) continue;
            seen[n] = true;
            for (int e : nodes[n].edges) work.push_back(e);
        }
        return seen;
    };
    auto check = [&](bool after_collection) {
        auto seen = reachable();
        for (auto& l : all)
            if (!l.bad.empty()) c.fail(l.bad);
        for (size_t i = 0; i < nodes.size(); ++i) {
            if (nodes[i].leaf < 0) continue;
            int f = all[nodes[i].leaf].finalised;
            if (f > 1) c.fail(sfmt("native object %d was finalised %d times", nodes[i].leaf, f));
            if (seen[i] && f) c.fail(sfmt("native object %d was finalised although it is still reachable", nodes[i].leaf));
            if (!seen[i] && after_collection && !f)
                c.fail(sfmt("native object %d is unreachable but was not finalised by a full collection", nodes[i].leaf));
            if (after_collection && f) ++finalised_checked;
        }
        collections_checked += after_collection;
    };
    auto collect = [&] {
        plan.force_next = true;
        tiro_make_null(vm, scratch);
        Err e;
        tiro_make_float(vm, 1.25, scratch, e);
        if (plan.force_next) c.fail("no allocation happened");
        tiro_make_null(vm, scratch);
        check(true);
    };
    auto node = [&](std::string kind, std::vector<int> edges) {
        edges.erase(std::remove(edges.begin(), edges.end(), none), edges.end());
        nodes.push_back({std::move(kind), -1, std::move(edges)});
        return (int) nodes.size() - 1;
    };
    auto is = [&](int s, const char* kind) { return content[s] != none && nodes[content[s]].kind == kind; };
    auto set_slot = [&](int s, H&& h, int n) {
        slots[s] = std::move(h);
        content[s] = n;
    };
    auto called = [&](CallResult&& r, const char* what) -> H {
        if (r.kind != CallResult::success) c.fail(std::string(what) + ": " + r.message);
        return std::move(r.value);
    };
    // all positions where a node refers to its children are known: edges is a multiset
    auto drop_edge = [&](int n, int e) {
        auto& v = nodes[n].edges;
        auto it = std::find(v.begin(), v.end(), e);
        if (it != v.end()) v.erase(it);
    };
    std::map<int, std::vector<int>> arrays;                 // exact contents
    std::map<int, std::vector<std::pair<int, int>>> maps_;  // key node, value node
    std::map<int, int> recs;

    size_t n = 10 + c.t.below(70);
    for (size_t i = 0; i < n; ++i) {
        int a = (int) c.t.below(slots.size()), b = (int) c.t.below(slots.size()), d = (int) c.t.below(slots.size());
        switch (c.t.below(26)) {
        case 0:
        case 1:
        case 2: { // a native object
            size_t size = sizeof(Payload) + (c.t.chance(1, 8) ? c.t.below(40000) : c.t.below(60));
            H h(vm);
            MUST(tiro_make_native(vm, &type, size, h, must));
            Payload p{magic, all.size(), size};
            auto* data = (unsigned char*) tiro_native_data(vm, h);
            memcpy(data, &p, sizeof p);
            for (size_t k = sizeof p; k < size; ++k) data[k] = (unsigned char) (p.id + k);
            all.emplace_back();
            int nn = node("leaf", {});
            nodes[nn].leaf = (int) p.id;
            set_slot(a, std::move(h), nn);
            c.add(sfmt("slot%d = native %d (%zu bytes)", a, (int) p.id, size));
            break;
        }
        case 3: { // array
            H h(vm);
            MUST(tiro_make_array(vm, c.t.below(4), h, must));
            MUST(tiro_array_push(vm, h, slots[b], must));
            int nn = node("array", {content[b]});
            arrays[nn] = {content[b]};
            c.add(sfmt("slot%d = [slot%d]", a, b));
            set_slot(a, std::move(h), nn);
            break;
        }
        case 4:
            if (!is(a, "array")) break;
            MUST(tiro_array_push(vm, slots[a], slots[b], must));
            arrays[content[a]].push_back(content[b]);
            if (content[b] != none) nodes[content[a]].edges.push_back(content[b]);
            c.add(sfmt("slot%d.push(slot%d)", a, b));
            break;
        case 5: { // remove from arrays
            if (!is(a, "array")) break;
            auto& v = arrays[content[a]];
            if (v.empty()) break;
            switch (c.t.below(3)) {
            case 0:
                MUST(tiro_array_pop(vm, slots[a], must));
                if (v.back() != none) drop_edge(content[a], v.back());
                v.pop_back();
                c.add(sfmt("slot%d.pop()", a));
                break;
            case 1:
                MUST(tiro_array_clear(vm, slots[a], must));
                v.clear();
                nodes[content[a]].edges.clear();
                c.add(sfmt("slot%d.clear()", a));
                break;
            default: {
                size_t k = c.t.below(v.size());
                MUST(tiro_array_set(vm, slots[a], k, slots[b], must));
                if (v[k] != none) drop_edge(content[a], v[k]);
                v[k] = content[b];
                if (content[b] != none) nodes[content[a]].edges.push_back(content[b]);
                c.add(sfmt("slot%d[%zu] = slot%d", a, k, b));
            }
            }
            break;
        }
        case 6: {
            H h = vm.tuple({slots[b], slots[d]});
            c.add(sfmt("slot%d = (slot%d, slot%d)", a, b, d));
            set_slot(a, std::move(h), node("tuple", {content[b], content[d]}));
            break;
        }
        case 7: {
            H h(vm);
            bool ok = c.t.chance(1, 2);
            if (ok) MUST(tiro_make_success(vm, slots[b], h, must));
            else MUST(tiro_make_error(vm, slots[b], h, must));
            c.add(sfmt("slot%d = result(slot%d)", a, b));
            set_slot(a, std::move(h), node("result", {content[b]}));
            break;
        }
        case 8: {
            bool nested = c.t.chance(1, 2);
            H h = called(w.call(nested ? "nested_closure" : "closure", {slots[b]}), "closure");
            c.add(sfmt("slot%d = closure(slot%d)", a, b));
            set_slot(a, std::move(h), node("closure", {content[b]}));
            break;
        }
        case 9: {
            H h = called(w.call("mk_map", {slots[b], slots[d]}), "map");
            int nn = node("map", {content[b], content[d]});
            maps_[nn] = {{content[b], content[d]}};
            c.add(sfmt("slot%d = map{slot%d: slot%d}", a, b, d));
            set_slot(a, std::move(h), nn);
            break;
        }
        case 10: { // overwrite / add a map entry
            if (!is(a, "map")) break;
            called(w.call("put", {slots[a], slots[b], slots[d]}), "put");
            auto& m = maps_[content[a]];
            bool found = false;
            for (auto& [k, v] : m)
                if (k == content[b]) {
                    if (v != none) drop_edge(content[a], v);
                    v = content[d];
                    found = true;
                }
            if (!found) {
                m.push_back({content[b], content[d]});
                if (content[b] != none) nodes[content[a]].edges.push_back(content[b]);
            }
            if (content[d] != none) nodes[content[a]].edges.push_back(content[d]);
            c.add(sfmt("slot%d[slot%d] = slot%d", a, b, d));
            break;
        }
        case 11: { // remove a map entry
            if (!is(a, "map")) break;
            auto& m = maps_[content[a]];
            if (c.t.chance(1, 3)) {
                called(w.call("clear", {slots[a]}), "clear");
                m.clear();
                nodes[content[a]].edges.clear();
                c.add(sfmt("slot%d.clear()", a));
                break;
            }
            called(w.call("remove", {slots[a], slots[b]}), "remove");
            for (size_t k = 0; k < m.size(); ++k)
                if (m[k].first == content[b]) {
                    if (m[k].first != none) drop_edge(content[a], m[k].first);
                    if (m[k].second != none) drop_edge(content[a], m[k].second);
                    m.erase(m.begin() + k);
                    break;
                }
            c.add(sfmt("slot%d.remove(slot%d)", a, b));
            break;
        }
        case 12: {
            H h = called(w.call("mk_set", {slots[b]}), "set");
            c.add(sfmt("slot%d = set{slot%d}", a, b));
            set_slot(a, std::move(h), node("set", {content[b]}));
            break;
        }
        case 13: {
            H h = called(w.call("mk_record", {slots[b]}), "record");
            int nn = node("record", {content[b]});
            recs[nn] = none;
            c.add(sfmt("slot%d = record(slot%d)", a, b));
            set_slot(a, std::move(h), nn);
            break;
        }
        case 14:
            if (!is(a, "record")) break;
            called(w.call("rec_put", {slots[a], slots[b]}), "record field");
            if (recs[content[a]] != none) drop_edge(content[a], recs[content[a]]);
            recs[content[a]] = content[b];
            if (content[b] != none) nodes[content[a]].edges.push_back(content[b]);
            c.add(sfmt("slot%d.y = slot%d", a, b));
            break;
        case 15: {
            H h = called(w.call("bound", {slots[b]}), "bound method");
            c.add(sfmt("slot%d = [slot%d].append", a, b));
            set_slot(a, std::move(h), node("bound", {content[b]}));
            break;
        }
        case 16:
            called(w.call("store", {slots[b]}), "store");
            module_var = content[b];
            c.add(sfmt("module_var = slot%d", b));
            break;
        case 17: {
            H h = called(w.call("suspend", {slots[b]}), "suspend");
            c.add(sfmt("slot%d = token of a coroutine holding slot%d", a, b));
            set_slot(a, std::move(h), node("token", {content[b]}));
            break;
        }
        case 18: { // native function with closure, or a coroutine that was not started
            H h(vm);
            if (c.t.chance(1, 2)) {
                h = vm.sync_function("f", [](tiro_vm_t, tiro_sync_frame_t) {}, 0, slots[b]);
                c.add(sfmt("slot%d = native function with closure slot%d", a, b));
            } else {
                H args = vm.tuple({slots[b]});
                MUST(tiro_make_coroutine(vm, w.fns[0], args, h, must));
                c.add(sfmt("slot%d = coroutine with argument slot%d", a, b));
            }
            set_slot(a, std::move(h), node("function", {content[b]}));
            break;
        }
        case 19: { // no lasting references
            const char* f = c.t.chance(1, 2) ? "trouble" : "echo";
            auto r = w.call(f, {slots[b]});
            c.add(sfmt("%s(slot%d)", f, b));
            break;
        }
        case 20:
        case 21: // drop
            if (c.t.chance(1, 2)) tiro_make_null(vm, slots[a]);
            else slots[a] = vm.h();
            content[a] = none;
            c.add(sfmt("drop slot%d", a));
            break;
        case 22: { // copy
            MUST(tiro_value_copy(vm, slots[b], slots[a], must));
            content[a] = content[b];
            c.add(sfmt("slot%d = slot%d", a, b));
            break;
        }
        default:
            if (c.t.chance(1, 2)) {
                collect();
                c.add("collect");
            } else {
                H cnt = vm.integer(c.t.below(60));
                called(w.call("waste", {cnt}), "waste");
                c.add("create garbage");
            }
        }
        check(false);
    }
    collect();
    for (size_t s = 0; s < slots.size(); ++s) // contents of what is still there
        if (content[s] != none && nodes[content[s]].leaf >= 0) {
            Payload p;
            memcpy(&p, tiro_native_data(vm, slots[s]), sizeof p);
            if (p.magic != magic || (int) p.id != nodes[content[s]].leaf) c.fail("a reachable native object changed");
        }
    size_t alive = 0;
    for (auto& l : all) alive += !l.finalised;
    c.count("native objects", all.size());
    c.count("finalised before the end", all.size() - alive);
    c.count("full collections checked", collections_checked);
    slots.clear();
    scratch.free();
    vmp.reset();
    for (auto& l : all) {
        if (!l.bad.empty()) c.fail(l.bad);
        if (l.finalised != 1) c.fail(sfmt("a native object was finalised %d times in total", l.finalised));
    }
    c.nontrivial = all.size() >= 2 && collections_checked >= 2;
}

// ------------------------------------------------------------------------------------------------ bounded memory
std::function<bool()>* bounded_next;
void bounded(Case& c) {
    static const char* snippets[] = {
        "live[i % 50] = \"text ${i}\";",
        "live[i % 50] = [i, i + 1, [i]];",
        "var s = \"\"; for var k = 0; k < 10; k += 1 { s = \"${s}piece ${k}\"; } live[i % 50] = s;",
        "live[i % 50] = map{i: [i], i + 1: \"x\"};",
        "const m = map{}; for var k = 0; k < 20; k += 1 { m[k] = i; } for var k = 0; k < 20; k += 1 { m.remove(k); } live[i % 50] = m;",
        "queue[i] = [i]; queue.remove(i - 20);",
        "seen.insert(i); seen.remove(i - 30);",
        "live[i % 50] = func() = [i];",
        "std.launch(func() { const x = [i]; return x; });",
        "std.launch(func() { std.yield_coroutine(); });",
        "std.launch(func() { const t = std.coroutine_token(); std.launch(func() { t.resume(); }); std.yield_coroutine(); live[i % 50] = [i]; });",
        "std.catch_panic(func() = std.panic(\"no ${i}\"));",
        "live[i % 50] = (a: i, b: [i]);",
        "const b = std.new_string_builder(); for var k = 0; k < 15; k += 1 { b.append(\"part \"); } live[i % 50] = b.to_string();",
        "live[i % 50] = std.new_buffer(2000, 1);",
        "if (i % 20 == 0) { live[i % 50] = std.new_buffer(100000, 1); }",
        "const a = []; for var k = 0; k < 60; k += 1 { a.append(k); } live[i % 50] = a; if (i % 3 == 0) { a.clear(); }",
        "live[i % 50] = set{i, \"${i}\", [i]};",
        "for x in [i, i, i] { live[x % 50] = (x, x); }",
        "live[i % 50] = env.native(i);",
        "live[i % 50] = live.append; live[i % 50] = \"abcdef\".slice(1, 3);",
        "live[i % 50] = std.success(4611686018427387904 + i);",
        "defer live[(i + 1) % 50] = [i]; live[i % 50] = 1.5 * i;",
        "const self = []; self.append([self, self]); live[i % 50] = self; live[i % 50] = null;",
        "deep(40, [i]);",
        "list = [list, i]; if (i % 40 == 0) { list = null; }",
    };
    size_t page = 1u << (16 + c.t.below(5));
    bool one = c.t.chance(1, 2); // all iterations in one call
    std::string body;
    size_t n = 1 + c.t.below(4);
    for (size_t i = 0; i < n; ++i) body += std::string("            { ") + snippets[c.t.below(sizeof snippets / sizeof *snippets)] + " };\n";
    std::string src = "import std;\nimport env;\nconst live = [];\nconst queue = map{};\nconst seen = set{};\nvar list = null;\n"
                      "func deep(n, x) { if (n == 0) { return x; } return deep(n - 1, [x]); }\n"
                      "func init() { for var i = 0; i < 50; i += 1 { live.append(null); } }\n";
    if (one)
        src += "export func work() {\n    init();\n    var from = 0;\n    while (env.more()) {\n        for var i = from; i < from + 200; i += 1 {\n" + body
             + "        }\n        from += 200;\n        std.dispatch();\n    }\n    return live.size() + queue.size() + seen.size();\n}\n";
    else
        src += "export func work(from, to) {\n    if (from == 0) { init(); }\n    for var i = from; i < to; i += 1 {\n" + body
             + "    }\n    return live.size() + queue.size() + seen.size();\n}\n";
    c.describe(src);
    auto m = compile("main", src);
    if (!m.ok()) c.fail("program rejected: " + m.errors());
    size_t limit = 3u << 20;
    c.add(sfmt("page size %zu, heap limit %zu", page, limit));
    Guard g(Plan{});
    Vm vm(limit, page);
    {
        H native = vm.sync_function("native", [](tiro_vm_t v, tiro_sync_frame_t f) {
            static const tiro_native_type_t type{ts("counted"), 8, [](void* d, size_t) { --*(long*) (*(long**) d); }};
            Err e;
            H x(v);
            tiro_make_native(v, &type, 64, x, e);
            if (!e.ok()) {
                Err e2;
                tiro_sync_frame_panic_msg(f, ts("allocation failed"), e2);
                return;
            }
            *(long**) tiro_native_data(v, x) = (long*) Vm::of(v).user;
            ++*(long*) Vm::of(v).user;
            tiro_sync_frame_return_value(f, x, e);
        }, 1);
        H more = vm.sync_function("more", [](tiro_vm_t v, tiro_sync_frame_t f) {
            H r(v);
            tiro_make_boolean(v, (*bounded_next)(), r, nullptr);
            tiro_sync_frame_return_value(f, r, nullptr);
        }, 0);
        vm.load_native("env", {{"native", native}, {"more", more}});
    }
    long natives = 0, max_natives = 0;
    vm.user = &natives;
    u64 i = 0, rounds = 0;
    auto settle = [&] {
        H scratch(vm);
        for (int k = 0; k < 2; ++k) {
            (k ? plan.measure : plan.force_next) = true;
            tiro_make_null(vm, scratch);
            MUST(tiro_make_float(vm, 1.25, scratch, must));
        }
    };
    size_t first_bytes = 0, first_objects = 0;
    auto more = [&] {
        max_natives = std::max(max_natives, natives);
        if (!first_bytes && plan.bytes > limit / 8) {
            settle();
            first_bytes = plan.live_bytes;
            first_objects = plan.live_objects;
        }
        return plan.bytes < 2 * limit + limit / 4 && rounds < 4000;
    };
    std::function<bool()> next = [&] {
        if (!more()) {
            settle();
            return false;
        }
        i += 200;
        ++rounds;
        return true;
    };
    bounded_next = &next;
    vm.load(m);
    H fn = vm.get_export("main", "work");
    auto check = [&](const CallResult& r) {
        if (!r.ok())
            c.fail(sfmt("after %llu bytes of garbage, %llu iterations: ", (unsigned long long) plan.bytes, (unsigned long long) i)
                   + (r.kind == CallResult::panic ? "panic " : "") + r.message);
    };
    if (one) {
        check(vm.call(fn, {}));
    } else {
        while (more()) {
            H a = vm.integer(i), b = vm.integer(i + 200);
            check(vm.call(fn, {a, b}));
            i += 200;
            ++rounds;
        }
        settle();
    }
    c.add(sfmt("live after %llu iterations: %zu bytes in %zu objects, earlier: %zu bytes in %zu objects", (unsigned long long) i, plan.live_bytes,
        plan.live_objects, first_bytes, first_objects));
    if (plan.live_bytes > first_bytes + 32768 || plan.live_objects > first_objects + 150)
        c.fail("the amount of live memory grows although the program's live data is bounded");
    c.count("bytes allocated", plan.bytes);
    c.count("iterations", i);
    c.count("native objects alive at most", max_natives);
    fn.free();
    vm.close();
    if (natives != 0) c.fail(sfmt("%ld native objects were not finalised", natives));
    c.nontrivial = plan.bytes >= 2 * limit;
}

// A heap that may grow (almost) without limit: the memory in use still follows the live data, however much is allocated.
void steady(Case& c) {
    static const char* snippets[] = {
        "live[i % 10] = std.new_buffer(SIZE, 1);",
        "live[i % 10] = [std.new_buffer(SIZE, 0), i];",
        "const b = std.new_string_builder(); b.append(part); b.append(part); live[i % 10] = b.to_string();",
        "live[i % 10] = (\"${part}${i}\", i);",
        "std.launch(func() { live[i % 10] = std.new_buffer(SIZE, 1); });",
        "live[i % 10] = std.catch_panic(func() { const x = std.new_buffer(SIZE, 2); std.panic(part); });",
        "const a = []; for var k = 0; k < 7; k += 1 { a.append((i, k)); } live[i % 10] = a;",
        "const m = map{}; for var k = 0; k < 7; k += 1 { m[k] = i; } live[i % 10] = m;",
    };
    const size_t all = sizeof snippets / sizeof *snippets, large = all - 2;
    size_t size = (size_t) c.t.pick({i64(20000), i64(40000), i64(70000), i64(100000), i64(200000)}) + c.t.below(5000);
    size_t page = 1u << (16 + c.t.below(5));
    std::string body;
    size_t n = 1 + c.t.below(2);
    for (size_t i = 0; i < n; ++i) {
        std::string x = snippets[c.t.below(i ? all : large)];
        auto put = [&](const char* what, size_t v) {
            for (size_t p; (p = x.find(what)) != std::string::npos;) x.replace(p, strlen(what), std::to_string(v));
        };
        put("SIZE", size);
        body += "        { " + x + " };\n";
    }
    std::string src = "import std;\nconst live = [];\nvar part = \"\";\n"
                      "func init() { for var i = 0; i < 10; i += 1 { live.append(null); }; const b = std.new_string_builder(); while (b.size() < "
                    + std::to_string(size) + ") { b.append(\"0123456789abcdef\"); }; part = b.to_string(); }\n"
                    + "export func work(from, to) {\n    if (from == 0) { init(); }\n    for var i = from; i < to; i += 1 {\n" + body
                    + "    }\n}\n";
    c.describe(src);
    auto m = compile("main", src);
    if (!m.ok()) c.fail("program rejected: " + m.errors());
    size_t limit = c.t.chance(1, 2) ? size_t(1) << 32 : 1u << 30;
    Guard g(Plan{});
    Vm vm(limit, page);
    vm.load(m);
    H fn = vm.get_export("main", "work");
    // at most 2 * 20 values of less than four times the size are alive, and some pages are only partly used
    const size_t bound = (24u << 20) + 40 * 4 * size, volume = bound * 8;
    u64 i = 0;
    while (plan.bytes < volume && i < 4000000) {
        H a = vm.integer((i64) i), b = vm.integer((i64) i + 10);
        auto r = vm.call(fn, {a, b});
        if (!r.ok()) c.fail("unexpected result: " + r.message);
        i += 10;
        if (plan.max_total > bound)
            c.fail(sfmt("after %llu iterations and %llu bytes of garbage the heap holds %zu bytes; the live data is bounded by a few hundred kilobytes or megabytes (%zu)",
                (unsigned long long) i, (unsigned long long) plan.bytes, plan.max_total, 40 * size));
    }
    c.add(sfmt("%llu iterations, %llu bytes allocated, at most %zu bytes in the heap, bound %zu", (unsigned long long) i, (unsigned long long) plan.bytes, plan.max_total, bound));
    c.count("bytes allocated", plan.bytes);
    c.label(sfmt("peak below %zu MB", (plan.max_total >> 20) / 8 * 8 + 8));
    c.nontrivial = plan.bytes >= volume;
}

// ------------------------------------------------------------------------------------------------ large objects
// Containers, strings and buffers of up to a few megabytes that live through several collections while fresh values
// are stored at generated positions; the model is an ordinary object graph.
struct Big {
    enum Kind { text, tuple, array, map, buffer } kind;
    size_t n = 0;                                  // size of tuples, arrays (number of elements), buffers
    std::string str;                               // text
    u64 seed = 0;                                  // buffers
    std::unordered_map<u64, std::shared_ptr<Big>> at; // elements that are not null
};

void big(Case& c) {
    using P = std::shared_ptr<Big>;
    size_t page = 1u << (16 + c.t.below(5));
    Guard g(Plan{});
    Vm vm(256u << 20, page);
    auto m = compile("main",
        "export func make() = map{};\n"
        "export func put(m, k, v) { m[k] = v; }\n"
        "export func get(m, k) = m[k];\n"
        "export func size(m) = m.size();\n"
        "export func fill(m, from, to) { for var i = from; i < to; i += 1 { m[i] = null; } }\n");
    if (!m.ok()) c.fail("setup: " + m.errors());
    vm.load(m);
    H fmake = vm.get_export("main", "make"), fput = vm.get_export("main", "put"), fget = vm.get_export("main", "get"),
      fsize = vm.get_export("main", "size"), ffill = vm.get_export("main", "fill");
    auto call = [&](tiro_handle_t f, const std::vector<tiro_handle_t>& args) {
        auto r = vm.call(f, args);
        if (!r.ok()) c.fail("a map operation failed: " + r.message);
        return std::move(r.value);
    };
    std::vector<H> slots;
    std::vector<P> model;
    auto hash = [](u64 x) {
        x *= 0x9e3779b97f4a7c15ull;
        return x ^ (x >> 29);
    };
    size_t budget = 6u << 20; // cells per case are bounded
    auto pick_size = [&]() -> size_t {
        size_t lg = c.t.chance(1, 3) ? 12 + c.t.below(6) : c.t.below(12);
        size_t n = (size_t(1) << lg) + c.t.range(-3, 3);
        if ((i64) n < 1) n = 1;
        if (n * 8 > budget) n = 5;
        budget -= n * 8;
        return n;
    };
    u64 fresh = 0;
    auto make = [&](H& h, int depth) -> P {
        auto p = std::make_shared<Big>();
        switch (depth ? c.t.below(3) : c.t.weighted({1, 4, 4, 1, 1})) {
        case 0: {
            p->kind = Big::text;
            size_t n = depth ? 8 : pick_size() * 8;
            p->str = sfmt("text %llu ", (unsigned long long) ++fresh);
            while (p->str.size() < n) p->str += char('a' + hash(p->str.size() + fresh) % 26);
            MUST(tiro_make_string(vm, ts(p->str), h, must));
            break;
        }
        case 1:
            p->kind = Big::tuple;
            p->n = depth ? 1 + c.t.below(4) : pick_size();
            MUST(tiro_make_tuple(vm, p->n, h, must));
            break;
        case 2: {
            p->kind = Big::array;
            size_t cap = depth ? 2 : pick_size();
            MUST(tiro_make_array(vm, c.t.chance(1, 2) ? cap : 0, h, must));
            H x = vm.null();
            p->n = depth ? 2 : std::min<size_t>(cap, c.t.chance(1, 2) ? cap : c.t.below(100));
            for (size_t i = 0; i < p->n; ++i) MUST(tiro_array_push(vm, h, x, must));
            break;
        }
        case 3: {
            p->kind = Big::map;
            H made = call(fmake, {});
            MUST(tiro_value_copy(vm, made, h, must));
            p->n = c.t.chance(1, 3) ? c.t.below(5000) : c.t.below(100);
            H from = vm.integer(0), to = vm.integer(p->n);
            call(ffill, {h, from, to});
            break;
        }
        default:
            p->kind = Big::buffer;
            p->n = pick_size() * 4;
            p->seed = ++fresh;
            MUST(tiro_make_buffer(vm, p->n, h, must));
            unsigned char* d = tiro_buffer_data(vm, h);
            for (size_t i = 0; i < p->n; ++i) d[i] = (unsigned char) hash(p->seed + i / 64);
        }
        return p;
    };
    auto get = [&](const P& p, tiro_handle_t h, u64 i, H& r) {
        if (p->kind == Big::tuple) MUST(tiro_tuple_get(vm, h, i, r, must));
        else if (p->kind == Big::array) MUST(tiro_array_get(vm, h, i, r, must));
        else {
            H k = vm.integer(i);
            r = call(fget, {h, k});
        }
    };
    u64 checked = 0;
    std::function<void(const P&, tiro_handle_t, int)> verify = [&](const P& p, tiro_handle_t h, int depth) {
        if (!p) {
            if (tiro_value_kind(vm, h) != TIRO_KIND_NULL) c.fail("a position that should hold null holds a different value");
            return;
        }
        static const tiro_kind_t kinds[] = {TIRO_KIND_STRING, TIRO_KIND_TUPLE, TIRO_KIND_ARRAY, TIRO_KIND_INTERNAL, TIRO_KIND_BUFFER};
        if (p->kind != Big::map && tiro_value_kind(vm, h) != kinds[p->kind])
            c.fail(sfmt("a reachable value changed its kind to %s", tiro_kind_str(tiro_value_kind(vm, h))));
        ++checked;
        switch (p->kind) {
        case Big::text:
            if (vm.text(h) != p->str) c.fail("a reachable string changed");
            return;
        case Big::buffer: {
            if (tiro_buffer_size(vm, h) != p->n) c.fail("a reachable buffer changed its size");
            unsigned char* d = tiro_buffer_data(vm, h);
            for (size_t i = 0; i < p->n; ++i)
                if (d[i] != (unsigned char) hash(p->seed + i / 64)) c.fail(sfmt("byte %zu of a reachable buffer changed", i));
            return;
        }
        case Big::tuple:
            if (tiro_tuple_size(vm, h) != p->n) c.fail("a reachable tuple changed its size");
            break;
        case Big::array:
            if (tiro_array_size(vm, h) != p->n) c.fail("a reachable array changed its size");
            break;
        case Big::map: {
            H s = call(fsize, {h});
            if (tiro_integer_value(vm, s) != (i64) p->n) c.fail("a reachable map changed its size");
            break;
        }
        }
        if (depth > 6) return;
        for (auto& [i, e] : p->at) {
            H x(vm);
            get(p, h, i, x);
            verify(e, x, depth + 1);
        }
        for (u64 k = 0; k < 4 && p->n; ++k) { // others are null
            u64 i = hash(k + checked) % p->n;
            if (p->at.count(i)) continue;
            H x(vm);
            get(p, h, i, x);
            verify(nullptr, x, depth + 1);
        }
    };
    int collections = 0;
    H scratch(vm);
    auto collect = [&] {
        plan.force_next = true;
        MUST(tiro_make_float(vm, 0.5, scratch, must));
        ++collections;
    };
    size_t nslots = 1 + c.t.below(5);
    std::string log;
    for (size_t i = 0; i < nslots; ++i) {
        slots.emplace_back(vm);
        model.push_back(make(slots[i], 0));
        c.add(sfmt("slot%zu = kind %d of size %zu", i, model[i]->kind, model[i]->n ? model[i]->n : model[i]->str.size()));
    }
    int steps = 4 + (int) c.t.below(24);
    size_t largest = 0;
    for (auto& p : model) largest = std::max(largest, p->n);
    for (int s = 0; s < steps; ++s) {
        size_t a = c.t.below(nslots), b = c.t.below(nslots);
        switch (c.t.weighted({7, 5, 3, 2, 1, 1})) {
        case 0: { // store something
            P p = model[a];
            if (p->kind == Big::text || p->kind == Big::buffer || !p->n) break;
            u64 i = c.t.chance(1, 4) ? p->n - 1 : c.t.chance(1, 4) ? 0 : c.t.below(p->n);
            H x(vm);
            P v;
            if (c.t.chance(1, 4)) {
                MUST(tiro_value_copy(vm, slots[b], x, must));
                v = model[b];
            } else {
                v = make(x, 1);
                if (v->n) { // with a child
                    H y = vm.string(sfmt("child %llu", (unsigned long long) ++fresh));
                    if (v->kind == Big::tuple) MUST(tiro_tuple_set(vm, x, 0, y, must));
                    else MUST(tiro_array_set(vm, x, 0, y, must));
                    auto t = std::make_shared<Big>();
                    t->kind = Big::text;
                    t->str = sfmt("child %llu", (unsigned long long) fresh);
                    v->at[0] = t;
                }
            }
            if (p->kind == Big::tuple) MUST(tiro_tuple_set(vm, slots[a], i, x, must));
            else if (p->kind == Big::array) MUST(tiro_array_set(vm, slots[a], i, x, must));
            else {
                H k = vm.integer(i);
                call(fput, {slots[a], k, x});
            }
            p->at[i] = v;
            c.add(sfmt("slot%zu[%llu] = kind %d", a, (unsigned long long) i, v->kind));
            break;
        }
        case 1:
            collect();
            c.add("collect");
            break;
        case 2: { // garbage, overwrites what was freed
            size_t n = 1 + c.t.below(60), len = 8 + c.t.below(200);
            for (size_t i = 0; i < n; ++i) MUST(tiro_make_string(vm, ts(std::string(len, 'x')), scratch, must));
            if (c.t.chance(1, 3)) MUST(tiro_make_tuple(vm, pick_size(), scratch, must));
            c.add(sfmt("create %zu strings of length %zu", n, len));
            break;
        }
        case 3: { // push onto an array, possibly replacing its storage
            if (model[a]->kind != Big::array) break;
            size_t n = 1 + c.t.below(40);
            for (size_t i = 0; i < n; ++i) {
                H x = vm.string(sfmt("pushed %llu", (unsigned long long) ++fresh));
                MUST(tiro_array_push(vm, slots[a], x, must));
                auto t = std::make_shared<Big>();
                t->kind = Big::text;
                t->str = sfmt("pushed %llu", (unsigned long long) fresh);
                model[a]->at[model[a]->n++] = t;
            }
            c.add(sfmt("push %zu strings onto slot%zu", n, a));
            break;
        }
        case 4:
            model[a] = make(slots[a], 0);
            largest = std::max(largest, model[a]->n);
            c.add(sfmt("slot%zu = kind %d of size %zu", a, model[a]->kind, model[a]->n ? model[a]->n : model[a]->str.size()));
            break;
        default:
            verify(model[a], slots[a], 0);
            c.add(sfmt("verify slot%zu", a));
        }
    }
    collect();
    for (int i = 0; i < 200; ++i) MUST(tiro_make_string(vm, ts(std::string(8 + i % 40, 'y')), scratch, must));
    for (size_t i = 0; i < nslots; ++i) verify(model[i], slots[i], 0);
    c.count("values verified in large containers", checked);
    c.nontrivial = collections >= 2 && largest >= 4096;
    for (auto& p : model) p->at.clear(); // cycles
}

} // namespace

int main(int argc, char** argv) {
    pbt::Runner r("C08", "at least three forced collections and observable effects (programs, library), at least two native objects and two checked full collections (finalisers), at least twice the heap limit allocated (bounded), two collections and a container of at least 4096 elements (large)",
        {
            Suite{"programs", 1200, 80000, programs},
            Suite{"library", 2000, 250000, library},
            Suite{"finalisers", 2000, 200000, finalisers},
            Suite{"bounded", 32, 3000, bounded}, Suite{"steady", 12, 600, steady},
            Suite{"large", 1500, 60000, big},
            Suite{"maps", 800, 40000, gc_maps},
            Suite{"sequences", 3000, 100000, gc_sequences},
            Suite{"strings", 3000, 100000, gc_strings},
            Suite{"native functions", 1500, 100000, gc_native},
            Suite{"async tokens", 300, 20000, gc_tokens},
            Suite{"coroutines", 1500, 100000, gc_coroutines},
            Suite{"modules", 1500, 100000, gc_modules},
            Suite{"values", 1500, 100000, gc_values},
            Suite{"frames", 1000, 60000, gc_frames},
        });
    return r.main(argc, argv);
}
