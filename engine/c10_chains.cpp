// C10, suite "chains": long chains of calls through frames of every kind (plain, many locals or parameters, defers,
// closures, catches, resumable native functions, record members, loops), up to the limit of a coroutine's stack.
#include "pbt.hpp"
#include "tiro_util.hpp"

using namespace tu;
using pbt::Case;

namespace chains_ {

enum Kind { plain, locals, defers, bad_defer, closure, caught, via, params, member, loop, kind_count };
const char* const kind_names[] = {"plain", "locals", "defer", "panicking defer", "closure", "catch", "native", "parameters", "member", "loop"};
enum Bottom { value, panic, divide, yields, handled, bottom_count };
const char* const bottom_names[] = {"value", "panic", "division by zero", "suspension", "handled panic"};

struct Link {
    Kind kind = plain;
    int c = 0;     // constant of this link
    int count = 0; // number of locals or parameters
    int mod = 1, rem = 0;
};

void via_native(tiro_vm_t v, tiro_resumable_frame_t f) {
    Err e;
    H x(v);
    switch (tiro_resumable_frame_state(f)) {
    case TIRO_RESUMABLE_STATE_START: {
        H fn(v);
        tiro_resumable_frame_arg(f, 0, fn, e);
        tiro_resumable_frame_invoke(f, 1, fn, nullptr, e);
        break;
    }
    case 1:
        tiro_resumable_frame_invoke_return(f, x, e);
        tiro_resumable_frame_return_value(f, x, e);
        break;
    default: break;
    }
}

using pbt::i64;
const i64 modulus = 1000003;

struct State {
    i64 g = 7, caught = 0;
    bool ok = true;
    i64 value = 0;
    std::string message;
    void note(i64 x) { g = (g * 31 + x) % modulus; }
    void panic(std::string m) { ok = false, message = std::move(m); }
};

struct Plan {
    std::vector<Link> links;
    Bottom bottom = value;

    std::string text() const {
        std::string s = "import std;\nimport env;\n"
                        "func note(s, x) { s.g = (s.g * 31 + x) % 1000003; }\n"
                        "func zero(s) { return s.caught - s.caught; }\n";
        switch (bottom) {
        case value: s += "func bottom(s) { note(s, 3); return 5; }\n"; break;
        case panic: s += "func bottom(s) { note(s, 3); std.panic(\"bottom\"); }\n"; break;
        case divide: s += "func bottom(s) { note(s, 3); return 5 / zero(s); }\n"; break;
        case yields: s += "func bottom(s) { note(s, 3); std.dispatch(); note(s, 4); std.dispatch(); return 5; }\n"; break;
        default:
            s += "func bottom(s) { note(s, 3); const r = std.catch_panic(func() { defer note(s, 8); std.panic(\"inner\"); });\n"
                 "  note(s, r.error().message().size()); return 5; }\n";
        }
        for (size_t i = 0; i < links.size(); ++i) {
            const Link& l = links[i];
            const Link& nl = links[(i + 1) % links.size()];
            std::string args = "(n - 1, s";
            if (nl.kind == params)
                for (int k = 0; k < nl.count; ++k) args += sfmt(", n + %d", k);
            args += ")";
            std::string next = sfmt("k%zu", (i + 1) % links.size()), call = next + args;
            s += sfmt("func k%zu(n, s", i);
            if (l.kind == params)
                for (int k = 0; k < l.count; ++k) s += sfmt(", p%d", k);
            s += sfmt(") {\n  if (n == 0) { return bottom(s); }\n  note(s, %d);\n", l.c);
            switch (l.kind) {
            case plain: s += sfmt("  return %s + %d;\n", call.c_str(), l.c); break;
            case locals: {
                std::string sum = "0";
                for (int k = 0; k < l.count; ++k) s += sfmt("  var v%d = n + %d;\n", k, k), sum += sfmt(" + v%d", k);
                s += sfmt("  const r = %s;\n  return r + (%s) %% 7;\n", call.c_str(), sum.c_str());
                break;
            }
            case defers: s += sfmt("  defer note(s, %d);\n  return %s + %d;\n", l.c + 1, call.c_str(), l.c); break;
            case bad_defer:
                s += sfmt("  defer note(s, %d);\n  defer { note(s, n %% 100); if (n %% %d == %d) { std.panic(\"d${n}\"); } };\n  return %s + %d;\n",
                    l.c + 1, l.mod, l.rem, call.c_str(), l.c);
                break;
            case closure: s += sfmt("  var m = n;\n  const f = func() { m += 1; return %s + m %% 5; };\n  return f() + m %% 3;\n", call.c_str()); break;
            case caught:
                s += sfmt("  const r = std.catch_panic(func() { return %s; });\n"
                          "  if (r.type() == #error) { s.caught += 1; note(s, r.error().message().size()); return %d; }\n  return r.value() + %d;\n",
                    call.c_str(), l.c, l.c);
                break;
            case via: s += sfmt("  return env.via(func() { return %s; }) + %d;\n", call.c_str(), l.c); break;
            case params: {
                std::string sum = "0";
                for (int k = 0; k < l.count; ++k) sum += sfmt(" + p%d", k);
                s += sfmt("  const r = %s;\n  return r + (%s) %% 7;\n", call.c_str(), sum.c_str());
                break;
            }
            case member: s += sfmt("  const o = (f: %s, g: n);\n  return o.f%s + o.g %% 5;\n", next.c_str(), args.c_str()); break;
            default:
                s += sfmt("  for x in [n, n + 1, n + 2] {\n    defer note(s, x %% 50);\n    if (x %% 3 == %d) { return %s + %d; }\n  }\n  return 0;\n",
                    l.rem, call.c_str(), l.c);
            }
            s += "}\n";
        }
        std::string first = "k0(n, s";
        if (links[0].kind == params)
            for (int k = 0; k < links[0].count; ++k) first += sfmt(", n + 1 + %d", k);
        s += "export func run(n) {\n  const s = (g: 7, caught: 0);\n  const r = std.catch_panic(func() { return " + first + "); });\n"
             "  return (if (r.type() == #error) { r.error().message(); } else { r.value(); }, s.g, s.caught);\n}\n"
             "export func bare(n) {\n  const s = (g: 7, caught: 0);\n  return " + first + ");\n}\n";
        return s;
    }

    State model(i64 depth) const {
        State st;
        size_t k = links.size();
        // on the way down
        for (i64 n = depth; n > 0; --n) {
            const Link& l = links[size_t(depth - n) % k];
            st.note(l.c);
            if (l.kind == loop)
                for (i64 x = n; x % 3 != l.rem; ++x) st.note(x % 50);
        }
        st.note(3);
        st.value = 5;
        switch (bottom) {
        case value: break;
        case panic: st.panic("bottom"); break;
        case divide: st.panic("div"); break; // message is not specified
        case yields: st.note(4); break;
        default: st.note(8), st.note(5);
        }
        // on the way up
        for (i64 n = 1; n <= depth; ++n) {
            const Link& l = links[size_t(depth - n) % k];
            auto sum = [&](i64 base) {
                i64 r = 0;
                for (int j = 0; j < l.count; ++j) r += base + j;
                return r % 7;
            };
            switch (l.kind) {
            case plain:
            case via: st.value += l.c; break;
            case locals: st.value += sum(n); break;
            case params: st.value += sum(n + 1); break;
            case defers:
                st.value += l.c;
                st.note(l.c + 1);
                break;
            case bad_defer:
                st.value += l.c;
                st.note(n % 100);
                if (n % l.mod == l.rem && st.ok) st.panic(sfmt("d%lld", (long long) n));
                st.note(l.c + 1);
                break;
            case closure: st.value += (n + 1) % 5 + (n + 1) % 3; break;
            case caught:
                if (!st.ok) {
                    st.caught += 1;
                    st.note(st.message == "div" ? i64(div_size) : i64(st.message.size()));
                    st.value = 0;
                    st.ok = true;
                }
                st.value += l.c;
                break;
            case member: st.value += n % 5; break;
            default: {
                i64 x = n;
                while (x % 3 != l.rem) ++x;
                st.value += l.c;
                st.note(x % 50);
            }
            }
        }
        return st;
    }
    static size_t div_size; // length of the message of a division by zero
};
size_t Plan::div_size = 0;

} // namespace chains_

void chains(Case& c) {
    using namespace chains_;
    Plan p;
    size_t k = 1 + c.t.below(6);
    bool mixed = c.t.chance(3, 4);
    Kind common = Kind(c.t.below(kind_count));
    for (size_t i = 0; i < k; ++i) {
        Link l;
        l.kind = mixed || !i ? Kind(c.t.below(kind_count)) : common;
        l.c = int(c.t.below(40));
        l.count = int(c.t.chance(1, 8) ? c.t.below(200) : c.t.below(12));
        l.mod = int(1 + c.t.below(60));
        if (l.kind == bad_defer) l.rem = int(c.t.below(u64(l.mod)));
        if (l.kind == loop) l.rem = int(c.t.below(3));
        p.links.push_back(l);
    }
    p.bottom = Bottom(c.t.below(bottom_count));
    bool traces = c.t.chance(1, 10);
    size_t coroutines = c.t.chance(1, 3) ? 2 + c.t.below(4) : 1;
    std::vector<i64> depths;
    for (size_t j = 0; j < coroutines; ++j) {
        u64 bits = c.t.chance(1, 6) && coroutines == 1 ? c.t.below(18) : c.t.below(13);
        if (traces && bits > 9) bits = 9;
        depths.push_back(i64((u64(1) << bits) - 1 + c.t.below(u64(1) << bits)));
    }
    std::string src = p.text(), what;
    for (i64 d : depths) what += sfmt(" %lld", (long long) d);
    c.describe("depths:" + what + "\n" + src);

    Compiled m = compile("main", src);
    if (!m.ok()) c.fail("a valid program is rejected: " + m.errors());
    Vm vm(512u << 20, 0, traces);
    H via(vm), name = vm.string("via");
    {
        tiro_resumable_frame_desc_t d{};
        d.name = name;
        d.arg_count = 1;
        d.func = via_native;
        MUST(tiro_make_resumable_function(vm, &d, via, must));
        std::vector<std::pair<std::string, H>> mem;
        mem.emplace_back("via", std::move(via));
        vm.load_env_with(mem);
    }
    Err e;
    tiro_vm_load_bytecode(vm, m.module, e);
    if (!e.ok()) c.fail("a compiled module is not accepted: " + e.text());
    if (!Plan::div_size) {
        Compiled q = compile("q", "import std;\nfunc f(a) { return 1 / a; }\nexport func main() { return std.catch_panic(func() = f(0)).error().message().size(); }\n");
        MUST(tiro_vm_load_bytecode(vm, q.module, must));
        auto r = vm.call("q", "main");
        if (!r.ok()) c.fail("division by zero: " + r.message);
        Plan::div_size = size_t(tiro_integer_value(vm, r.value));
    }

    auto expect = [&](i64 depth) {
        State s = p.model(depth);
        std::string v = s.ok ? sfmt("%lld", (long long) s.value) : s.message == "div" ? "\"div\"" : "\"" + s.message + "\"";
        return sfmt("(%s, %lld, %lld)", v.c_str(), (long long) s.g, (long long) s.caught);
    };
    auto compare = [&](tiro_handle_t co, i64 depth, const char* when) {
        auto r = vm.result_of(co);
        if (!r.ok()) c.fail(sfmt("%s: a chain of %lld calls did not return: %s", when, (long long) depth, r.message.c_str()));
        H x(vm);
        MUST(tiro_tuple_get(vm, r.value, 0, x, must));
        if (tiro_value_kind(vm, x) == TIRO_KIND_STRING && vm.text(x) == "integer division by zero") {
            H s = vm.string("div");
            MUST(tiro_tuple_set(vm, r.value, 0, s, must));
        }
        std::string got = vm.show(r.value), want = expect(depth);
        if (got != want && want.rfind("(\"div\"", 0) == 0 && got.rfind("(\"", 0) == 0) {
            // any message is fine for the division
            got = "(\"div\"" + got.substr(got.find("\", ", 2) + 1);
        }
        if (got != want)
            c.fail(sfmt("%s: a chain of %lld calls produced %s, expected %s", when, (long long) depth, got.c_str(), want.c_str()));
    };
    auto start = [&](const char* f, i64 depth) {
        H fn = vm.get_export("main", f), n = vm.integer(depth), t = vm.tuple({n}), co(vm);
        MUST(tiro_make_coroutine(vm, fn, t, co, must));
        MUST(tiro_coroutine_start(vm, co, must));
        return co;
    };
    std::vector<H> cos;
    for (i64 d : depths) cos.push_back(start("run", d));
    Err re;
    vm.run(re);
    bool overflow = !re.ok();
    i64 deepest = *std::max_element(depths.begin(), depths.end());
    if (overflow) {
        // the stack of a coroutine holds at least 16 MiB: at most about 2 kB per link
        size_t words = 0;
        for (auto& l : p.links) words = std::max(words, size_t(40 + 2 * (l.kind == locals || l.kind == params ? l.count : 0) + 2 * 200));
        if (deepest * i64(words) * 8 < (8 << 20)) c.fail(sfmt("a chain of %lld calls failed: ", (long long) deepest) + re.text());
        if (re.code() != TIRO_ERROR_INTERNAL && re.code() != TIRO_ERROR_ALLOC) c.fail("unexpected error " + re.text());
        // run the others
        while (tiro_vm_has_ready(vm)) {
            Err again;
            vm.run(again);
        }
    }
    for (size_t j = 0; j < depths.size(); ++j) {
        if (overflow && !tiro_coroutine_completed(vm, cos[j])) continue;
        compare(cos[j], depths[j], overflow ? "next to an overflow" : "chain");
    }
    // the machine is as good as new
    i64 small = i64(c.t.below(40));
    H co = start("run", small);
    Err e2;
    vm.run(e2);
    if (!e2.ok()) c.fail("afterwards: " + e2.text());
    compare(co, small, "afterwards");
    {
        H b = start("bare", small);
        Err e3;
        vm.run(e3);
        if (!e3.ok()) c.fail("uncaught: " + e3.text());
        State s = p.model(small);
        auto r = vm.result_of(b);
        if (r.ok() != s.ok) c.fail(s.ok ? "a call panicked: " + r.message : "a panic got lost");
        if (s.ok && vm.show(r.value) != sfmt("%lld", (long long) s.value)) c.fail("uncaught: returned " + vm.show(r.value));
        if (!s.ok && s.message != "div" && r.message != s.message) c.fail("the panic arrived as " + r.message + ", expected " + s.message);
    }
    for (auto& l : p.links) c.label(std::string("links: ") + kind_names[l.kind]);
    c.label(std::string("bottom: ") + bottom_names[p.bottom]);
    c.label("stack overflow", overflow);
    c.label("deeper than 1000", deepest > 1000);
    c.label("deeper than 50000", deepest > 50000);
    c.count("calls in chains", u64(deepest));
    c.nontrivial = deepest >= 4;
}
