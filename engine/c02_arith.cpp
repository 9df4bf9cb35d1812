// C02: operators and math functions on generated operands against exact integer arithmetic and IEEE doubles.
#include "tiro_util.hpp"

using namespace tu;
using pbt::Case;
using pbt::Suite;

namespace {

struct Val {
    enum Kind { integer, flt, other, panic } k = other;
    i64 i = 0;
    f64 f = 0;
    int o = 0;
    static Val I(i64 v) { Val r; r.k = integer; r.i = v; return r; }
    static Val F(f64 v) { Val r; r.k = flt; r.f = v; return r; }
    static Val P() { Val r; r.k = panic; return r; }
    f64 num() const { return k == integer ? (f64) i : f; }
    bool number() const { return k == integer || k == flt; }
    std::string str() const {
        switch (k) {
        case integer: return sfmt("%lld", (long long) i);
        case flt: return std::isnan(f) ? "nan" : sfmt("%a", f);
        case panic: return "panic";
        default: return sfmt("other#%d", o);
        }
    }
};

const char* const binary_ops[] = {"+", "-", "*", "/", "%", "**"};
const char* const math1[] = {"abs", "log", "sqrt", "round", "ceil", "floor", "sin", "cos", "tan", "asin", "acos", "atan"};
constexpr int N_OTHER = 12;

using i128 = __int128;

Val ref_binary(int op, const Val& a, const Val& b) {
    if (!a.number() || !b.number()) return Val::P();
    if (a.k == Val::flt || b.k == Val::flt) {
        f64 x = a.num(), y = b.num();
        switch (op) {
        case 0: return Val::F(x + y);
        case 1: return Val::F(x - y);
        case 2: return Val::F(x * y);
        case 3: return Val::F(x / y);
        case 4: return Val::F(std::fmod(x, y));
        default: return Val::F(std::pow(x, y));
        }
    }
    auto fit = [](i128 v) { return v < INT64_MIN || v > INT64_MAX ? Val::P() : Val::I((i64) v); };
    i128 x = a.i, y = b.i;
    switch (op) {
    case 0: return fit(x + y);
    case 1: return fit(x - y);
    case 2: return fit(x * y);
    case 3: return y == 0 ? Val::P() : fit(x / y);
    case 4:
        // the quotient is not representable
        if (y == 0 || (a.i == INT64_MIN && b.i == -1)) return Val::P();
        return fit(x % y);
    default: {
        if (b.i < 0) {
            if (a.i == 0) return Val::P();
            if (a.i == 1) return Val::I(1);
            if (a.i == -1) return Val::I(b.i % 2 == 0 ? 1 : -1);
            return Val::I(0);
        }
        if (a.i == 0) return Val::I(b.i == 0 ? 1 : 0);
        if (a.i == 1) return Val::I(1);
        if (a.i == -1) return Val::I(b.i % 2 == 0 ? 1 : -1);
        i128 r = 1;
        for (i64 n = 0; n < b.i; ++n) {
            r *= x;
            if (r < INT64_MIN || r > INT64_MAX) return Val::P();
        }
        return Val::I((i64) r);
    }
    }
}

Val ref_unary(int op, const Val& a) {
    switch (op) {
    case 0: return a.number() ? a : Val::P();
    case 1:
        if (a.k == Val::flt) return Val::F(-a.f);
        if (a.k == Val::integer) return a.i == INT64_MIN ? Val::P() : Val::I(-a.i);
        return Val::P();
    default: return a.k == Val::integer ? Val::I(~a.i) : Val::P();
    }
}

f64 ref_math(int f, f64 x) {
    switch (f) {
    case 0: return std::fabs(x);
    case 1: return std::log(x);
    case 2: return std::sqrt(x);
    case 3: return std::round(x);
    case 4: return std::ceil(x);
    case 5: return std::floor(x);
    case 6: return std::sin(x);
    case 7: return std::cos(x);
    case 8: return std::tan(x);
    case 9: return std::asin(x);
    case 10: return std::acos(x);
    default: return std::atan(x);
    }
}

// one virtual machine per process
struct World {
    Vm vm{256u << 20};
    std::vector<H> bin, cbin, lbin, un, fn1;
    std::vector<H> others;
    H pow, consts;
    World() {
        std::string s = "import std;\n";
        for (int i = 0; i < 6; ++i) {
            const char* op = binary_ops[i];
            s += sfmt("export func b%d(a, b) = a %s b;\n", i, op);
            s += sfmt("export func c%d(a, b) { var x = a; x %s= b; return x; }\n", i, op);
            s += sfmt("export func l%d(a, b) { const t = [a]; t[0] %s= b; return t[0]; }\n", i, op);
        }
        s += "export func u0(a) = +a;\nexport func u1(a) = -a;\nexport func u2(a) = ~a;\n";
        for (int i = 0; i < 12; ++i) s += sfmt("export func m%d(a) = std.%s(a);\n", i, math1[i]);
        s += "export func pw(a, b) = std.pow(a, b);\n";
        s += "export func consts() = [std.PI, std.TAU, std.E, std.INFINITY];\n";
        s += "export func others() = [null, true, false, \"1\", \"\", #a, [1], (1,), (x: 1), map{}, set{1}, func() = 1];\n";
        Compiled c = compile("m", s);
        if (!c.ok()) throw Fail{"the harness module does not compile: " + c.errors()};
        vm.load(c);
        for (int i = 0; i < 6; ++i) {
            bin.push_back(vm.get_export("m", sfmt("b%d", i)));
            cbin.push_back(vm.get_export("m", sfmt("c%d", i)));
            lbin.push_back(vm.get_export("m", sfmt("l%d", i)));
        }
        for (int i = 0; i < 3; ++i) un.push_back(vm.get_export("m", sfmt("u%d", i)));
        for (int i = 0; i < 12; ++i) fn1.push_back(vm.get_export("m", sfmt("m%d", i)));
        pow = vm.get_export("m", "pw");
        auto r = vm.call("m", "others");
        for (int i = 0; i < N_OTHER; ++i) {
            H h(vm);
            MUST(tiro_array_get(vm, r.value, i, h, must));
            others.push_back(std::move(h));
        }
        auto k = vm.call("m", "consts");
        consts = std::move(k.value);
    }
    H make(const Val& v) {
        if (v.k == Val::integer) return vm.integer(v.i);
        if (v.k == Val::flt) return vm.flt(v.f);
        H h(vm);
        MUST(tiro_value_copy(vm, others[v.o], h, must));
        return h;
    }
    Val read(tiro_handle_t h) {
        switch (tiro_value_kind(vm, h)) {
        case TIRO_KIND_INTEGER: return Val::I(tiro_integer_value(vm, h));
        case TIRO_KIND_FLOAT: return Val::F(tiro_float_value(vm, h));
        default: return Val{};
        }
    }
};

World& world() {
    static World w;
    return w;
}

bool same(const Val& a, const Val& b) {
    if (a.k != b.k) return false;
    if (a.k == Val::integer) return a.i == b.i;
    if (a.k == Val::flt) return (std::isnan(a.f) && std::isnan(b.f)) || memcmp(&a.f, &b.f, 8) == 0;
    return true;
}

void expect(Case& c, World& w, const std::string& what, tiro_handle_t fn, const std::vector<tiro_handle_t>& args, const Val& want) {
    auto r = w.vm.call(fn, args);
    Val got;
    if (r.kind == CallResult::panic) got = Val::P();
    else if (r.kind == CallResult::success) got = w.read(r.value);
    else c.fail(what + " failed: " + r.message);
    if (!same(got, want)) c.fail(what + " is " + got.str() + ", expected " + want.str() + (r.kind == CallResult::panic ? " (" + r.message + ")" : ""));
    c.label("panics", want.k == Val::panic);
    c.label("integer results", want.k == Val::integer);
    c.label("float results", want.k == Val::flt);
}

Val gen(Case& c, int wi = 8, int wf = 4, int wo = 1) {
    switch (c.t.weighted({(uint32_t) wi, (uint32_t) wf, (uint32_t) wo})) {
    case 0: return Val::I(c.t.any_i64());
    case 1: return Val::F(c.t.any_f64());
    default: {
        Val v;
        v.o = c.t.below(N_OTHER);
        return v;
    }
    }
}

void binary_case(Case& c, const Val& a, const Val& b, int op) {
    World& w = world();
    std::string what = a.str() + " " + binary_ops[op] + " " + b.str();
    c.add(what + "\n");
    H x = w.make(a), y = w.make(b);
    Val want = ref_binary(op, a, b);
    expect(c, w, what, w.bin[op], {x, y}, want);
    switch (c.t.below(3)) {
    case 1: expect(c, w, what + " (compound assignment)", w.cbin[op], {x, y}, want); break;
    case 2: expect(c, w, what + " (compound assignment of an element)", w.lbin[op], {x, y}, want); break;
    default: break;
    }
    // operands are values: they are unchanged
    if (a.number() && !same(w.read(x), a)) c.fail("left operand changed");
    if (b.number() && !same(w.read(y), b)) c.fail("right operand changed");
}

void pairs(Case& c) {
    int n = 1 + c.t.below(12);
    for (int i = 0; i < n; ++i) {
        Val a = gen(c), b = gen(c);
        int op = c.t.below(6);
        if (op == 5 && a.k == Val::integer && b.k == Val::integer) {
            // mostly exponents near the border of overflow
            if (c.t.chance(3, 4)) {
                b = Val::I(c.t.range(0, 66));
                if (c.t.chance(2, 3)) a = Val::I(c.t.range(-40, 40));
            }
        }
        binary_case(c, a, b, op);
        c.nontrivial |= a.number() && b.number();
    }
}

// operands whose exact result is near the limits of the integer range
void borders(Case& c) {
    int n = 1 + c.t.below(12);
    for (int i = 0; i < n; ++i) {
        int op = c.t.below(6);
        i128 lim = c.t.chance(1, 2) ? (i128) INT64_MAX : (i128) INT64_MIN;
        if (c.t.chance(1, 4)) lim = c.t.chance(1, 2) ? ((i128) 1 << 62) - 1 : -((i128) 1 << 62);
        i128 target = lim + c.t.range(-2, 2);
        i64 a = c.t.any_i64();
        i128 b = 0;
        switch (op) {
        case 0: b = target - a; break;
        case 1: b = (i128) a - target; break;
        case 2: b = a ? target / a + c.t.range(-1, 1) : 0; break;
        case 3:
        case 4:
            a = (i64) (lim + (lim > 0 ? -1 : 1) * c.t.range(0, 2));
            b = c.t.range(-3, 3);
            break;
        default: {
            i64 e = c.t.range(2, 64);
            f64 root = std::pow((f64) (lim < 0 ? -lim : lim), 1.0 / e);
            a = (i64) root + c.t.range(-1, 2);
            if (c.t.chance(1, 2)) a = -a;
            b = e;
        }
        }
        if (b < INT64_MIN || b > INT64_MAX) b = c.t.any_i64();
        binary_case(c, Val::I(a), Val::I((i64) b), op);
    }
    c.nontrivial = true;
}

void unary(Case& c) {
    World& w = world();
    int n = 1 + c.t.below(12);
    for (int i = 0; i < n; ++i) {
        Val a = gen(c);
        int op = c.t.below(3);
        std::string what = std::string(&"+-~"[op], 1) + a.str();
        c.add(what + "\n");
        H x = w.make(a);
        expect(c, w, what, w.un[op], {x}, ref_unary(op, a));
        c.nontrivial |= a.number();
    }
}

void math(Case& c) {
    World& w = world();
    int n = 1 + c.t.below(12);
    for (int i = 0; i < n; ++i) {
        int f = c.t.below(13);
        if (f == 12) {
            Val a = gen(c, 4, 6, 1), b = gen(c, 4, 6, 1);
            if (c.t.chance(1, 2) && b.number()) b = Val::F((f64) c.t.range(-20, 20) / 2);
            std::string what = "std.pow(" + a.str() + ", " + b.str() + ")";
            c.add(what + "\n");
            H x = w.make(a), y = w.make(b);
            expect(c, w, what, w.pow, {x, y}, a.number() && b.number() ? Val::F(std::pow(a.num(), b.num())) : Val::P());
            c.nontrivial |= a.number() && b.number();
            continue;
        }
        Val a = gen(c, 3, 6, 1);
        if (a.k == Val::flt && c.t.chance(1, 2)) a = Val::F((f64) c.t.range(-2000, 2000) / 500);
        std::string what = std::string("std.") + math1[f] + "(" + a.str() + ")";
        c.add(what + "\n");
        H x = w.make(a);
        expect(c, w, what, w.fn1[f], {x}, a.number() ? Val::F(ref_math(f, a.num())) : Val::P());
        c.nontrivial |= a.number();
    }
    const f64 ks[] = {3.14159265358979323846, 6.28318530717958647692, 2.71828182845904523536, INFINITY};
    int k = c.t.below(4);
    H h(w.vm);
    MUST(tiro_array_get(w.vm, w.consts, k, h, must));
    if (!same(w.read(h), Val::F(ks[k]))) c.fail(sfmt("math constant %d is wrong", k));
}

// every pair of interesting integers under every operator
std::vector<i64> table() {
    return {0, 1, -1, 2, -2, 3, -3, 7, 10, -10, 62, 63, 64, -63, -64, (1ll << 31) - 1, 1ll << 31, -(1ll << 31), 1ll << 32, 3037000499ll,
        3037000500ll, -3037000500ll, (1ll << 53) + 1, (1ll << 61) - 1, 1ll << 61, (1ll << 62) - 1, 1ll << 62, -(1ll << 62), -(1ll << 62) - 1,
        INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1};
}
void exhaustive(Case& c) {
    auto t = table();
    i64 a = t[c.t.below(t.size())];
    for (i64 b : t)
        for (int op = 0; op < 6; ++op) {
            Val x = Val::I(a), y = Val::I(b);
            World& w = world();
            std::string what = x.str() + " " + binary_ops[op] + " " + y.str();
            H hx = w.make(x), hy = w.make(y);
            Val want = ref_binary(op, x, y);
            expect(c, w, what, w.bin[op], {hx, hy}, want);
        }
    c.describe(sfmt("all operators with left operand %lld and the table of border values", (long long) a));
    c.nontrivial = true;
}

} // namespace

int main(int argc, char** argv) {
    Suite ex{"table", 0, 0, exhaustive};
    ex.fixed = table().size();
    ex.fixed_tape = [](pbt::u64 i) { return std::vector<pbt::u64>{i}; };
    pbt::Runner r("C02", "at least one operation of the case had only numeric operands", {
        ex,
        Suite{"pairs", 40000, 2000000, pairs},
        Suite{"borders", 20000, 1000000, borders},
        Suite{"unary", 6000, 300000, unary},
        Suite{"math", 15000, 750000, math},
    });
    return r.main(argc, argv);
}
