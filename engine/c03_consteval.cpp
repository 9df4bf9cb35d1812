// C03: the same computation with operands known and unknown to the compiler.
#include "tiro_util.hpp"

using namespace tu;
using pbt::Case;
using pbt::Suite;

namespace {

// literals (spelled as constant expressions)
std::string int_lit(i64 v) {
    if (v == INT64_MIN) return "(-9223372036854775807 - 1)";
    return v < 0 ? sfmt("(-%lld)", (long long) -v) : sfmt("%lld", (long long) v);
}
std::string quoted(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\' || c == '$') { r += '\\'; r += (char) c; }
        else if (c < 32 || c >= 127) r += sfmt("\\x%02X", c);
        else r += (char) c;
    }
    return r + "\"";
}
bool calm = false; // mostly operands that do not panic
std::string literal(Case& c, bool number = false) {
    if (number || (calm && c.t.chance(7, 8))) {
        static const char* const fs[] = {"0.0", "(-0.0)", "1.0", "0.5", "2.0", "(-2.5)", "3.0", "0.1"};
        return c.t.chance(2, 3) ? int_lit(c.t.range(-4, 6)) : fs[c.t.below(8)];
    }
    static const char* const floats[] = {"0.0", "(-0.0)", "1.0", "(-1.0)", "0.5", "2.0", "1.5", "3.0", "(-2.5)", "0.1", "0.2", "100.0",
        "9007199254740992.0", "9007199254740993.0", "9223372036854775807.0", "9223372036854775808.0", "(-9223372036854775808.0)",
        "4611686018427387904.0", "1000000000000000000000.0", "0.000001", "123456789.125", "(1.0 / 0.0)", "(-1.0 / 0.0)", "(0.0 / 0.0)", "64.0", "2.25"};
    static const char* const strs[] = {"", "a", "b", "ab", "1", "null", "true", "0", "1.0", "x y", "\n", "$"};
    static const char* const syms[] = {"#a", "#b", "#ab"};
    switch (c.t.weighted({8, 6, 3, 2, 2, 1})) {
    case 0: return int_lit(c.t.any_i64());
    case 1: return floats[c.t.below(sizeof floats / sizeof *floats)];
    case 2: return quoted(strs[c.t.below(sizeof strs / sizeof *strs)]);
    case 3: return c.t.chance(1, 2) ? "true" : "false";
    case 4: return "null";
    default: return syms[c.t.below(3)];
    }
}

const char* const bin_ops[] = {"+", "-", "*", "/", "%", "**", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "??"};
constexpr int N_BIN = 15;
int calm_op(Case& c) {
    if (!calm || c.t.chance(1, 6)) return c.t.below(N_BIN);
    static const int ops[] = {0, 1, 2, 6, 7, 8, 9, 10, 11, 12, 13, 14, 0, 1, 2};
    return ops[c.t.below(15)];
}
int calm_un(Case& c) {
    if (!calm || c.t.chance(1, 8)) return c.t.below(4);
    static const int ops[] = {0, 1, 1, 3};
    return ops[c.t.below(4)];
}
const char* const un_ops[] = {"+", "-", "~", "!"};

// functions the compiler cannot see through
std::string prelude() {
    std::string s = "import std;\nimport env;\nfunc id(x) = x;\n";
    for (int i = 0; i < N_BIN; ++i) s += sfmt("func b%d(x, y) = x %s y;\n", i, bin_ops[i]);
    for (int i = 0; i < 4; ++i) s += sfmt("func u%d(x) = %sx;\n", i, un_ops[i]);
    s += "func sel(c, x, y) = if c { x; } else { y; };\n";
    s += "func obs(x) { env.emit(\"${std.Type.name(std.type_of(x))} ${std.debug_repr(x)}\"); }\n";
    return s;
}

struct Result {
    std::vector<std::string> log;
    std::string end;
};

std::string clean(std::string s) {
    for (size_t p; (p = s.find("-nan")) != std::string::npos;) s.erase(p, 1);
    // the compiler may order commutative operands: either operand of a wrong type may be named
    for (size_t p = 0; (p = s.find("invalid operand of type ", p)) != std::string::npos; p += 16) {
        size_t e = s.find(' ', p + 24);
        s.erase(p + 15, (e == std::string::npos ? s.size() : e) - p - 15);
    }
    return s;
}

Result execute(Case& c, const std::string& src, const char* which) {
    Compiled m = compile("main", src);
    if (!m.ok()) c.fail(std::string("compilation of the ") + which + " program failed: " + m.errors() + "\n" + src);
    Vm vm(64u << 20);
    vm.load_env();
    Result r;
    Err e;
    tiro_vm_load_bytecode(vm, m.module, e);
    H fn(vm);
    if (e.ok()) tiro_vm_get_export(vm, ts("main"), ts("main"), fn, e);
    if (!e.ok()) {
        r.end = "initialisation failed: " + e.text();
    } else {
        auto x = vm.call(fn);
        r.end = x.kind == CallResult::success ? "ok" : x.kind == CallResult::panic ? "panic: " + x.message : "error: " + x.message;
    }
    r.log = vm.log;
    for (auto& l : r.log) l = clean(l);
    r.end = clean(r.end);
    return r;
}

bool same_end(const std::string& a, const std::string& b) {
    if (a == b) return true;
    // assertions quote their source text, which differs
    if (a.rfind("panic: assertion `", 0) == 0 && b.rfind("panic: assertion `", 0) == 0) return true;
    return false;
}

void compare(Case& c, const std::string& a, const std::string& b) {
    c.describe("---- operands known to the compiler ----\n" + a.substr(prelude().size()) + "---- operands unknown to the compiler ----\n" + b.substr(prelude().size()));
    Result x = execute(c, a, "constant"), y = execute(c, b, "opaque");
    for (size_t i = 0; i < std::max(x.log.size(), y.log.size()); ++i) {
        std::string p = i < x.log.size() ? x.log[i] : "<end> " + x.end, q = i < y.log.size() ? y.log[i] : "<end> " + y.end;
        if (p != q) c.fail(sfmt("observation %zu: ", i) + p + " with known operands, " + q + " with unknown operands");
    }
    if (!same_end(x.end, y.end)) c.fail("outcome: " + x.end + " with known operands, " + y.end + " with unknown operands");
    if (x.log.empty() && x.end == "ok") c.fail("the harness observed nothing");
    c.label("runs ending in a panic", x.end != "ok");
    c.count("compared observations", x.log.size());
}

// Straight line code: each step applies one operation. One program applies the operators directly to constants,
// the other one calls a function per operation.
void dag(Case& c) {
    calm = c.t.chance(2, 3);
    int nconst = 1 + c.t.below(5), npar = c.t.below(3), n = 1 + c.t.below(14);
    std::string a, b;
    std::vector<std::string> va, vb; // spelling of every value in the two programs
    std::vector<size_t> nums; // the values that are probably numbers
    auto is_num = [&](size_t i) { return std::find(nums.begin(), nums.end(), i) != nums.end(); };
    for (int i = 0; i < nconst; ++i) {
        std::string l = literal(c, calm && i == 0);
        if (calm && isdigit(l[l[0] == '(' ? 2 : 0])) nums.push_back(va.size());
        switch (c.t.below(3)) {
        case 0: va.push_back(l); break;
        case 1:
            a += sfmt("    const k%d = ", i) + l + ";\n";
            va.push_back(sfmt("k%d", i));
            break;
        default:
            a += sfmt("    var k%d = ", i) + l + ";\n";
            va.push_back(sfmt("k%d", i));
        }
        b += sfmt("    const k%d = id(", i) + l + ");\n";
        vb.push_back(sfmt("k%d", i));
    }
    for (int i = 0; i < npar; ++i) {
        std::string l = literal(c);
        for (auto* s : {&a, &b}) *s += sfmt("    const p%d = id(", i) + l + ");\n";
        va.push_back(sfmt("p%d", i));
        vb.push_back(sfmt("p%d", i));
    }
    int folded = 0;
    struct Step { int kind, op; size_t x, y; };
    std::vector<Step> steps;
    for (int i = 0; i < n; ++i) {
        size_t x = va.size() - 1 - c.t.below(va.size()), y = va.size() - 1 - c.t.below(va.size());
        int kind = c.t.weighted({10, 3, 3, 1, 1, 1, 1});
        if (calm && kind <= 1 && !nums.empty() && c.t.chance(19, 20)) {
            x = nums[nums.size() - 1 - c.t.below(nums.size())];
            y = nums[nums.size() - 1 - c.t.below(nums.size())];
        }
        int op = kind == 0 ? calm_op(c) : kind == 1 ? calm_un(c) : 0;
        if (!steps.empty() && c.t.chance(1, 5)) {
            // repeat an earlier operation, maybe with swapped operands
            auto s = steps[c.t.below(steps.size())];
            kind = s.kind; op = s.op; x = s.x; y = s.y;
            if (c.t.chance(1, 2)) std::swap(x, y);
        }
        steps.push_back({kind, op, x, y});
        std::string ea, eb;
        const std::string &xa = va[x], &ya = va[y], &xb = vb[x], &yb = vb[y];
        switch (kind) {
        case 0:
            ea = "(" + xa + " " + bin_ops[op] + " " + ya + ")";
            eb = sfmt("b%d(", op) + xb + ", " + yb + ")";
            break;
        case 1:
            ea = "(" + std::string(un_ops[op]) + "(" + xa + "))";
            eb = sfmt("u%d(", op) + xb + ")";
            break;
        case 2: {
            const char* const shapes[][3] = {{"", "", ""}, {"a", "b", "c"}, {"", " ", ""}, {"x", "", ""}};
            auto& sh = shapes[c.t.below(4)];
            auto part = [&](const std::string& p, const std::string& q) { return std::string("\"") + sh[0] + "${" + p + "}" + sh[1] + "${" + q + "}" + sh[2] + "\""; };
            if (xa.find('"') != std::string::npos || ya.find('"') != std::string::npos) {
                ea = "\"k\" \"${1}\"";
                eb = "\"k${id(1)}\"";
            } else {
                ea = part(xa, ya);
                eb = part(xb, yb);
            }
            break;
        }
        case 3:
            ea = "(" + xa + ", " + ya + ").1";
            eb = "id((" + xb + ", " + yb + "))[1]";
            break;
        case 4:
            ea = "[" + xa + ", " + ya + "][0]";
            eb = "id([" + xb + ", " + yb + "])[id(0)]";
            break;
        case 5:
            ea = "(if (" + xa + ") == (" + ya + ") { " + xa + "; } else { " + ya + "; })";
            eb = "sel(b6(" + xb + ", " + yb + "), " + xb + ", " + yb + ")";
            break;
        default:
            ea = "(p: " + xa + ", q: " + ya + ").q";
            eb = "id((p: " + xb + ", q: " + yb + ")).q";
        }
        int use = c.t.weighted({5, 2, 3});
        // calls cannot be statements of their own in the constant program: bind or discard the value
        if (use == 1) {
            a += "    " + ea + ";\n";
            b += "    " + eb + ";\n";
            continue;
        }
        a += sfmt("    const t%d = ", i) + ea + ";\n";
        b += sfmt("    const t%d = ", i) + eb + ";\n";
        if (use == 0) {
            a += sfmt("    obs(t%d);\n", i);
            b += sfmt("    obs(t%d);\n", i);
        }
        if (calm && is_num(x) && is_num(y) && ((kind == 0 && op <= 2) || (kind == 1 && op <= 1))) nums.push_back(va.size());
        va.push_back(sfmt("t%d", i));
        vb.push_back(sfmt("t%d", i));
        ++folded;
    }
    std::string head = "export func main() {\n", tail = "    obs(1);\n}\n";
    c.nontrivial = folded > 0;
    compare(c, prelude() + head + a + tail, prelude() + head + b + tail);
}

// Expression trees in different contexts; the programs differ only in their leaves.
struct Tree {
    std::string known, opaque;
};
Tree tree(Case& c, int depth, bool number = false) {
    if (depth == 0 || c.t.chance(1, 5)) {
        std::string l = literal(c, number);
        return {l, "id(" + l + ")"};
    }
    switch (number ? c.t.below(2) : c.t.weighted({10, 3, 2, 1, 1, 1, 1})) {
    case 0: {
        int o = number ? c.t.below(3) : calm_op(c);
        std::string op = bin_ops[o];
        bool nn = calm && o < 12;
        Tree x = tree(c, depth - 1, nn), y = tree(c, depth - 1, nn);
        return {"(" + x.known + " " + op + " " + y.known + ")", "(" + x.opaque + " " + op + " " + y.opaque + ")"};
    }
    case 1: {
        int o = number ? c.t.below(2) : calm_un(c);
        std::string op = un_ops[o];
        Tree x = tree(c, depth - 1, calm && o < 3);
        return {"(" + op + x.known + ")", "(" + op + x.opaque + ")"};
    }
    case 2: {
        Tree x = tree(c, depth - 1), y = tree(c, depth - 1);
        // a literal inside of an interpolation must not contain the delimiter
        auto q = [](const Tree& t) { return t.known.find('"') == std::string::npos; };
        if (!q(x) || !q(y)) return x;
        return {"\"<${" + x.known + "}|${" + y.known + "}>\"", "\"<${" + x.opaque + "}|${" + y.opaque + "}>\""};
    }
    case 3: {
        Tree k = tree(c, depth - 1), x = tree(c, depth - 1), y = tree(c, depth - 1);
        return {"(if " + k.known + " { " + x.known + "; } else { " + y.known + "; })", "(if " + k.opaque + " { " + x.opaque + "; } else { " + y.opaque + "; })"};
    }
    case 4: {
        Tree x = tree(c, depth - 1), y = tree(c, depth - 1);
        std::string i = c.t.chance(1, 2) ? "0" : "1";
        return {"(" + x.known + ", " + y.known + ")." + i, "(" + x.opaque + ", " + y.opaque + ")." + i};
    }
    case 5: {
        Tree x = tree(c, depth - 1), y = tree(c, depth - 1);
        return {"{ const h = " + x.known + "; h == " + y.known + "; }", "{ const h = " + x.opaque + "; h == " + y.opaque + "; }"};
    }
    default: {
        Tree x = tree(c, depth - 1);
        return {"{ var h = 1; h = " + x.known + "; h; }", "{ var h = 1; h = " + x.opaque + "; h; }"};
    }
    }
}

void contexts(Case& c) {
    calm = c.t.chance(2, 3);
    int n = 1 + c.t.below(4);
    std::string a, b, ga, gb;
    auto put = [&](const std::string& pre, const Tree& t, const std::string& post) {
        a += "    " + pre + t.known + post;
        b += "    " + pre + t.opaque + post;
    };
    for (int i = 0; i < n; ++i) {
        Tree t = tree(c, 1 + c.t.below(4));
        std::string v = sfmt("v%d", i);
        switch (c.t.below(16)) {
        case 0: put("obs((", t, "));\n"); break;
        case 1: put("(", t, ");\n"); break;
        case 2: put("if ", t, " { obs(1); } else { obs(2); }\n"); break;
        case 3:
            put("{ var n = 0; while n < 3 && (", t, ") { n += 1; } obs(n); }\n");
            break;
        case 4: put("for var i = 0; i < 3; i += 1 { obs((", t, ")); }\n"); break;
        case 5: put("const " + v + " = ", t, "; obs(" + v + "); obs(" + v + ");\n"); break;
        case 6: put("var " + v + " = ", t, "; if id(true) { " + v + " = 1; } obs(" + v + ");\n"); break;
        case 7: put("{ const f = func() = (", t, "); obs(f()); obs(f()); }\n"); break;
        case 8: put("{ const k = (", t, "); const f = func() = k; obs(f()); }\n"); break;
        case 9: put("{ defer obs(5); obs((", t, ")); }\n"); break;
        case 10: put("assert(", t, ");\n"); break;
        case 11: put("{ const x = [", t, "]; x[0] = x[0]; obs(x); }\n"); break;
        case 12: {
            ga += "const g" + v + " = " + t.known + ";\n";
            gb += "const g" + v + " = " + t.opaque + ";\n";
            a += "    obs(g" + v + ");\n";
            b += "    obs(g" + v + ");\n";
            break;
        }
        case 13: put("{ var u = id(null); u = u ?? (", t, "); obs(u); }\n"); break;
        case 14: put("{ const r = std.catch_panic(func() = (", t, ")); if r.is_error() { obs(r.error().message()); } else { obs(r.value()); } }\n"); break;
        default: put("{ const m = map{1: (", t, ")}; obs(m); const s = (q: m[1]); obs(s); }\n");
        }
    }
    c.nontrivial = true;
    std::string head = "export func main() {\n", tail = "    obs(1);\n}\n";
    compare(c, prelude() + ga + head + a + tail, prelude() + gb + head + b + tail);
}

// Bitwise operators exist only at compile time (see the known finding): exact values of the constants.
void bitwise(Case& c) {
    std::string src = "import std;\nimport env;\nexport func main() {\n";
    std::vector<std::string> want;
    int n = 1 + c.t.below(8);
    for (int i = 0; i < n; ++i) {
        i64 x = c.t.any_i64(), y = c.t.any_i64();
        int op = c.t.below(5);
        i64 r = 0;
        if (op >= 3) {
            y = c.t.range(0, 62);
            x = (i64) ((u64) (x < 0 ? ~x : x) & ((op == 3 ? INT64_MAX >> y : INT64_MAX)));
        }
        switch (op) {
        case 0: r = x & y; break;
        case 1: r = x | y; break;
        case 2: r = x ^ y; break;
        case 3: r = x << y; break;
        default: r = x >> y;
        }
        const char* const ops[] = {"&", "|", "^", "<<", ">>"};
        src += "    env.emit(\"${" + int_lit(x) + " " + ops[op] + " " + int_lit(y) + "}\");\n";
        want.push_back(sfmt("%lld", (long long) r));
    }
    src += "}\n";
    c.describe(src);
    Result r = execute(c, src, "bitwise");
    if (r.log != want || r.end != "ok") {
        for (size_t i = 0; i < want.size(); ++i)
            if (i >= r.log.size() || r.log[i] != want[i]) c.fail(sfmt("line %zu: got ", i + 1) + (i < r.log.size() ? r.log[i] : r.end) + ", expected " + want[i]);
    }
    c.nontrivial = true;
}

bool bitwise_at_runtime_missing() {
    Compiled m = compile("main", "export func f(a, b) = a & b;\n");
    Vm vm(64u << 20);
    vm.load(m);
    auto a = vm.integer(6), b = vm.integer(3);
    auto r = vm.call("main", "f", {a, b});
    return r.kind == CallResult::error;
}

} // namespace

int main(int argc, char** argv) {
    pbt::Runner r("C03", "the programs contain at least one bound operation on constants", {
        Suite{"dag", 12000, 600000, dag},
        Suite{"contexts", 12000, 600000, contexts},
        Suite{"bitwise", 800, 40000, bitwise},
    }, {pbt::Known{"bitwise", "the operators & | ^ << >> work on constants but raise an internal error at run time (instructions not implemented)", bitwise_at_runtime_missing}});
    return r.main(argc, argv);
}
