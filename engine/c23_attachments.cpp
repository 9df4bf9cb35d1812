// C23: what the compiler reports about a source (its syntax trees and listings) is what the source says.
//   tree:     a generated program is printed together with the syntax tree it must have; the AST attachment has
//             to be that tree, node by node with exact positions
//   text:     for any text at all the CST attachment shows every token of it, in order, at its position, and
//             nothing but white space and comments between tokens
//   listings: the IR and bytecode listings of compiled programs are consistent in themselves
//   requests: asking for attachments changes neither the diagnostics nor the compiled module
#include "lang_run.hpp"

#include <nlohmann/json.hpp>

#include <algorithm>
#include <cstring>
#include <map>
#include <set>

using namespace tu;
using pbt::Case;
using pbt::Fail;
using pbt::Suite;
using pbt::Tape;
using json = nlohmann::ordered_json;

namespace {

// ------------------------------------------------------------------------------------------------- positions
struct Lines {
    std::string_view text;
    std::vector<size_t> starts{0};
    explicit Lines(std::string_view t)
        : text(t) {
        for (size_t i = 0; i < t.size(); ++i)
            if (t[i] == '\n') starts.push_back(i + 1);
    }
    // line and column of an offset; columns count code points
    std::pair<unsigned, unsigned> at(size_t off) const {
        size_t l = std::upper_bound(starts.begin(), starts.end(), off) - starts.begin();
        unsigned col = 1;
        for (size_t i = starts[l - 1]; i < off; ++i)
            if (((unsigned char) text[i] & 0xc0) != 0x80) ++col;
        return {(unsigned) l, col};
    }
    // offset of a line and column, npos if there is no such position
    size_t offset(unsigned line, unsigned col) const {
        if (line < 1 || line > starts.size() || col < 1) return std::string::npos;
        size_t i = starts[line - 1], end = line < starts.size() ? starts[line] : text.size();
        for (unsigned k = 1; k < col; ++k) {
            if (i >= end) return std::string::npos;
            ++i;
            while (i < text.size() && ((unsigned char) text[i] & 0xc0) == 0x80) ++i;
        }
        return i;
    }
};

// ------------------------------------------------------------------------------------- program printer
struct Printer23 {
    Tape& t;
    std::string out;
    int comments = 0, budget = 0, kinds = 0;
    std::set<std::string> seen;
    explicit Printer23(Tape& tt, int b)
        : t(tt)
        , budget(b) {}

    static bool ident_like(unsigned char c) { return isalnum(c) || c == '_' || c == '#' || c >= 0x80; }
    static bool op_like(char c) { return c && std::strchr("+-*/%=<>!&|^?~.:", c); }

    void space(bool needed) {
        switch (t.weighted({needed ? 0u : 10u, 12, 2, 1, 1, 1, 1})) {
        case 0: return;
        case 1: out += ' '; return;
        case 2: out += "\n    "; return;
        case 3: out += "\r\n\t"; return;
        case 4:
            out += t.pick(std::vector<std::string>{"/* c */", "/* a /* nested */ \n b */", "/**/", "/* \xc3\xa4\xe2\x82\xac\xf0\x9f\x98\x80 \" */ ", "/* ${ ' */"});
            if (t.chance(1, 20)) out += "/*" + std::string(t.size(5000), '*') + "*/";
            ++comments;
            return;
        case 5:
            out += t.pick(std::vector<std::string>{" // c\n", "//\n", " // \xe6\x97\xa5\xe6\x9c\xac \" ' /* \r\n"});
            ++comments;
            return;
        default: out += "  \t "; return;
        }
    }
    size_t last_b = 0, last_e = 0; // last token
    bool glued = false;            // the next token follows without anything in between
    size_t tok(const std::string& s) {
        if (!glued && !out.empty()) {
            unsigned char p = out.back(), n = s[0];
            bool need = (ident_like(p) && ident_like(n)) || (op_like(p) && op_like(n)) || (isdigit((unsigned char) out[last_b]) && n == '.')
                        || (p == '?' && (n == '(' || n == '['));
            // a comment or a space may be the last thing printed: then nothing is needed
            space(need && last_e == out.size());
            if (last_e == out.size() && need) out += ' ';
            // "x /" followed by a comment would start a line comment
            if (out.size() > last_e && out[last_e] == '/' && last_e && out[last_e - 1] == '/') out.insert(last_e, " ");
            else if (out.size() > last_e && out[last_e] == '/' && last_e && op_like(out[last_e - 1])) out.insert(last_e, " ");
        }
        glued = false;
        last_b = out.size();
        out += s;
        last_e = out.size();
        return last_b;
    }
    json pos(size_t off) const { return off; } // replaced by line and column at the end
    json node(const char* type, size_t b, size_t e) {
        seen.insert(type);
        json j = json::object();
        j["type"] = type;
        j["id"] = 0;
        j["start"] = b;
        j["end"] = e;
        j["has_error"] = false;
        return j;
    }

    std::string ident() {
        static const std::vector<std::string> names{"a", "b", "c", "x", "y", "foo", "bar_1", "_", "_x", "map", "set",
            "funcx", "ifx", "nullx", "r\xc3\xa9sum\xc3\xa9", "\xe5\x90\x8d\xe5\x89\x8d", "X9", "in_", "as1", "yield_"};
        if (t.chance(1, 60)) return "long_" + std::string(1 + t.size(5000), t.chance(1, 2) ? 'l' : '0');
        return t.pick(names);
    }

    // ------------------------------------------------------------------------------------ expressions
    // bp: lowest precedence that may stand here without parentheses (0: whole expressions);
    // nb: no `map {`, `set {` or `name {` here; nl: must not begin with `{`
    struct Ctx {
        int bp = 0;
        bool nb = false, nl = false;
    };
    struct BinOp {
        const char *text, *name;
        int prec;
        bool right;
    };
    static const std::vector<BinOp>& binops() {
        static const std::vector<BinOp> v{{"=", "Assign", 0, true}, {"+=", "AssignPlus", 0, true}, {"-=", "AssignMinus", 0, true},
            {"*=", "AssignMultiply", 0, true}, {"**=", "AssignPower", 0, true}, {"/=", "AssignDivide", 0, true},
            {"%=", "AssignModulus", 0, true}, {"||", "LogicalOr", 1, false}, {"&&", "LogicalAnd", 2, false},
            {"??", "NullCoalesce", 3, false}, {"|", "BitwiseOr", 4, false}, {"^", "BitwiseXor", 5, false},
            {"&", "BitwiseAnd", 6, false}, {"==", "Equals", 7, false}, {"!=", "NotEquals", 7, false}, {"<", "Less", 8, false},
            {"<=", "LessEquals", 8, false}, {">", "Greater", 8, false}, {">=", "GreaterEquals", 8, false},
            {"<<", "LeftShift", 9, false}, {">>", "RightShift", 9, false}, {"+", "Plus", 10, false}, {"-", "Minus", 10, false},
            {"*", "Multiply", 11, false}, {"/", "Divide", 11, false}, {"%", "Modulus", 11, false}, {"**", "Power", 12, true}};
        return v;
    }

    json parens(int depth) {
        tok("(");
        json r = expr(depth, {});
        tok(")");
        return r;
    }

    json expr(int depth, Ctx x) {
        --budget;
        if (budget < 0) depth = 0;
        if (t.chance(1, 12) && depth > 0) { // redundant parentheses are not part of the tree
            size_t b0 = 0;
            (void) b0;
            return parens(depth - 1);
        }
        unsigned k = depth <= 0 ? t.weighted({5, 4, 1, 1, 1, 1}) // leaves
                                : t.weighted({4, 3, 1, 1, 1, 1, 8, 3, 3, 2, 3, 3, 2, 2, 2, 2, 2, 3, 2, 2, 2});
        switch (k) {
        case 0: return var(x);
        case 1: return literal();
        case 2: return string(0);
        case 3: return empty_tuple();
        case 4: {
            size_t b = tok("break");
            return node("BreakExpr", b, last_e);
        }
        case 5: {
            size_t b = tok("continue");
            return node("ContinueExpr", b, last_e);
        }
        case 6: return binary(depth, x);
        case 7: return unary(depth, x);
        case 8: return field(depth, x);
        case 9: return tuple_field(depth, x);
        case 10: return element(depth, x);
        case 11: return call(depth, x);
        case 12: return array(depth);
        case 13: return tuple(depth);
        case 14: return record(depth);
        case 15: return map(depth, x);
        case 16: return set(depth, x);
        case 17: return string(depth);
        case 18: return if_expr(depth);
        case 19: return x.nl ? parens(depth - 1) : block(depth);
        default: return t.chance(1, 3) ? ret(depth, x) : func_expr(depth, x);
        }
    }
    json var(Ctx) {
        std::string n = ident();
        size_t b = tok(n);
        json j = node("VarExpr", b, last_e);
        j["name"] = n;
        return j;
    }
    json literal() {
        switch (t.below(5)) {
        case 0: {
            bool v = t.chance(1, 2);
            size_t b = tok(v ? "true" : "false");
            json j = node("BooleanLiteral", b, last_e);
            j["value"] = v;
            return j;
        }
        case 1: {
            size_t b = tok("null");
            return node("NullLiteral", b, last_e);
        }
        case 2: {
            std::string n = ident();
            size_t b = tok("#" + n);
            json j = node("SymbolLiteral", b, last_e);
            j["value"] = n;
            return j;
        }
        case 3: {
            static const std::vector<std::pair<std::string, double>> v{
                {"0.0", 0}, {"1.5", 1.5}, {"3.", 3}, {"1_0.2_5", 10.25}, {"123456.0625", 123456.0625}};
            auto& p = t.pick(v);
            size_t b = tok(p.first);
            json j = node("FloatLiteral", b, last_e);
            j["value"] = p.second;
            return j;
        }
        default: {
            static const std::vector<std::pair<std::string, i64>> v{{"0", 0}, {"1", 1}, {"42", 42}, {"0x1f", 31}, {"0b101", 5},
                {"0o17", 15}, {"1_000", 1000}, {"9223372036854775807", INT64_MAX}, {"0xF_f", 255}};
            auto& p = t.pick(v);
            size_t b = tok(p.first);
            json j = node("IntegerLiteral", b, last_e);
            j["value"] = p.second;
            return j;
        }
        }
    }
    void string_part(int depth, json& items) {
        char q = t.chance(1, 2) ? '"' : '\'';
        tok(std::string(1, q));
        bool content = false, after_var = false;
        unsigned n = (unsigned) t.below(4);
        for (unsigned i = 0; i < n; ++i) {
            switch (depth > 0 ? t.below(3) : content ? 1 : 0) {
            case 0: {
                if (content) continue;
                static const std::vector<std::pair<std::string, std::string>> v{{" a", " a"}, {"-\\n.", "-\n."}, {".x[0]", ".x[0]"},
                    {"\\x41", "A"}, {" \xc3\xa9\\u{20AC}", " \xc3\xa9\xe2\x82\xac"}, {" \\$y \\\\", " $y \\"}, {"\n", "\n"},
                    {" // no comment", " // no comment"}, {" /* */", " /* */"}, {"}{", "}{"}, {"\\\"\\'", "\"'"}};
                auto p = t.pick(v);
                if (t.chance(1, 30)) {
                    std::string more(1 + t.size(5000), 's');
                    p.first += more;
                    p.second += more;
                }
                glued = true;
                size_t b = tok(p.first);
                json j = node("StringLiteral", b, last_e);
                j["value"] = p.second;
                items.push_back(j);
                content = true;
                break;
            }
            case 1: {
                std::string nm = ident();
                glued = true;
                tok("$");
                glued = true;
                size_t b = tok(nm);
                json j = node("VarExpr", b, last_e);
                j["name"] = nm;
                items.push_back(j);
                content = false;
                break;
            }
            default: {
                glued = true;
                tok("${");
                items.push_back(expr(depth - 1, {}));
                tok("}");
                content = false;
            }
            }
        }
        (void) after_var;
        glued = true;
        tok(std::string(1, q));
    }
    json string(int depth) {
        json items = json::array();
        space(last_e == out.size() && !out.empty() && ident_like(out.back()));
        if (!out.empty() && last_e && out[last_e - 1] == '/' && last_e < out.size() && out[last_e] == '/') out.insert(last_e, " ");
        else if (last_e && last_e < out.size() && out[last_e] == '/' && op_like(out[last_e - 1])) out.insert(last_e, " ");
        size_t b = out.size();
        glued = true;
        string_part(depth, items);
        while (depth > 0 && t.chance(1, 5)) string_part(depth - 1, items);
        json j = node("StringExpr", b, last_e);
        j["items"] = items;
        return j;
    }
    json empty_tuple() {
        size_t b = tok("(");
        tok(")");
        json j = node("TupleLiteral", b, last_e);
        j["items"] = json::array();
        return j;
    }
    // a long chain of operators or of accesses, nested to the left
    json chain(Ctx x) {
        size_t n = 2 + t.size(150), b;
        bool plus = x.bp <= 10 && t.chance(1, 2);
        json l = operand(b, [&] { return var(x); });
        for (size_t i = 0; i < n; ++i) {
            std::string nm = ident();
            json j;
            if (plus) {
                bool minus = t.chance(1, 2);
                tok(minus ? "-" : "+");
                json r = var(x);
                j = node("BinaryExpr", b, last_e);
                j["operation"] = minus ? "Minus" : "Plus";
                j["left"] = l;
                j["right"] = r;
            } else if (t.chance(1, 2)) {
                tok(".");
                tok(nm);
                j = node("FieldExpr", b, last_e);
                j["access_type"] = "Normal";
                j["instance"] = l;
                j["name"] = nm;
            } else {
                tok("(");
                tok(")");
                j = node("CallExpr", b, last_e);
                j["access_type"] = "Normal";
                j["func"] = l;
                j["args"] = json::array();
            }
            l = std::move(j);
        }
        budget -= (int) n;
        return l;
    }
    json binary(int depth, Ctx x) {
        if (t.chance(1, 30)) return chain(x);
        // often one of about the same precedence as the operator around it: these decide on associativity
        auto& ops = binops();
        size_t k = t.below(ops.size());
        if (x.bp > 0 && x.bp <= 13 && t.chance(1, 2)) {
            std::vector<size_t> near;
            for (size_t i = 0; i < ops.size(); ++i)
                if (ops[i].prec >= x.bp - 1 && ops[i].prec <= x.bp + 1) near.push_back(i);
            k = t.pick(near);
        }
        auto& op = ops[k];
        if (op.prec < x.bp) return parens_of([&] { return binary_body(depth, op, {}); });
        return binary_body(depth, op, x);
    }
    template<typename F>
    json parens_of(F&& f) {
        tok("(");
        json r = f();
        tok(")");
        return r;
    }
    size_t begin_of(const json& j) { return j["start"].get<size_t>(); }
    // the first token of an expression may be an opening parenthesis that is not part of its tree
    template<typename F>
    json operand(size_t& first, F&& f) {
        size_t before = out.size();
        json r = f();
        // skip what separates tokens
        first = first_token(before);
        return r;
    }
    size_t first_token(size_t from) const {
        size_t i = from;
        while (i < out.size()) {
            if (isspace((unsigned char) out[i])) ++i;
            else if (out.compare(i, 2, "//") == 0) while (i < out.size() && out[i] != '\n') ++i;
            else if (out.compare(i, 2, "/*") == 0) {
                int d = 0;
                while (i < out.size()) {
                    if (out.compare(i, 2, "/*") == 0) ++d, i += 2;
                    else if (out.compare(i, 2, "*/") == 0) { i += 2; if (--d == 0) break; }
                    else ++i;
                }
            } else break;
        }
        return i;
    }
    json binary_body(int depth, const BinOp& op, Ctx x) {
        size_t b;
        json l = operand(b, [&] { return expr(depth - 1, {op.right ? op.prec + 1 : op.prec, x.nb, x.nl}); });
        tok(op.text);
        json r = expr(depth - 1, {op.right ? op.prec : op.prec + 1, x.nb, false});
        json j = node("BinaryExpr", b, last_e);
        j["operation"] = op.name;
        j["left"] = l;
        j["right"] = r;
        return j;
    }
    json unary(int depth, Ctx x) {
        static const std::vector<std::pair<const char*, const char*>> ops{{"-", "Minus"}, {"+", "Plus"}, {"!", "LogicalNot"}, {"~", "BitwiseNot"}};
        auto f = [&](Ctx y) {
            auto& op = t.pick(ops);
            size_t b = tok(op.first);
            json in = expr(depth - 1, {13, y.nb, false});
            json j = node("UnaryExpr", b, last_e);
            j["operation"] = op.second;
            j["inner"] = in;
            return j;
        };
        if (x.bp > 13) return parens_of([&] { return f({}); });
        return f(x);
    }
    json instance(int depth, Ctx x, size_t& b) {
        return operand(b, [&] { return expr(depth - 1, {14, x.nb, x.nl}); });
    }
    json field(int depth, Ctx x) {
        size_t b;
        json in = instance(depth, x, b);
        bool opt = t.chance(1, 3);
        tok(opt ? "?." : ".");
        std::string n = ident();
        tok(n);
        json j = node("FieldExpr", b, last_e);
        j["access_type"] = opt ? "Optional" : "Normal";
        j["instance"] = in;
        j["name"] = n;
        return j;
    }
    json tuple_field(int depth, Ctx x) {
        size_t b;
        json in = instance(depth, x, b);
        bool opt = t.chance(1, 3);
        tok(opt ? "?." : ".");
        unsigned n = (unsigned) t.below(t.chance(1, 4) ? 100000 : 4);
        tok(std::to_string(n));
        json j = node("TupleFieldExpr", b, last_e);
        j["access_type"] = opt ? "Optional" : "Normal";
        j["instance"] = in;
        j["index"] = n;
        return j;
    }
    json element(int depth, Ctx x) {
        size_t b;
        json in = instance(depth, x, b);
        bool opt = t.chance(1, 3);
        tok(opt ? "?[" : "[");
        json el = expr(depth - 1, {});
        tok("]");
        json j = node("ElementExpr", b, last_e);
        j["access_type"] = opt ? "Optional" : "Normal";
        j["instance"] = in;
        j["element"] = el;
        return j;
    }
    // items separated by commas up to the closing token; min1: a single item needs the comma
    template<typename F>
    json items(const char* close, bool single_comma, unsigned min, F&& f) {
        json r = json::array();
        unsigned n = min + (unsigned) t.below(4 - min);
        for (unsigned i = 0; i < n; ++i) {
            r.push_back(f());
            bool last = i + 1 == n;
            if (!last || (last && ((single_comma && n == 1) || t.chance(1, 4)))) tok(",");
        }
        tok(close);
        return r;
    }
    json call(int depth, Ctx x) {
        size_t b;
        json fn = instance(depth, x, b);
        bool opt = t.chance(1, 3);
        tok(opt ? "?(" : "(");
        json args = items(")", false, 0, [&] { return expr(depth - 1, {}); });
        json j = node("CallExpr", b, last_e);
        j["access_type"] = opt ? "Optional" : "Normal";
        j["func"] = fn;
        j["args"] = args;
        return j;
    }
    json list(const char* type, size_t b, json its) {
        json j = node(type, b, last_e);
        j["items"] = std::move(its);
        return j;
    }
    json array(int depth) {
        size_t b = tok("[");
        json its = items("]", false, 0, [&] { return expr(depth - 1, {}); });
        return list("ArrayLiteral", b, its);
    }
    json tuple(int depth) {
        size_t b = tok("(");
        json its = items(")", true, 1, [&] { return expr(depth - 1, {}); });
        return list("TupleLiteral", b, its);
    }
    json record(int depth) {
        size_t b = tok("(");
        if (t.chance(1, 6)) {
            tok(":");
            tok(")");
            return list("RecordLiteral", b, json::array());
        }
        json its = items(")", false, 1, [&] {
            std::string n = ident();
            size_t kb = tok(n), ke = last_e;
            json key = node("Identifier", kb, ke);
            key["value"] = n;
            tok(":");
            json v = expr(depth - 1, {});
            json it = node("RecordItem", kb, last_e);
            it["key"] = key;
            it["value"] = v;
            return it;
        });
        return list("RecordLiteral", b, its);
    }
    json map(int depth, Ctx x) {
        if (x.nb) return parens_of([&] { return map(depth, {}); });
        size_t b = tok("map");
        tok("{");
        json its = items("}", false, 0, [&] {
            size_t ib;
            json k = operand(ib, [&] { return expr(depth - 1, {}); });
            tok(":");
            json v = expr(depth - 1, {});
            json it = node("MapItem", ib, last_e);
            it["key"] = k;
            it["value"] = v;
            return it;
        });
        return list("MapLiteral", b, its);
    }
    json set(int depth, Ctx x) {
        if (x.nb) return parens_of([&] { return set(depth, {}); });
        size_t b = tok("set");
        tok("{");
        json its = items("}", false, 0, [&] { return expr(depth - 1, {}); });
        return list("SetLiteral", b, its);
    }
    json if_expr(int depth) {
        size_t b = tok("if");
        json c = expr(depth - 1, {0, true, false});
        json th = block(depth - 1);
        json el;
        if (t.chance(1, 2)) {
            tok("else");
            el = t.chance(1, 3) && depth > 1 ? if_expr(depth - 1) : block(depth - 1);
        }
        json j = node("IfExpr", b, last_e);
        j["cond"] = c;
        j["then_branch"] = th;
        j["else_branch"] = el;
        return j;
    }
    json ret(int depth, Ctx x) {
        auto f = [&](bool nb) {
            size_t b = tok("return");
            json v;
            if (t.chance(3, 4)) v = expr(depth - 1, {0, nb, false});
            json j = node("ReturnExpr", b, last_e);
            j["value"] = v;
            return j;
        };
        if (x.bp > 0 || x.nb) return parens_of([&] { return f(false); });
        return f(false);
    }
    json params() {
        tok("(");
        return items(")", false, 0, [&] {
            std::string n = ident();
            size_t b = tok(n);
            json p = node("ParamDecl", b, last_e);
            p["modifiers"] = json::array();
            p["name"] = n;
            return p;
        });
    }
    // returns whether a `;` has to follow
    bool func(int depth, bool named, const std::string& mods_begin, json mods, size_t b0, json& r, bool allow_value) {
        (void) mods_begin;
        size_t b = tok("func");
        if (!mods.empty()) b = b0;
        json name;
        if (named) {
            std::string n = ident();
            tok(n);
            name = n;
        }
        json ps = params();
        bool value = t.chance(1, 2), semi = false;
        json body;
        if (value) {
            tok("=");
            if (!allow_value || t.chance(1, 2)) body = block(depth - 1);
            else {
                body = expr(depth - 1, {0, false, true});
                semi = true;
            }
        } else body = block(depth - 1);
        r = node("FuncDecl", b, last_e);
        r["modifiers"] = mods;
        r["name"] = name;
        r["body_is_value"] = value;
        r["params"] = ps;
        r["body"] = body;
        return semi;
    }
    json func_expr(int depth, Ctx x) {
        json d;
        func(depth, t.chance(1, 4), "", json::array(), 0, d, x.bp == 0 && !x.nb);
        json j = node("FuncExpr", begin_of(d), last_e);
        j["decl"] = d;
        return j;
    }

    // ------------------------------------------------------------------------------------- statements
    json block(int depth) {
        size_t b = tok("{");
        json stmts = json::array();
        unsigned n = depth <= 0 ? (unsigned) t.below(2) : (unsigned) t.below(4);
        std::vector<unsigned> kinds;
        for (unsigned i = 0; i < n; ++i) kinds.push_back(t.weighted({6, 3, 2, 1, 2, 2, 2, 1}));
        for (unsigned i = 0; i < n; ++i) {
            bool keyword_next = i + 1 == n || (kinds[i + 1] >= 1 && kinds[i + 1] <= 6);
            stmt(depth - 1, kinds[i], keyword_next, stmts);
        }
        tok("}");
        json j = node("BlockExpr", b, last_e);
        j["stmts"] = stmts;
        return j;
    }
    void stmt(int depth, unsigned kind, bool keyword_next, json& out_list) {
        switch (kind) {
        case 0: {
            size_t b;
            json e = operand(b, [&] { return expr(depth, {}); });
            bool optional = out[b] == '{' || word_at(b, "func") || word_at(b, "if");
            if (!(optional && keyword_next && t.chance(1, 2))) tok(";");
            json s = node("ExprStmt", b, last_e);
            s["expr"] = e;
            out_list.push_back(s);
            return;
        }
        case 1: {
            json d;
            size_t b = var_decl(depth, false, json::array(), 0, d);
            tok(";");
            json s = node("DeclStmt", b, last_e);
            s["decl"] = d;
            out_list.push_back(s);
            return;
        }
        case 2: {
            size_t b = tok("while");
            json c = expr(depth, {0, true, false});
            json body = block(depth);
            json s = node("WhileStmt", b, last_e);
            s["cond"] = c;
            s["body"] = body;
            out_list.push_back(s);
            return;
        }
        case 3: {
            size_t b = tok("defer");
            json e = expr(depth, {});
            tok(";");
            json s = node("DeferStmt", b, last_e);
            s["expr"] = e;
            out_list.push_back(s);
            return;
        }
        case 4: {
            size_t b = tok("assert");
            tok("(");
            json c = expr(depth, {}), m;
            bool two = t.chance(1, 2);
            if (two) {
                tok(",");
                m = expr(depth, {});
            }
            if (t.chance(1, 4)) tok(",");
            tok(")");
            tok(";");
            json s = node("AssertStmt", b, last_e);
            s["cond"] = c;
            s["message"] = m;
            out_list.push_back(s);
            return;
        }
        case 5: {
            size_t b = tok("for");
            json d, c, st;
            if (t.chance(2, 3)) var_decl(depth, true, json::array(), 0, d);
            tok(";");
            if (t.chance(2, 3)) c = expr(depth, {});
            tok(";");
            if (t.chance(2, 3)) st = expr(depth, {0, true, true});
            json body = block(depth);
            json s = node("ForStmt", b, last_e);
            s["decl"] = d;
            s["cond"] = c;
            s["step"] = st;
            s["body"] = body;
            out_list.push_back(s);
            return;
        }
        case 6: {
            size_t b = tok("for");
            json sp = spec();
            tok("in");
            json e = expr(depth, {0, true, false});
            json body = block(depth);
            json s = node("ForEachStmt", b, last_e);
            s["spec"] = sp;
            s["expr"] = e;
            s["body"] = body;
            out_list.push_back(s);
            return;
        }
        default: tok(";"); return; // the empty statement leaves no trace
        }
    }
    bool word_at(size_t b, const char* w) const {
        size_t n = std::strlen(w);
        return out.compare(b, n, w) == 0 && (b + n >= out.size() || !ident_like(out[b + n]));
    }
    json identifier() {
        std::string n = ident();
        size_t b = tok(n);
        json j = node("Identifier", b, last_e);
        j["value"] = n;
        return j;
    }
    json spec() {
        if (t.chance(1, 3)) {
            size_t b = tok("(");
            json names = items(")", false, 1, [&] { return identifier(); });
            json j = node("TupleBindingSpec", b, last_e);
            j["names"] = names;
            return j;
        }
        json id = identifier();
        json j = node("VarBindingSpec", id["start"].get<size_t>(), id["end"].get<size_t>());
        j["name"] = id;
        return j;
    }
    size_t var_decl(int depth, bool nb, json mods, size_t b0, json& r) {
        bool is_const = t.chance(1, 2);
        size_t b = tok(is_const ? "const" : "var");
        if (!mods.empty()) b = b0;
        json bs = json::array();
        unsigned n = 1 + (unsigned) t.below(3);
        for (unsigned i = 0; i < n; ++i) {
            if (i) tok(",");
            json sp = spec(), init;
            if (t.chance(3, 4)) {
                tok("=");
                init = expr(depth, {0, nb, false});
            }
            json bi = node("Binding", sp["start"].get<size_t>(), last_e);
            bi["is_const"] = is_const;
            bi["spec"] = sp;
            bi["init"] = init;
            bs.push_back(bi);
        }
        r = node("VarDecl", b, last_e);
        r["modifiers"] = mods;
        r["bindings"] = bs;
        return b;
    }

    // ------------------------------------------------------------------------------------------ items
    json file(int depth) {
        json its = json::array();
        unsigned n = (unsigned) t.below(5);
        bool any = false;
        size_t b = 0, e = 0;
        auto done = [&](size_t from) {
            if (!any) b = from;
            any = true;
            e = last_e;
        };
        for (unsigned i = 0; i < n; ++i) {
            if (t.chance(1, 8)) {
                size_t s = tok(";");
                done(s);
            }
            if (t.chance(1, 4)) {
                size_t ib = tok("import");
                json path = json::array();
                std::string last;
                unsigned k = 1 + (unsigned) t.below(3);
                for (unsigned p = 0; p < k; ++p) {
                    if (p) tok(".");
                    last = ident();
                    tok(last);
                    path.push_back(last);
                }
                if (t.chance(1, 3)) {
                    tok("as");
                    last = ident();
                    tok(last);
                }
                tok(";");
                json d = node("ImportDecl", ib, last_e);
                d["modifiers"] = json::array();
                d["name"] = last;
                d["path"] = path;
                json s = node("DeclStmt", ib, last_e);
                s["decl"] = d;
                its.push_back(s);
                done(ib);
                continue;
            }
            json mods = json::array();
            size_t ib = 0;
            if (t.chance(1, 3)) {
                ib = tok("export");
                mods.push_back(node("ExportModifier", ib, last_e));
            }
            json d;
            if (t.chance(1, 2)) {
                if (func(depth, t.chance(7, 8), "", mods, ib, d, true)) tok(";");
                size_t s0 = begin_of(d);
                json s = node("DeclStmt", s0, last_e);
                s["decl"] = d;
                its.push_back(s);
                done(s0);
            } else {
                size_t s0 = var_decl(depth, false, mods, ib, d);
                tok(";");
                json s = node("DeclStmt", s0, last_e);
                s["decl"] = d;
                its.push_back(s);
                done(s0);
            }
        }
        if (t.chance(1, 3)) space(false);
        // a trailing line comment must not be glued to an operator: the last token is `;` or `}`
        json f = node("File", b, e);
        f["items"] = its;
        return f;
    }
};

// offsets -> line and column
void locate(json& j, const Lines& l) {
    if (j.is_object()) {
        for (auto k : {"start", "end"}) {
            auto it = j.find(k);
            if (it != j.end() && it->is_number()) {
                auto p = l.at(it->get<size_t>());
                *it = json{{"line", p.first}, {"column", p.second}};
            }
        }
    }
    if (j.is_object() || j.is_array())
        for (auto& x : j)
            if (x.is_structured()) locate(x, l);
}

std::string brief(const json& j) {
    std::string s = j.dump();
    return s.size() > 200 ? s.substr(0, 200) + "..." : s;
}
// first difference of two trees, ignoring ids
std::string differ(const json& want, const json& got, const std::string& path) {
    if (want.is_object() && got.is_object()) {
        for (auto it = want.begin(); it != want.end(); ++it) {
            if (it.key() == "id") continue;
            auto g = got.find(it.key());
            if (g == got.end()) return path + ": no field '" + it.key() + "' in " + brief(got);
            std::string d = differ(it.value(), *g, path + "/" + it.key());
            if (!d.empty()) return d;
        }
        for (auto it = got.begin(); it != got.end(); ++it)
            if (!want.contains(it.key())) return path + ": unexpected field '" + it.key() + "'";
        return "";
    }
    if (want.is_array() && got.is_array()) {
        for (size_t i = 0; i < std::max(want.size(), got.size()); ++i) {
            if (i >= want.size()) return path + sfmt(": %zu elements, expected %zu", got.size(), want.size());
            if (i >= got.size()) return path + sfmt(": %zu elements, expected %zu", got.size(), want.size());
            std::string d = differ(want[i], got[i], path + sfmt("/%zu", i));
            if (!d.empty()) return d;
        }
        return "";
    }
    if (want == got) return "";
    return path + ": " + brief(got) + " but expected " + brief(want);
}

// ---------------------------------------------------------------------------------------- compiling
struct Result {
    std::vector<Diag> diags;
    bool ok = false;
    tiro_errc_t code = TIRO_OK;
    tiro_module_t module = nullptr;
    bool has[5] = {};
    std::string att[5]; // by tiro_attachment_t
    Result() = default;
    Result(const Result&) = delete;
    ~Result() { tiro_module_free(module); }
    const std::string& cst() const { return att[TIRO_ATTACHMENT_CST]; }
    const std::string& ast() const { return att[TIRO_ATTACHMENT_AST]; }
    const std::string& ir() const { return att[TIRO_ATTACHMENT_IR]; }
    const std::string& bytecode() const { return att[TIRO_ATTACHMENT_BYTECODE]; }
};

void run_compiler(const std::vector<Source>& files, const std::vector<int>& requests, Result& r) {
    Err err;
    tiro_compiler_t c = tiro_compiler_new(ts("main"), err);
    if (!err.ok()) throw Fail{"compiler_new: " + err.text()};
    struct Guard {
        tiro_compiler_t c;
        ~Guard() { tiro_compiler_free(c); }
    } g{c};
    MUST(tiro_compiler_set_message_callback(
        c,
        [](const tiro_compiler_message_t* m, void* u) {
            ((Result*) u)->diags.push_back({(int) m->severity, str(m->file), m->line, m->column, str(m->text)});
            return true;
        },
        &r, must));
    for (int a : requests) MUST(tiro_compiler_request_attachment(c, (tiro_attachment_t) a, must));
    for (auto& f : files) MUST(tiro_compiler_add_file(c, ts(f.name), ts(f.text), must));
    tiro_compiler_run(c, err);
    r.ok = err.ok();
    if (!err.ok()) r.code = err.code();
    for (int a = 1; a <= 4; ++a) {
        Err e2;
        char* s = nullptr;
        tiro_compiler_get_attachment(c, (tiro_attachment_t) a, &s, e2);
        if (e2.ok()) {
            if (!s) throw Fail{sfmt("attachment %d is null", a)};
            r.has[a] = true;
            r.att[a] = s;
            free(s);
        } else if (e2.code() != TIRO_ERROR_BAD_STATE)
            throw Fail{sfmt("get_attachment %d: ", a) + e2.text()};
    }
    if (r.ok) MUST(tiro_compiler_take_module(c, &r.module, must));
}

std::string escape(std::string_view s) {
    std::string r;
    for (unsigned char c : s) switch (c) {
        case '\n': r += "\\n"; break;
        case '\r': r += "\\r"; break;
        case '\t': r += "\\t"; break;
        case '"': r += "\\\""; break;
        case '\'': r += "\\'"; break;
        case '\\': r += "\\\\"; break;
        case '$': r += "\\$"; break;
        default:
            if (c < 32 || c >= 127) r += sfmt("\\x%02x", c);
            else r += (char) c;
        }
    return r;
}
bool same_escape(const std::string& a, const std::string& b) { // hex digits in either case
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (tolower((unsigned char) a[i]) != tolower((unsigned char) b[i])
            || (a[i] != b[i] && !isxdigit((unsigned char) a[i])))
            return false;
    return true;
}

bool is_space_cp(uint32_t c) { return c == 0x20 || (c >= 9 && c <= 13) || c == 0x85 || c == 0xa0 || c == 0x1680 || (c >= 0x2000 && c <= 0x200a)
    || c == 0x2028 || c == 0x2029 || c == 0x202f || c == 0x205f || c == 0x3000; }

// Does [b, e) of the text consist of white space and comments only? An unterminated block comment extends to the
// end of the text.
bool only_trivia(std::string_view s, size_t b, size_t e) {
    size_t i = b;
    while (i < e) {
        if (s.substr(i, 2) == "//") {
            while (i < s.size() && s[i] != '\n') ++i;
            if (i > e) return false;
        } else if (s.substr(i, 2) == "/*") {
            size_t d = 0;
            while (i < s.size()) {
                if (s.substr(i, 2) == "/*") d++, i += 2;
                else if (s.substr(i, 2) == "*/") {
                    i += 2;
                    if (--d == 0) break;
                } else
                    ++i;
            }
            if (i > e) return false;
        } else {
            unsigned char c = s[i];
            uint32_t cp = c;
            size_t n = 1;
            if (c >= 0xf0) n = 4, cp = c & 7;
            else if (c >= 0xe0) n = 3, cp = c & 15;
            else if (c >= 0xc0) n = 2, cp = c & 31;
            for (size_t k = 1; k < n && i + k < s.size(); ++k) cp = cp << 6 | ((unsigned char) s[i + k] & 63);
            if (!is_space_cp(cp)) return false;
            i += n;
        }
    }
    return i == e;
}

bool valid_utf8(std::string_view s) {
    for (size_t i = 0; i < s.size();) {
        unsigned char c = s[i];
        size_t n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
        if (!n || i + n > s.size()) return false;
        uint32_t cp = n == 1 ? c : c & (0x7f >> n);
        for (size_t k = 1; k < n; ++k) {
            if (((unsigned char) s[i + k] & 0xc0) != 0x80) return false;
            cp = cp << 6 | (s[i + k] & 63);
        }
        if ((n == 3 && (cp < 0x800 || (cp >= 0xd800 && cp < 0xe000))) || (n == 4 && (cp < 0x10000 || cp > 0x10ffff))) return false;
        i += n;
    }
    return true;
}

// ------------------------------------------------------------------------------------ the CST attachment
struct CstStats {
    size_t tokens = 0, nodes = 0, errors = 0;
};
struct CstLine {
    int depth;
    std::string type;
    size_t b, e;
    bool token;
    std::string text;
};
struct CstFile {
    std::vector<CstLine> lines;
    std::vector<std::pair<size_t, std::string>> errors; // offset of the begin, message
    std::vector<std::pair<unsigned, unsigned>> error_pos;
};

bool parse_pos(const std::string& s, size_t& i, unsigned& line, unsigned& col) {
    char* end = nullptr;
    if (i >= s.size() || !isdigit((unsigned char) s[i])) return false;
    line = (unsigned) strtoul(s.c_str() + i, &end, 10);
    i = end - s.c_str();
    if (i >= s.size() || s[i] != ':') return false;
    ++i;
    if (i >= s.size() || !isdigit((unsigned char) s[i])) return false;
    col = (unsigned) strtoul(s.c_str() + i, &end, 10);
    i = end - s.c_str();
    return true;
}

CstStats check_cst(const std::vector<Source>& files, const Result& r) {
    CstStats st;
    std::string rest = r.cst();
    std::vector<std::string> lines;
    for (size_t p = 0; p < rest.size();) {
        size_t q = rest.find('\n', p);
        if (q == std::string::npos) throw Fail{"CST: the last line is not terminated"};
        lines.push_back(rest.substr(p, q - p));
        p = q + 1;
    }
    size_t at = 0, next_diag = 0;
    (void) next_diag;
    for (auto& f : files) {
        if (at >= lines.size() || lines[at] != "# Filename: " + f.name)
            throw Fail{"CST: expected the section of file " + f.name + " but found: " + (at < lines.size() ? lines[at] : "the end")};
        ++at;
        bool utf8 = valid_utf8(f.text);
        Lines L(f.text);
        std::vector<CstLine> tree;
        std::vector<std::tuple<unsigned, unsigned, std::string>> errors;
        auto range = [&](const std::string& s, size_t& i, size_t& b, size_t& e) {
            unsigned l, c;
            if (!parse_pos(s, i, l, c)) throw Fail{"CST: no position in line: " + s};
            b = e = L.offset(l, c);
            if (b == std::string::npos) throw Fail{"CST: a position outside of the text in line: " + s};
            if (s.compare(i, 2, "..") == 0) {
                i += 2;
                if (!parse_pos(s, i, l, c)) throw Fail{"CST: no end position in line: " + s};
                e = L.offset(l, c);
                if (e == std::string::npos) throw Fail{"CST: a position outside of the text in line: " + s};
                if (e <= b) throw Fail{"CST: a range that ends before it starts in line: " + s};
            }
        };
        for (; at < lines.size() && !lines[at].empty() && lines[at].compare(0, 12, "# Filename: "); ++at) {
            const std::string& s = lines[at];
            size_t i = 0;
            while (i < s.size() && s[i] == ' ') ++i;
            if (i % 2) throw Fail{"CST: odd indentation in line: " + s};
            CstLine l;
            l.depth = (int) (i / 2);
            size_t a = s.find('@', i);
            if (a == std::string::npos) throw Fail{"CST: no '@' in line: " + s};
            l.type = s.substr(i, a - i);
            i = a + 1;
            range(s, i, l.b, l.e);
            l.token = i < s.size();
            if (l.token) {
                if (s.compare(i, 2, " \"") || s.back() != '"' || s.size() < i + 3) throw Fail{"CST: malformed token line: " + s};
                l.text = s.substr(i + 2, s.size() - i - 3);
            }
            tree.push_back(l);
        }
        if (at < lines.size() && lines[at].empty()) {
            ++at;
            if (at >= lines.size() || lines[at] != "Errors:") throw Fail{"CST: expected the list of errors"};
            for (++at; at < lines.size() && lines[at].compare(0, 2, "  ") == 0; ++at) {
                const std::string& s = lines[at];
                size_t i = 2, b, e;
                unsigned el, ec;
                size_t j = i;
                if (!parse_pos(s, j, el, ec)) throw Fail{"CST: no position in error line: " + s};
                if (utf8) range(s, i, b, e);
                else {
                    i = j;
                    unsigned x, y;
                    if (s.compare(i, 2, "..") == 0) {
                        i += 2;
                        parse_pos(s, i, x, y);
                    }
                }
                if (i >= s.size() || s[i] != ' ') throw Fail{"CST: malformed error line: " + s};
                errors.push_back({el, ec, s.substr(i + 1)});
            }
        }
        // the tree
        if (tree.empty() || tree[0].depth != 0 || tree[0].type != "Root" || tree[0].token) throw Fail{"CST: no root node for " + f.name};
        std::vector<size_t> open;
        size_t last_end = 0;
        for (size_t k = 0; k < tree.size(); ++k) {
            auto& l = tree[k];
            if (k && (l.depth < 1 || l.depth > tree[k - 1].depth + (tree[k - 1].token ? 0 : 1)))
                throw Fail{"CST: a node in the wrong place: " + l.type};
            while ((int) open.size() > l.depth) open.pop_back();
            if (!open.empty()) {
                auto& p = tree[open.back()];
                if (l.b < p.b || l.e > p.e)
                    throw Fail{sfmt("CST: %s [%zu, %zu) is not inside of its parent %s [%zu, %zu)", l.type.c_str(), l.b, l.e, p.type.c_str(), p.b, p.e)};
            }
            if (l.token) {
                ++st.tokens;
                std::string src = f.text.substr(l.b, l.e - l.b), want = escape(src);
                if (!same_escape(l.text, want)) throw Fail{"CST: token " + l.type + " shows \"" + l.text + "\" but the text there is \"" + want + "\""};
                // the end of the text may take part in an error as an empty token
                if (l.b == l.e && !(l.type == "Eof" && l.b == f.text.size())) throw Fail{"CST: an empty token " + l.type};
                if (l.b < last_end) throw Fail{"CST: token \"" + l.text + "\" overlaps its predecessor or is out of order"};
                if (!only_trivia(f.text, last_end, l.b))
                    throw Fail{sfmt("CST: the text at %zu..%zu is in no token: ", last_end, l.b) + escape(f.text.substr(last_end, l.b - last_end))};
                last_end = l.e;
            } else {
                ++st.nodes;
                open.push_back(k);
            }
        }
        // ranges are exactly those of the children
        for (size_t k = 0; k < tree.size(); ++k) {
            if (tree[k].token) continue;
            size_t first = 0, last = 0;
            for (size_t m = k + 1; m < tree.size() && tree[m].depth > tree[k].depth; ++m)
                if (tree[m].depth == tree[k].depth + 1) {
                    if (!first) first = m;
                    last = m;
                }
            if (first) {
                if (tree[k].b != tree[first].b || tree[k].e != tree[last].e)
                    throw Fail{sfmt("CST: the range of %s [%zu, %zu) is not that of its children [%zu, %zu)", tree[k].type.c_str(), tree[k].b, tree[k].e, tree[first].b, tree[last].e)};
            } else if (tree[k].b != tree[k].e)
                throw Fail{"CST: node " + tree[k].type + " has a range but no children"};
        }
        if (utf8 && !only_trivia(f.text, last_end, f.text.size()))
            throw Fail{sfmt("CST: the text from %zu to the end is in no token: ", last_end) + escape(f.text.substr(last_end))};
        if (!utf8 && errors.empty()) throw Fail{"CST: no error for invalid UTF-8"};
        // every syntax error is also a diagnostic, in the same order
        std::vector<const Diag*> ds;
        for (auto& d : r.diags)
            if (d.file == f.name) ds.push_back(&d);
        for (size_t k = 0; k < errors.size(); ++k) {
            if (k >= ds.size()) throw Fail{"no diagnostic for the syntax error '" + std::get<2>(errors[k]) + "'"};
            if (ds[k]->text != std::get<2>(errors[k]) || (utf8 && (ds[k]->line != std::get<0>(errors[k]) || ds[k]->column != std::get<1>(errors[k]))))
                throw Fail{sfmt("diagnostic %zu of %s is %u:%u '%s' but the CST has %u:%u '%s'", k, f.name.c_str(), ds[k]->line, ds[k]->column,
                    ds[k]->text.c_str(), std::get<0>(errors[k]), std::get<1>(errors[k]), std::get<2>(errors[k]).c_str())};
        }
        st.errors += errors.size();
    }
    if (at != lines.size()) throw Fail{"CST: unexpected line: " + lines[at]};
    if (st.errors && r.ok) throw Fail{"the compiler succeeded although there are syntax errors"};
    return st;
}

// ------------------------------------------------------------------------------------ the AST attachment
// Structure of any AST: positions inside of the text, children inside of their parents, unique ids.
void check_ast(const std::vector<Source>& files, const json& ast) {
    if (!ast.is_object() || ast.value("type", "") != "Module" || !ast.contains("files") || !ast["files"].is_array())
        throw Fail{"AST: not a module"};
    if (ast["files"].size() > files.size()) throw Fail{"AST: too many files"};
    std::set<u64> ids;
    struct Walk {
        std::set<u64>& ids;
        const Lines* L = nullptr;
        std::string_view text;
        void node(const json& j, size_t pb, size_t pe) {
            if (j.is_array()) {
                for (auto& x : j) node(x, pb, pe);
                return;
            }
            if (!j.is_object()) return;
            if (!j.contains("type") || !j.contains("id")) throw Fail{"AST: an object that is no node: " + brief(j)};
            std::string type = j["type"];
            if (!j["id"].is_number_unsigned() || !ids.insert(j["id"].get<u64>()).second)
                throw Fail{"AST: the id of a node is missing or not unique: " + brief(j)};
            size_t b = pb, e = pe;
            if (j.contains("start")) {
                b = L->offset(j["start"]["line"], j["start"]["column"]);
                e = L->offset(j["end"]["line"], j["end"]["column"]);
                if (b == std::string::npos || e == std::string::npos || b > e) throw Fail{"AST: bad range: " + brief(j)};
                if (b < pb || e > pe) throw Fail{"AST: a node outside of its parent: " + brief(j)};
            } else
                throw Fail{"AST: a node without a range: " + brief(j)};
            if (type == "VarExpr" || type == "Identifier" || type == "ParamDecl") {
                std::string n = j[type == "Identifier" ? "value" : "name"];
                if (text.substr(b, e - b) != n) throw Fail{"AST: the text at the range of " + brief(j) + " is '" + std::string(text.substr(b, e - b)) + "'"};
            }
            if (type == "SymbolLiteral" && text.substr(b, e - b) != "#" + j["value"].get<std::string>())
                throw Fail{"AST: the text at the range of " + brief(j) + " is '" + std::string(text.substr(b, e - b)) + "'"};
            for (auto it = j.begin(); it != j.end(); ++it)
                if (it.key() != "start" && it.key() != "end") node(it.value(), b, e);
        }
    };
    if (ast.contains("id")) ids.insert(ast["id"].get<u64>());
    size_t fi = 0;
    for (auto& f : ast["files"]) {
        size_t i = fi++;
        if (f.is_null()) continue;
        Lines L(files[i].text);
        Walk w{ids, &L, files[i].text};
        w.node(f, 0, files[i].text.size());
    }
}

json parse_ast(const std::string& s) {
    json j = json::parse(s, nullptr, false);
    if (j.is_discarded()) throw Fail{"AST: not valid JSON: " + s.substr(0, 200)};
    return j;
}

std::string diags_of(const Result& r) {
    std::string s;
    for (auto& d : r.diags) s += sfmt("\n%d %s:%u:%u %s", d.severity, d.file.c_str(), d.line, d.column, d.text.c_str());
    return s;
}

std::vector<Source> gen_files(Tape& t, std::vector<json>& trees, std::set<std::string>& seen, int& comments, int depth, int budget) {
    std::vector<Source> files;
    static const std::vector<std::string> names{"a", "dir/b.tiro", "# Filename: c", "\xc3\xa4 x"};
    unsigned n = 1 + (t.chance(1, 4) ? (unsigned) t.below(3) : 0);
    unsigned off = (unsigned) t.below(4);
    for (unsigned i = 0; i < n; ++i) {
        Printer23 p(t, budget);
        json f = p.file(depth);
        locate(f, Lines(p.out));
        trees.push_back(f);
        files.push_back({names[(i + off) % 4], p.out});
        seen.insert(p.seen.begin(), p.seen.end());
        comments += p.comments;
    }
    return files;
}

void tree(Case& c) {
    Tape& t = c.t;
    std::vector<json> trees;
    std::set<std::string> seen;
    int comments = 0;
    auto files = gen_files(t, trees, seen, comments, 1 + (int) t.below(6), t.pick({10, 30, 100}));
    for (auto& f : files) c.add("--- " + f.name + "\n" + f.text + "\n");
    Result r;
    run_compiler(files, {TIRO_ATTACHMENT_AST, TIRO_ATTACHMENT_CST}, r);
    if (!r.has[TIRO_ATTACHMENT_CST] || !r.has[TIRO_ATTACHMENT_AST]) c.fail("a requested attachment is missing" + diags_of(r));
    auto st = check_cst(files, r);
    if (st.errors) c.fail("syntax errors in a correct program:" + diags_of(r));
    json got = parse_ast(r.ast());
    json want = json{{"type", "Module"}, {"id", 0}, {"has_error", false}, {"files", json(trees)}};
    // the module itself has no position
    std::string d = differ(want, got, "");
    if (!d.empty()) c.fail("AST: " + d);
    check_ast(files, got);
    for (auto& s : seen) c.label(s);
    c.count("tokens", (i64) st.tokens);
    if (comments) c.label("comments");
    if (files.size() > 1) c.label("several files");
    c.nontrivial = st.tokens >= 20;
}

// ---------------------------------------------------------------------------------------------- any text
std::string mutate(Tape& t, std::string s) {
    static const std::vector<std::string> pieces{"(", ")", "[", "]", "{", "}", ";", ",", ".", "?.", "?(", "?[", "?", "??", "=", "==", "+", "++", "--",
        "-", "*", "**", "/", "//", "/*", "*/", "\"", "'", "$", "${", "#", "#x", "1", "0x", "1.", "1.5", "x", "func", "var", "const", "if", "else",
        "while", "for", "in", "return", "break", "continue", "import", "as", "export", "defer", "assert", "map", "set", "map{", "set{", "null",
        "true", "yield", "try", "struct", "\\", "\\x", "\n", "\r\n", "\r", "\t", " ", "@", "`", "\xc2\xa0", "\xe2\x80\xa8", "\xef\xbb\xbf",
        "\xf0\x9f\x98\x80", "\xc3", "\xff", "\x01", "\x7f", ":", "(:", "(a:", "for (", "for ;", "func(", "func =", "var (", ")}", "\"$", "\"${"};
    unsigned n = 1 + (unsigned) t.below(6);
    for (unsigned i = 0; i < n; ++i) {
        size_t p = s.empty() ? 0 : t.below(s.size() + 1);
        switch (t.below(5)) {
        case 0: s.insert(p, t.pick(pieces)); break;
        case 1: s.erase(p, 1 + t.below(3)); break;
        case 2: s.erase(p, 1 + t.below(30)); break;
        case 3: {
            size_t q = s.empty() ? 0 : t.below(s.size() + 1);
            s.insert(p, s.substr(q, t.below(20)));
            break;
        }
        default: s.insert(p, " " + t.pick(pieces) + " " + t.pick(pieces)); break;
        }
    }
    return s;
}

void text(Case& c) {
    Tape& t = c.t;
    std::vector<json> trees;
    std::set<std::string> seen;
    int comments = 0;
    std::vector<Source> files;
    switch (t.weighted({6, 2, 1})) {
    case 0:
        files = gen_files(t, trees, seen, comments, 1 + (int) t.below(4), t.pick({10, 40}));
        for (auto& f : files)
            if (t.chance(3, 4)) f.text = mutate(t, f.text);
        break;
    case 1: {
        std::string s;
        unsigned n = (unsigned) t.size(20);
        for (unsigned i = 0; i < n; ++i) s = mutate(t, s);
        files.push_back({"a", s});
        break;
    }
    default: {
        std::string s;
        unsigned n = (unsigned) t.size(100);
        for (unsigned i = 0; i < n; ++i) s += (char) (t.chance(1, 20) ? t.below(256) : 9 + t.below(118));
        files.push_back({"a", s});
    }
    }
    for (auto& f : files) {
        // embedded NULs would end the attachment's C string
        for (auto& ch : f.text)
            if (!ch) ch = ' ';
        c.add("--- " + f.name + "\n" + f.text + "\n");
    }
    Result r;
    run_compiler(files, {TIRO_ATTACHMENT_CST, TIRO_ATTACHMENT_AST}, r);
    if (!r.ok && r.code != TIRO_ERROR_BAD_SOURCE) c.fail(sfmt("the compiler failed with error %d", (int) r.code));
    if (!r.has[TIRO_ATTACHMENT_CST] || !r.has[TIRO_ATTACHMENT_AST]) c.fail("a requested attachment is missing" + diags_of(r));
    if (r.has[TIRO_ATTACHMENT_IR] || r.has[TIRO_ATTACHMENT_BYTECODE]) c.fail("an attachment that was not requested");
    auto st = check_cst(files, r);
    check_ast(files, parse_ast(r.ast()));
    if (!r.ok && r.diags.empty()) c.fail("the compiler failed without a diagnostic");
    if (st.errors) c.label("syntax errors");
    if (st.tokens == 0) c.label("no tokens");
    c.count("tokens", (i64) st.tokens);
    c.nontrivial = st.tokens >= 5 && st.errors;
}

// -------------------------------------------------------------------------------------- IR and bytecode listings
std::vector<std::string> split_lines(const std::string& s) {
    std::vector<std::string> v;
    for (size_t p = 0; p <= s.size();) {
        size_t q = s.find('\n', p);
        if (q == std::string::npos) q = s.size();
        v.push_back(s.substr(p, q - p));
        p = q + 1;
    }
    return v;
}
std::string trim(const std::string& s) {
    size_t b = s.find_first_not_of(' '), e = s.find_last_not_of(' ');
    return b == std::string::npos ? "" : s.substr(b, e - b + 1);
}
bool starts(const std::string& s, const char* p) { return s.compare(0, std::strlen(p), p) == 0; }
// removes "..." literals
std::string without_strings(const std::string& s) {
    std::string r;
    bool in = false;
    for (size_t i = 0; i < s.size(); ++i) {
        if (in && s[i] == '\\') {
            ++i;
            continue;
        }
        if (s[i] == '"') {
            in = !in;
            r += '"';
            continue;
        }
        if (!in) r += s[i];
    }
    return r;
}
// all tokens of the form <sigil>name in a line
std::vector<std::string> refs(const std::string& s, char sigil) {
    std::vector<std::string> v;
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == sigil && i + 1 < s.size() && (isalnum((unsigned char) s[i + 1]) || s[i + 1] == '_' || (unsigned char) s[i + 1] >= 0x80)) {
            size_t j = i + 1;
            while (j < s.size() && (isalnum((unsigned char) s[j]) || s[j] == '_' || s[j] == '-' || (unsigned char) s[j] >= 0x80)) ++j;
            v.push_back(s.substr(i, j - i));
            i = j - 1;
        }
    return v;
}

struct Block {
    std::string label;
    std::vector<std::string> preds, succs, defs;
    struct Use {
        std::string name;
        size_t at; // instruction
        int pred;  // operand of a phi: index of the predecessor, otherwise -1
        bool anywhere = false;
    };
    std::vector<Use> uses;
    std::vector<size_t> def_at;
    size_t instrs = 0;
    bool terminated = false;
};

struct IrStats {
    size_t functions = 0, blocks = 0, values = 0, phis = 0;
};

void check_ir_function(const std::vector<std::string>& lines, const std::string& member, size_t members, const std::vector<bool>& is_function, IrStats& st) {
    std::vector<Block> bs;
    std::map<std::string, size_t> index;
    auto bad = [&](const std::string& what, const std::string& line) { throw Fail{"IR: member " + member + ": " + what + ": " + line}; };
    for (auto& raw : lines) {
        std::string s = trim(raw);
        if (s.empty()) continue;
        if (s[0] == '$') {
            if (!index.emplace(s, bs.size()).second) bad("a label occurs twice", s);
            bs.push_back({});
            bs.back().label = s;
            continue;
        }
        if (bs.empty()) bad("a line outside of any block", s);
        Block& b = bs.back();
        std::string plain = without_strings(s);
        if (starts(s, "<- ")) {
            b.preds = refs(plain, '$');
            continue;
        }
        if (starts(s, "handler:")) {
            for (auto& l : refs(plain, '$')) (void) l; // checked against the labels below
            b.uses.push_back({refs(plain, '$').empty() ? "" : refs(plain, '$')[0], 0, -2});
            continue;
        }
        if (starts(s, "-> ")) {
            if (b.terminated) bad("two terminators in a block", s);
            b.terminated = true;
            b.succs = refs(plain, '$');
            for (auto& v : refs(plain, '%')) b.uses.push_back({v, b.instrs, -1});
            continue;
        }
        size_t colon = s.find(':');
        if (colon == std::string::npos || colon == 0 || !std::all_of(s.begin(), s.begin() + colon, [](char ch) { return isdigit((unsigned char) ch); }))
            bad("not an instruction", s);
        if (std::stoul(s.substr(0, colon)) != b.instrs) bad("an instruction with the wrong number", s);
        size_t eq = plain.find(" = ");
        if (eq == std::string::npos) bad("not a definition", s);
        auto def = refs(plain.substr(0, eq), '%');
        if (def.size() != 1) bad("not a definition", s);
        std::string value = plain.substr(eq + 3);
        b.defs.push_back(def[0]);
        b.def_at.push_back(b.instrs);
        bool phi = starts(value, "<phi "), observe = starts(value, "<observe-assign") ;
        auto ops = refs(value, '%');
        if (phi) {
            ++st.phis;
            if (ops.size() != b.preds.size()) bad(sfmt("a phi with %zu operands in a block with %zu predecessors", ops.size(), b.preds.size()), s);
            for (size_t i = 0; i < ops.size(); ++i) b.uses.push_back({ops[i], b.instrs, (int) i});
        } else
            for (auto& o : ops) b.uses.push_back({o, b.instrs, -1, observe});
        // references to members of the module
        for (const char* key : {"<module ", "func: "}) {
            size_t p = value.find(key);
            if (p == std::string::npos) continue;
            size_t q = p + std::strlen(key);
            if (q >= value.size() || !isdigit((unsigned char) value[q])) continue;
            size_t m = std::stoul(value.substr(q));
            if (m >= members) bad("a reference to a missing member", s);
            if (key[0] == 'f' && !is_function[m]) bad("a closure of a member that is no function", s);
        }
        ++b.instrs;
    }
    if (bs.empty()) throw Fail{"IR: member " + member + ": no blocks"};
    st.functions++;
    st.blocks += bs.size();
    // edges
    std::map<std::string, std::multiset<std::string>> preds;
    for (auto& b : bs) {
        if (!b.terminated) bad("a block without terminator", b.label);
        for (auto& s : b.succs) {
            if (!index.count(s)) bad("a jump to a missing block", s);
            preds[s].insert(b.label);
        }
        for (auto& u : b.uses)
            if (u.pred == -2 && !index.count(u.name)) bad("a missing handler block", u.name);
    }
    for (auto& b : bs) {
        std::multiset<std::string> listed(b.preds.begin(), b.preds.end());
        if (listed != preds[b.label]) bad("the listed predecessors are not the blocks that lead here", b.label);
    }
    if (!bs[0].preds.empty()) bad("the entry block has predecessors", bs[0].label);
    // single definitions; definitions dominate uses
    std::map<std::string, std::pair<size_t, size_t>> defs;
    for (size_t i = 0; i < bs.size(); ++i)
        for (size_t k = 0; k < bs[i].defs.size(); ++k) {
            if (!defs.emplace(bs[i].defs[k], std::make_pair(i, bs[i].def_at[k])).second) bad("a second definition", bs[i].defs[k]);
            ++st.values;
        }
    size_t n = bs.size();
    std::vector<std::vector<char>> dom(n, std::vector<char>(n, 1)); // dom[b][a]: a dominates b
    dom[0].assign(n, 0);
    dom[0][0] = 1;
    for (bool changed = true; changed;) {
        changed = false;
        for (size_t i = 1; i < n; ++i) {
            std::vector<char> d(n, 1);
            for (auto& p : bs[i].preds)
                for (size_t k = 0; k < n; ++k) d[k] = d[k] && dom[index[p]][k];
            d[i] = 1;
            if (d != dom[i]) {
                dom[i] = d;
                changed = true;
            }
        }
    }
    for (size_t i = 0; i < n; ++i)
        for (auto& u : bs[i].uses) {
            if (u.pred == -2) continue;
            auto d = defs.find(u.name);
            if (d == defs.end()) bad("use of a value that is not defined", u.name + " in " + bs[i].label);
            if (u.anywhere) continue;
            if (u.pred >= 0) {
                if (!dom[index[bs[i].preds[u.pred]]][d->second.first]) bad("a phi operand that is not available at the end of its predecessor", u.name + " in " + bs[i].label);
                continue;
            }
            if (d->second.first == i ? d->second.second >= u.at : !dom[i][d->second.first])
                bad("use of a value that may not be defined yet", u.name + " in " + bs[i].label);
        }
}

IrStats check_ir(const std::string& ir) {
    IrStats st;
    auto lines = split_lines(ir);
    size_t members = 0, i = 0;
    bool found = false;
    for (; i < lines.size() && lines[i] != "Members:"; ++i)
        if (starts(lines[i], "  Members: ")) members = std::stoul(lines[i].substr(11)), found = true;
    if (!found || i == lines.size()) throw Fail{"IR: no list of members"};
    struct Member {
        std::string head;
        std::vector<std::string> body;
    };
    std::vector<Member> ms;
    for (++i; i < lines.size(); ++i) {
        auto& s = lines[i];
        // members are indented by two spaces plus alignment, what belongs to a member by more
        size_t b = s.find_first_not_of(' ');
        std::string next = std::to_string(ms.size()) + ": ";
        if (b != std::string::npos && b < 2 + std::to_string(members).size() && s.compare(b, next.size(), next) == 0) {
            ms.push_back({s.substr(b + next.size()), {}});
            continue;
        }
        if (ms.empty()) {
            if (trim(s).empty()) continue;
            throw Fail{"IR: unexpected line: " + s};
        }
        ms.back().body.push_back(s);
    }
    if (ms.size() != members) throw Fail{sfmt("IR: %zu members listed but %zu announced", ms.size(), members)};
    std::vector<bool> fn;
    for (auto& m : ms) {
        std::string h = m.head;
        if (starts(h, "[exported] ")) h = h.substr(11);
        fn.push_back(h == "Function");
    }
    for (size_t k = 0; k < ms.size(); ++k) {
        if (!fn[k]) {
            for (auto& l : ms[k].body)
                if (!trim(l).empty()) throw Fail{"IR: unexpected line: " + l};
            continue;
        }
        std::vector<std::string> code;
        bool body = false;
        for (auto& l : ms[k].body) {
            std::string s = trim(l);
            if (!body && (s.empty() || starts(s, "Name: ") || starts(s, "Type: "))) continue;
            body = true;
            code.push_back(l);
        }
        check_ir_function(code, std::to_string(k), members, fn, st);
    }
    return st;
}

struct BcStats {
    size_t functions = 0, instructions = 0, members = 0;
};

BcStats check_bytecode(const std::string& text) {
    BcStats st;
    auto lines = split_lines(text);
    size_t members = 0, functions = 0, i = 0;
    for (; i < lines.size() && lines[i] != "Exports:"; ++i) {
        if (starts(lines[i], "  Members: ")) members = std::stoul(lines[i].substr(11));
        if (starts(lines[i], "  Functions: ")) functions = std::stoul(lines[i].substr(13));
    }
    std::vector<std::pair<size_t, size_t>> exports;
    auto number = [](const std::string& s, const char* p) -> size_t {
        if (!starts(s, p)) throw Fail{"bytecode: expected a reference, found: " + s};
        return std::stoul(s.substr(std::strlen(p)));
    };
    for (++i; i < lines.size() && lines[i] != "Members:"; ++i) {
        std::string s = trim(lines[i]);
        if (s.empty()) continue;
        size_t a = s.find(" -> ");
        if (a == std::string::npos) throw Fail{"bytecode: malformed export: " + s};
        exports.push_back({number(s, "m:"), number(s.substr(a + 4), "m:")});
    }
    if (i >= lines.size()) throw Fail{"bytecode: no list of members"};
    struct Member {
        std::string head;
        std::vector<std::string> body;
    };
    std::vector<Member> ms;
    size_t width = std::to_string(members ? members - 1 : 0).size();
    for (++i; i < lines.size(); ++i) {
        auto& s = lines[i];
        std::string next = std::to_string(ms.size());
        if (next.size() <= width) next = "  " + std::string(width - next.size(), ' ') + next + ": ";
        if (ms.size() < members && starts(s, next.c_str())) {
            ms.push_back({s.substr(next.size()), {}});
            continue;
        }
        if (trim(s).empty()) continue;
        if (ms.empty()) throw Fail{"bytecode: unexpected line: " + s};
        ms.back().body.push_back(trim(s));
    }
    if (ms.size() != members) throw Fail{sfmt("bytecode: %zu members listed but %zu announced", ms.size(), members)};
    st.members = members;
    auto kind = [&](size_t m) -> std::string {
        if (m >= members) throw Fail{sfmt("bytecode: a reference to the missing member %zu", m)};
        return ms[m].head.substr(0, ms[m].head.find('('));
    };
    auto need = [&](size_t m, std::initializer_list<const char*> kinds, const std::string& where) {
        std::string k = kind(m);
        for (auto x : kinds)
            if (k == x) return;
        throw Fail{sfmt("bytecode: member %zu is a %s: ", m, k.c_str()) + where};
    };
    for (auto& [a, b] : exports) {
        need(a, {"Symbol"}, "name of an export");
        kind(b);
    }
    for (auto& m : ms) {
        std::string k = m.head.substr(0, m.head.find('('));
        auto refs_in = [&](const std::string& s) {
            std::vector<size_t> v;
            for (size_t p = s.find("m:"); p != std::string::npos; p = s.find("m:", p + 1))
                if (p && (s[p - 1] == ' ') && p + 2 < s.size() && isdigit((unsigned char) s[p + 2])) v.push_back(std::stoul(s.substr(p + 2)));
            return v;
        };
        if (k == "Symbol" || k == "Import" || k == "Variable") {
            for (size_t x : refs_in(m.head)) need(x, {"String"}, m.head);
        } else if (k == "RecordSchema") {
            for (auto& l : m.body) {
                if (!starts(l, "- m:")) throw Fail{"bytecode: malformed key of a record schema: " + l};
                need(number(l, "- m:"), {"Symbol"}, l);
            }
        } else if (k == "Function") {
            ++st.functions;
            size_t params = 0, locals = 0, p = 0;
            for (; p < m.body.size() && m.body[p] != "Code:"; ++p) {
                if (starts(m.body[p], "Params: ")) params = std::stoul(m.body[p].substr(8));
                if (starts(m.body[p], "Locals: ")) locals = std::stoul(m.body[p].substr(8));
                if (starts(m.body[p], "Name: m:")) need(number(m.body[p], "Name: m:"), {"String"}, m.body[p]);
            }
            if (p == m.body.size()) throw Fail{"bytecode: a function without code"};
            std::set<size_t> offsets;
            std::vector<size_t> targets;
            size_t last = 0;
            bool any = false;
            for (++p; p < m.body.size() && m.body[p] != "Handlers:"; ++p) {
                const std::string& s = m.body[p];
                size_t colon = s.find(": ");
                if (colon == std::string::npos) throw Fail{"bytecode: malformed instruction: " + s};
                size_t off = std::stoul(s);
                if (any ? off <= last : off != 0) throw Fail{"bytecode: offsets do not increase from zero: " + s};
                any = true;
                last = off;
                offsets.insert(off);
                ++st.instructions;
                std::string ins = s.substr(colon + 2);
                // operands come in pairs of name and value
                std::vector<std::string> w;
                for (size_t a = 0; a < ins.size();) {
                    size_t e = ins.find(' ', a);
                    if (e == std::string::npos) e = ins.size();
                    if (e > a) w.push_back(ins.substr(a, e - a));
                    a = e + 1;
                }
                if (w.size() % 2 != 1) throw Fail{"bytecode: malformed instruction: " + s};
                for (size_t k2 = 2; k2 < w.size(); k2 += 2) {
                    const std::string &name = w[k2 - 1], &v = w[k2];
                    if (starts(v, "l:")) {
                        if (number(v, "l:") >= locals) throw Fail{"bytecode: a register out of range: " + s};
                    } else if (starts(v, "p:")) {
                        if (number(v, "p:") >= params) throw Fail{"bytecode: a parameter out of range: " + s};
                    } else if (starts(v, "o:"))
                        targets.push_back(number(v, "o:"));
                    else if (starts(v, "m:")) {
                        size_t x = number(v, "m:");
                        if (name == "name") need(x, {"Symbol"}, s);
                        else if (name == "template") need(x, {"Function"}, s);
                        else if (name == "schema") need(x, {"RecordSchema"}, s);
                        else kind(x);
                    } else if (v == "None" && name != "env" && name != "message" && name != "parent")
                        throw Fail{"bytecode: a missing operand: " + s};
                }
            }
            for (size_t x : targets)
                if (!offsets.count(x)) throw Fail{sfmt("bytecode: a jump to %zu, which is not the start of an instruction", x)};
            if (p < m.body.size()) {
                size_t end = 0;
                for (++p; p < m.body.size(); ++p) {
                    const std::string& s = m.body[p];
                    unsigned long a, b, tg;
                    if (std::sscanf(s.c_str(), "from: o:%lu, to: o:%lu, target: o:%lu", &a, &b, &tg) != 3) throw Fail{"bytecode: malformed handler: " + s};
                    if (a >= b || a < end || !offsets.count(a) || !offsets.count(tg) || (!offsets.count(b) && b <= last))
                        throw Fail{"bytecode: a handler that does not cover instructions: " + s};
                    end = b;
                }
            }
        } else if (k != "String" && k != "Integer" && k != "Float")
            throw Fail{"bytecode: unknown member: " + m.head};
    }
    if (st.functions != functions) throw Fail{sfmt("bytecode: %zu functions listed but %zu announced", st.functions, functions)};
    return st;
}

std::string gen_program(Case& c, bool runnable = false) {
    lang::Program p;
    lang::Cfg cfg;
    cfg.budget = (int) c.t.pick({30, 80, 200});
    cfg.defer = (int) c.t.below(3);
    cfg.panic = (int) c.t.below(3);
    lang::Gen g(c.t, p, cfg);
    g.program();
    std::string src = lang::Printer().program(p);
    if (runnable) lang::reference(p); // discards programs that run for too long
    return src;
}

void listings(Case& c) {
    std::string src = gen_program(c);
    c.describe(src);
    std::vector<Source> files{{"main", src}};
    Result r;
    run_compiler(files, {1, 2, 3, 4}, r);
    if (!r.ok) c.fail("rejected:" + diags_of(r));
    for (int a = 1; a <= 4; ++a)
        if (!r.has[a]) c.fail(sfmt("attachment %d is missing", a));
    check_cst(files, r);
    check_ast(files, parse_ast(r.ast()));
    auto is = check_ir(r.ir());
    auto bs = check_bytecode(r.bytecode());
    c.count("blocks", (i64) is.blocks);
    c.count("values", (i64) is.values);
    c.count("phis", (i64) is.phis);
    c.count("instructions", (i64) bs.instructions);
    if (is.phis) c.label("phi");
    if (r.bytecode().find("Handlers:") != std::string::npos) c.label("handlers");
    c.nontrivial = is.blocks >= 5 && bs.instructions >= 20;
}

// --------------------------------------------------------------------------------------------- requests
void requests(Case& c) {
    Tape& t = c.t;
    std::vector<Source> files;
    bool valid = t.chance(2, 3);
    if (valid) files.push_back({"main", gen_program(c, true)});
    else {
        std::vector<json> trees;
        std::set<std::string> seen;
        int comments = 0;
        files = gen_files(t, trees, seen, comments, 3, 20);
        for (auto& f : files) {
            if (t.chance(1, 2)) f.text = mutate(t, f.text);
            for (auto& ch : f.text)
                if (!ch) ch = ' ';
        }
    }
    for (auto& f : files) c.add("--- " + f.name + "\n" + f.text + "\n");
    Result all;
    run_compiler(files, {1, 2, 3, 4}, all);
    std::vector<int> req;
    for (int a = 1; a <= 4; ++a)
        for (unsigned k = (unsigned) t.below(3); k > 1; --k) req.push_back(a);
    if (!req.empty() && t.chance(1, 3)) req.push_back(req[0]); // twice
    for (size_t i = req.size(); i > 1; --i) std::swap(req[i - 1], req[t.below(i)]);
    std::string d = "requested:";
    for (int a : req) d += sfmt(" %d", a);
    c.add(d + "\n");
    Result some;
    run_compiler(files, req, some);
    if (all.ok != some.ok || all.code != some.code) c.fail("the attachments decide whether the compilation succeeds");
    if (diags_of(all) != diags_of(some)) c.fail("different diagnostics:" + diags_of(all) + "\nbut with fewer attachments:" + diags_of(some));
    for (int a = 1; a <= 4; ++a) {
        bool asked = std::find(req.begin(), req.end(), a) != req.end();
        bool reached = a <= 2 || all.ok;
        if (all.has[a] != reached) c.fail(sfmt("attachment %d is %s", a, all.has[a] ? "there although its stage was not reached" : "missing"));
        if (some.has[a] != (asked && reached)) c.fail(sfmt("attachment %d is %s", a, some.has[a] ? "there but was not requested" : "missing"));
        if (some.has[a] && some.att[a] != all.att[a]) c.fail(sfmt("attachment %d depends on what else is requested", a));
    }
    if (valid && all.ok) {
        // the modules behave alike: same exported function, same result
        auto result = [&](Result& r) {
            Compiled m;
            std::swap(m.module, r.module);
            Vm vm;
            vm.load_env();
            return lang::observe(vm, m).str();
        };
        std::string a = result(all), b = result(some);
        if (a != b) c.fail("the module compiled with all attachments gives\n" + a + "\nwith fewer\n" + b);
        c.label("run");
    }
    if (!all.ok) c.label("rejected");
    c.nontrivial = true;
}

} // namespace

int main(int argc, char** argv) {
    pbt::Runner r("C23",
        "tree: at least 20 tokens; text: at least 5 tokens and a syntax error; listings: at least 5 blocks and 20 instructions; requests: all",
        {
            Suite{"tree", 2500, 150000, tree},
            Suite{"text", 5000, 300000, text},
            Suite{"listings", 500, 30000, listings},
            Suite{"requests", 500, 30000, requests},
        });
    return r.main(argc, argv);
}
