// C11: arbitrary, mutated and syntactically random sources: the compiler must accept or reject them cleanly.
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>

#include "lang_gen.hpp"
#include "tiro_util.hpp"

using namespace tu;
using pbt::Case;
using pbt::Suite;
using pbt::Tape;
using pbt::u32;

namespace {

struct Outcome {
    tiro_errc_t code = TIRO_OK;
    std::string details, bytecode, cst, ast, ir;
    std::vector<Diag> diags;
    bool has_module = false;
};

Outcome compile_all(const std::vector<Source>& files, int attach) {
    Outcome o;
    Err err;
    tiro_compiler_t comp = tiro_compiler_new(ts("main"), err);
    struct Guard {
        tiro_compiler_t c;
        ~Guard() { tiro_compiler_free(c); }
    } g{comp};
    tiro_compiler_set_message_callback(
        comp,
        [](const tiro_compiler_message_t* m, void* u) {
            ((Outcome*) u)->diags.push_back({(int) m->severity, str(m->file), m->line, m->column, str(m->text)});
            return true;
        },
        &o, err);
    for (int a = 0; a < 4; ++a)
        if (attach & (1 << a)) tiro_compiler_request_attachment(comp, (tiro_attachment_t) (TIRO_ATTACHMENT_CST + a), err);
    for (auto& f : files) tiro_compiler_add_file(comp, ts(f.name), ts(f.text), err);
    if (!err.ok()) throw Fail{"setup of the compiler failed: " + err.text()};
    tiro_compiler_run(comp, err);
    o.code = err.code();
    o.details = err.ok() ? "" : err.text();
    o.has_module = tiro_compiler_has_module(comp);
    auto get = [&](int flag, tiro_attachment_t a, std::string& out) {
        char* s = nullptr;
        Err e;
        tiro_compiler_get_attachment(comp, a, &s, e);
        if (e.ok() && s) out = s;
        free(s);
        if (!(attach & flag) && e.ok()) throw Fail{"an attachment that was not requested is available"};
        if ((attach & flag) && !e.ok() && o.code == TIRO_OK) throw Fail{"a requested attachment is missing: " + e.text()};
    };
    get(1, TIRO_ATTACHMENT_CST, o.cst);
    get(2, TIRO_ATTACHMENT_AST, o.ast);
    get(4, TIRO_ATTACHMENT_IR, o.ir);
    get(8, TIRO_ATTACHMENT_BYTECODE, o.bytecode);
    if (o.has_module) {
        tiro_module_t m = nullptr;
        Err e;
        tiro_compiler_take_module(comp, &m, e);
        if (!e.ok() || !m) throw Fail{"cannot take the module: " + e.text()};
        tiro_module_free(m);
    }
    return o;
}

std::string diag_text(const Outcome& o) {
    std::string r = o.details;
    for (auto& d : o.diags) r += sfmt("\n%d %s:%u:%u: %s", d.severity, d.file.c_str(), d.line, d.column, d.text.c_str());
    return r;
}

bool valid_utf8(const std::string& s) {
    for (size_t i = 0; i < s.size();) {
        unsigned char b = s[i];
        int n = b < 0x80 ? 0 : (b >> 5) == 6 ? 1 : (b >> 4) == 14 ? 2 : (b >> 3) == 30 ? 3 : -1;
        if (n < 0 || i + n >= s.size() + (n == 0)) return n == 0;
        for (int k = 1; k <= n; ++k)
            if (i + k >= s.size() || ((unsigned char) s[i + k] >> 6) != 2) return false;
        i += n + 1;
    }
    return true;
}

void check_sources(Case& c, const std::vector<Source>& files, bool must_succeed = false) {
    std::string d;
    for (auto& f : files) {
        if (files.size() > 1) d += "==== " + f.name + "\n";
        d += f.text + "\n";
    }
    c.describe(d);
    int attach = c.t.chance(1, 3) ? (int) c.t.below(16) : 0;
    Outcome o = compile_all(files, attach);
    if (o.code != TIRO_OK && o.code != TIRO_ERROR_BAD_SOURCE) c.fail("unexpected error: " + diag_text(o));
    bool ok = o.code == TIRO_OK;
    if (ok != o.has_module) c.fail(ok ? "success but no module" : "failure but a module");
    size_t errors = 0;
    for (auto& m : o.diags) {
        errors += m.severity == TIRO_SEVERITY_ERROR;
        if (m.text.empty()) c.fail("a message without text");
        const Source* f = nullptr;
        for (auto& s : files)
            if (s.name == m.file) f = &s;
        if (m.file.empty() && m.line == 0 && m.column == 0) continue;
        if (!f) c.fail("a message for an unknown file: " + m.file);
        // the position must be inside of the text
        std::vector<std::string> lines{""};
        for (char ch : f->text)
            if (ch == '\n') lines.emplace_back();
            else lines.back() += ch;
        if (m.line < 1 || m.line > lines.size() || m.column < 1 || m.column > lines[m.line - 1].size() + 1)
            c.fail(sfmt("position %u:%u of a message is outside of the text: ", m.line, m.column) + m.text);
    }
    if (ok && errors) c.fail("success with error messages: " + diag_text(o));
    if (!ok && !errors) c.fail("failure without an error message: " + diag_text(o));
    if (must_succeed && !ok) c.fail("a valid program is rejected: " + diag_text(o));
    for (auto& f : files)
        if (ok && !valid_utf8(f.text)) c.fail("a source that is not valid utf-8 is accepted");
    if (c.t.chance(1, 4)) {
        Outcome p = compile_all(files, attach);
        if (p.code != o.code || diag_text(p) != diag_text(o)) c.fail("a second compilation gives different messages: " + diag_text(o) + "\n-- second --\n" + diag_text(p));
        if (p.bytecode != o.bytecode || p.ir != o.ir || p.ast != o.ast || p.cst != o.cst) c.fail("a second compilation gives different output");
        c.label("compiled twice");
    }
    c.label("accepted", ok);
    c.label("rejected by the parser or later", !ok);
    c.label("with attachments", attach != 0);
    c.count("diagnostics", o.diags.size());
    for (auto& m : o.diags) c.label("message: " + m.text.substr(0, m.text.find_first_of("'\"0123456789")));
    size_t n = 0;
    for (auto& f : files) n += f.text.size();
    c.nontrivial = n >= 10;
}

// ------------------------------------------------------------------------------------ token soup
const std::vector<std::string> tokens = {"assert", "break", "const", "continue", "defer", "else", "export", "false", "for", "func",
    "if", "import", "in", "null", "return", "true", "var", "while", "map", "set", "as", "catch", "class", "is", "switch", "yield", "(", ")",
    "[", "]", "{", "}", ".", ",", ":", ";", "?", "?.", "?(", "?[", "??", "+", "-", "*", "**", "/", "%", "+=", "-=", "*=", "**=", "/=", "%=",
    "++", "--", "~", "|", "^", "&", "<<", ">>", "!", "||", "&&", "=", "==", "!=", "<", ">", "<=", ">=", "map{", "set{", "a", "b", "c",
    "f", "std", "0", "1", "2.5", "0x1F", "0b2", "1_0", "9223372036854775808", "#sym", "#", "'", "\"", "\"s\"", "\"a${\"", "}\"", "\"$a\"", "\"$", "'\\", "\\x4",
    "\\u{", "\\u{110000}", "// c\n", "/* c */", "/*", "*/", "\n", "@", "\xc3\xa9", "\xff", "a.0", "a.1.2", ".5", "x => y", "func f(", "func(a) {", "func(a) = a",
    "export func main() {", "import a.b as c;", "(a: 1)", "(:)", "(a,)", "()", "for var i = 0; i < 3; i += 1 {", "for x in a {", "while a {", "if a {", "} else {",
    "defer a;", "return a;", "const x = 1;", "var (a, b) = c;", "(a, b) = (b, a);", "a[0] = 1;", "\"${a + \"${b}\"}\""};

std::string soup(Tape& t) {
    std::string s;
    size_t n = 1 + t.size(60);
    bool spaces = t.chance(3, 4);
    if (t.chance(1, 3)) s = "func f(a, b) {\n";
    for (size_t i = 0; i < n; ++i) {
        s += t.pick(tokens);
        if (spaces || t.chance(1, 2)) s += " ";
    }
    return s;
}
std::string bytes(Tape& t) {
    std::string s;
    size_t n = t.size(80);
    bool ascii = t.chance(3, 4);
    for (size_t i = 0; i < n; ++i) {
        if (ascii && t.chance(1, 2)) s += "(){}[]\"'$\\/*.:;,=-+!?#_ \n09afxbuo"[t.below(33)];
        else s += (char) t.below(ascii ? 128 : 256);
    }
    return s;
}

// ------------------------------------------------------------------------------------ grammar
// Syntactically (mostly) valid text without regard for names, types or context.
struct Grammar {
    Tape& t;
    int budget;
    std::string out;
    int broken; // 1 in `broken` productions is damaged; 0: never

    std::string name() {
        static const std::vector<std::string> n = {"a", "b", "c", "d", "x", "y", "f", "g", "std", "main", "long_name", "_", "_1"};
        return t.pick(n);
    }
    void sep(const char* s) {
        if (broken && t.below(broken) == broken - 1u) {
            switch (t.below(3)) {
            case 0: return;
            case 1: out += s; out += s; return;
            default: out += t.pick(tokens); return;
            }
        }
        out += s;
    }
    template<typename F>
    void list(size_t max, F f, bool trailing = true) {
        size_t n = t.below(max + 1);
        for (size_t i = 0; i < n; ++i) {
            if (i) sep(", ");
            f();
        }
        if (trailing && n && t.chance(1, 6)) out += ",";
    }
    void file() {
        size_t n = 1 + t.below(5);
        for (size_t i = 0; i < n; ++i) item();
    }
    void item() {
        if (t.chance(1, 4)) out += "export ";
        switch (t.weighted({6, 3, 2, 1, 1})) {
        case 0: function(true); out += t.chance(1, 4) ? ";\n" : "\n"; return;
        case 1: var_decl(); sep(";"); out += "\n"; return;
        case 2:
            out += "import ";
            out += t.chance(2, 3) ? "std" : name();
            while (t.chance(1, 5)) { sep("."); out += name(); }
            if (t.chance(1, 3)) { out += " as "; out += name(); }
            sep(";");
            out += "\n";
            return;
        case 3: out += ";\n"; return;
        default: stmt(3); return;
        }
    }
    void function(bool named) {
        sep("func ");
        if (named || t.chance(1, 5)) out += name();
        sep("(");
        list(3, [&] { out += name(); });
        sep(")");
        if (t.chance(1, 3)) {
            sep(" = ");
            expr(4);
            if (named) sep(";");
        } else {
            out += " ";
            block(4);
        }
    }
    void block(int d) {
        sep("{\n");
        if (d > 0 && budget > 0) {
            size_t n = t.below(5);
            for (size_t i = 0; i < n; ++i) stmt(d - 1);
        }
        sep("}");
    }
    void pattern() {
        if (t.chance(1, 4)) {
            sep("(");
            list(3, [&] { out += name(); });
            sep(")");
        } else out += name();
    }
    void var_decl() {
        sep(t.chance(1, 3) ? "const " : "var ");
        list_nonempty([&] {
            pattern();
            if (t.chance(5, 6)) { sep(" = "); expr(3); }
        });
    }
    template<typename F>
    void list_nonempty(F f) {
        f();
        while (t.chance(1, 5)) { sep(", "); f(); }
    }
    void cond(int d) {
        if (t.chance(1, 4)) { out += "("; expr(d); out += ")"; }
        else expr(d);
        out += " ";
    }
    void stmt(int d) {
        budget -= 2;
        switch (t.weighted({8, 4, 3, 3, 3, 2, 2, 1, 2, 1})) {
        case 0: expr(d); sep(";"); break;
        case 1: var_decl(); sep(";"); break;
        case 2: out += "while "; cond(2); block(d); break;
        case 3:
            out += "for ";
            if (t.chance(2, 3)) { if (t.chance(3, 4)) var_decl(); else expr(2); }
            sep("; ");
            if (t.chance(2, 3)) expr(2);
            sep("; ");
            if (t.chance(2, 3)) expr(2);
            out += " ";
            block(d);
            break;
        case 4: out += "for "; pattern(); sep(" in "); cond(2); block(d); break;
        case 5: out += "defer "; expr(d); sep(";"); break;
        case 6: out += "assert("; list(3, [&] { expr(2); }); sep(")"); sep(";"); break;
        case 7: out += ";"; break;
        case 8: out += "if "; cond(2); block(d); if (t.chance(1, 2)) { out += " else "; block(d); } break;
        default: item(); break;
        }
        out += "\n";
    }
    void str_content(char q, int d) {
        size_t n = t.below(5);
        for (size_t i = 0; i < n; ++i) {
            switch (t.weighted({4, 2, 2, 2})) {
            case 0: out += t.pick<const char*>({"a", "b c", "\xc3\xa9", "{", "}", "1", "\n"}); break;
            case 1: out += t.pick<const char*>({"\\n", "\\t", "\\\\", "\\\"", "\\'", "\\$", "\\x41", "\\u{1F600}", "\\u{}", "\\q", "\\x4", "\\u{D800}"}); break;
            case 2: out += "$" + name(); break;
            default: sep("${"); expr(d > 0 ? d - 1 : 0); sep("}"); break;
            }
        }
        (void) q;
    }
    void expr(int d) {
        --budget;
        if (d <= 0 || budget <= 0) return leaf();
        switch (t.weighted({6, 8, 3, 5, 2, 2, 2, 3, 3, 2, 2, 2, 2, 2, 2, 2})) {
        case 0: return leaf();
        case 1: {
            expr(d - 1);
            sep(t.pick<const char*>({" + ", " - ", " * ", " / ", " % ", " ** ", " && ", " || ", " ?? ", " == ", " != ", " < ", " <= ", " > ", " >= ", " & ", " | ", " ^ ", " << ", " >> "}));
            expr(d - 1);
            return;
        }
        case 2: sep(t.pick<const char*>({"-", "!", "~", "+"})); expr(d - 1); return;
        case 3: // postfix
            expr(d - 1);
            switch (t.below(6)) {
            case 0: sep("("); list(3, [&] { expr(d - 1); }); sep(")"); return;
            case 1: sep("["); expr(d - 1); sep("]"); return;
            case 2: sep("."); out += name(); return;
            case 3: sep("."); out += sfmt("%d", (int) t.below(4)); return;
            case 4: sep("?."); out += name(); if (t.chance(1, 2)) { sep("("); list(2, [&] { expr(d - 1); }); sep(")"); } return;
            default: sep(t.chance(1, 2) ? "?(" : "?["); expr(d - 1); out += out.rfind("?[") > out.rfind("?(") && out.rfind("?[") != std::string::npos ? "]" : ")"; return;
            }
        case 4: sep("("); expr(d - 1); sep(")"); return;
        case 5: { // assignment
            if (t.chance(1, 4)) { sep("("); list(3, [&] { expr(d - 2); }); sep(")"); }
            else if (t.chance(1, 2)) out += name();
            else { expr(1); if (t.chance(1, 2)) { out += "."; out += name(); } else { out += "["; expr(1); out += "]"; } }
            sep(t.pick<const char*>({" = ", " = ", " += ", " -= ", " *= ", " **= ", " /= ", " %= "}));
            expr(d - 1);
            return;
        }
        case 6: out += "if "; cond(d - 1); block(d - 1); if (t.chance(2, 3)) { out += " else "; if (t.chance(1, 4)) { out += "if "; cond(d - 1); } block(d - 1); } return;
        case 7: block(d - 1); return;
        case 8: function(false); return;
        case 9: sep("["); list(4, [&] { expr(d - 1); }); sep("]"); return;
        case 10: sep("("); expr(d - 1); sep(", "); list(3, [&] { expr(d - 1); }); sep(")"); return;
        case 11:
            sep("(");
            if (t.chance(1, 8)) out += ":";
            else list(3, [&] { out += name(); sep(": "); expr(d - 1); });
            sep(")");
            return;
        case 12: sep("map{"); list(3, [&] { expr(d - 1); sep(": "); expr(d - 1); }); sep("}"); return;
        case 13: sep("set{"); list(3, [&] { expr(d - 1); }); sep("}"); return;
        case 14: {
            char q = t.chance(1, 2) ? '"' : '\'';
            out += q;
            str_content(q, d);
            sep(q == '"' ? "\"" : "'");
            if (t.chance(1, 6)) { out += " \"tail\""; }
            return;
        }
        default:
            switch (t.below(4)) {
            case 0: out += "return"; if (t.chance(2, 3)) { out += " "; expr(d - 1); } return;
            case 1: out += "break"; return;
            case 2: out += "continue"; return;
            default: out += "return "; expr(d - 1); return;
            }
        }
    }
    void leaf() {
        switch (t.weighted({6, 4, 1, 1, 1, 1, 1})) {
        case 0: out += name(); return;
        case 1: out += t.pick<const char*>({"0", "1", "2", "9223372036854775807", "0x7f", "0b11", "0o17", "1_000"}); return;
        case 2: out += t.pick<const char*>({"0.5", "1.25", "1_0.0_1"}); return;
        case 3: out += t.pick<const char*>({"true", "false", "null"}); return;
        case 4: out += t.pick<const char*>({"#a", "#sym"}); return;
        case 5: out += t.pick<const char*>({"\"\"", "'x'", "\"a\" \"b\""}); return;
        default: out += t.pick<const char*>({"()", "[]", "(:)", "map{}", "set{}"}); return;
        }
    }
};

std::string grammar_text(Tape& t, int broken, int budget) {
    Grammar g{t, budget, "", broken};
    g.file();
    return g.out;
}
std::string valid_text(Tape& t, int budget) {
    lang::Program p;
    lang::Cfg cfg;
    cfg.budget = budget;
    cfg.panic = 1;
    cfg.defer = 4;
    cfg.early_exit = 4;
    lang::Gen g(t, p, cfg);
    g.program();
    return lang::Printer().program(p);
}


// ------------------------------------------------------------------------------------ odd programs
// Programs that obey all static rules but put every kind of expression (blocks, closures, return, break, continue,
// optional chains, assignments) into every position. They must be accepted.
struct Odd {
    Tape& t;
    int budget;
    std::string out;
    struct V { std::string name; bool assignable; bool callable; };
    std::vector<std::vector<V>> scopes;
    std::vector<std::string> funcs;
    int next = 0;
    struct Ctx { bool fn = false, loop = false; } cx;
    u32 diverge = 2;
    bool no_opt = false; // optional access is not allowed in assignment targets
    bool loose = false;  // variables may be left uninitialized

    std::string fresh() { return sfmt("v%d", next++); }
    void declare(const std::string& n, bool a) { scopes.back().push_back({n, a, false}); }
    const V* pick(bool assignable) {
        std::vector<const V*> c;
        for (auto& s : scopes)
            for (auto& v : s)
                if (!assignable || v.assignable) c.push_back(&v);
        return c.empty() ? nullptr : c[t.below(c.size())];
    }
    void program() {
        out = t.chance(1, 2) ? "import std;\n" : "";
        bool std_ = !out.empty();
        scopes.emplace_back();
        if (std_) declare("std", false);
        size_t nf = 1 + t.below(2);
        for (size_t i = 0; i < nf; ++i) scopes.back().push_back({sfmt("f%zu", i), false, true});
        size_t ng = t.below(3);
        size_t fi = 0;
        while (fi < nf || ng > 0) {
            if (ng > 0 && (fi == nf || t.chance(1, 2))) {
                --ng;
                bool ex = t.chance(1, 4);
                out += ex ? "export " : "";
                binding(3, ex);
                out += ";\n";
            } else {
                if (t.chance(1, 3)) out += "export ";
                out += sfmt("func f%zu", fi++);
                func_rest(true);
                out += "\n";
            }
        }
    }
    void func_rest(bool named) {
        Ctx save = cx;
        cx = {true, false};
        out += "(";
        scopes.emplace_back();
        size_t n = t.below(3);
        for (size_t i = 0; i < n; ++i) {
            std::string v = fresh();
            out += (i ? ", " : "") + v;
            declare(v, true);
        }
        out += ")";
        if (t.chance(1, 3)) {
            out += " = ";
            value(3);
            if (named) out += ";";
        } else {
            out += " ";
            block(5, false);
        }
        scopes.pop_back();
        cx = save;
    }
    // block with a value, if needed
    void block(int d, bool need) {
        scopes.emplace_back();
        out += "{\n";
        size_t n = budget > 0 && d > 0 ? t.below(5) : 0;
        for (size_t i = 0; i < n; ++i) stmt(d - 1);
        if (need || t.chance(1, 3)) { value(d - 1); out += ";\n"; }
        out += "}";
        scopes.pop_back();
    }
    void binding(int d, bool constant) {
        bool c = constant || t.chance(1, 3);
        out += c ? "const " : "var ";
        size_t n = t.chance(1, 6) ? 2 : 1;
        for (size_t i = 0; i < n; ++i) {
            if (i) out += ", ";
            std::vector<std::string> names;
            if (t.chance(1, 5)) {
                size_t k = 1 + t.below(3);
                out += "(";
                for (size_t j = 0; j < k; ++j) { names.push_back(fresh()); out += (j ? ", " : "") + names.back(); }
                if (k == 1) out += ",";
                out += ")";
            } else {
                names.push_back(fresh());
                out += names.back();
            }
            if (c || !loose || t.chance(4, 5)) { out += " = "; value(d); }
            for (auto& x : names) declare(x, !c);
        }
    }
    void paren(int d) { out += "("; value(d); out += ")"; }
    void stmt(int d) {
        budget -= 2;
        switch (t.weighted({8, 5, 3, 3, 3, 4, 2, 4, 2})) {
        case 0: anyexpr(d); out += ";"; break;
        case 1: binding(d, false); out += ";"; break;
        case 2: {
            out += "while ";
            cond(d);
            loop_body(d);
            break;
        }
        case 3: {
            out += "for ";
            scopes.emplace_back();
            if (t.chance(2, 3)) binding(d - 1, false);
            out += "; ";
            if (t.chance(2, 3)) cond(d - 1);
            out += "; ";
            if (t.chance(2, 3)) paren(d - 1);
            out += " ";
            loop_body(d);
            scopes.pop_back();
            break;
        }
        case 4: {
            out += "for ";
            std::string v = fresh();
            bool tup = t.chance(1, 4);
            out += tup ? "(" + v + ",)" : v;
            out += " in ";
            cond(d);
            scopes.emplace_back();
            declare(v, false);
            loop_body(d);
            scopes.pop_back();
            break;
        }
        case 5: {
            Ctx save = cx;
            cx = {false, false};
            out += "defer ";
            anyexpr(d);
            out += ";";
            cx = save;
            break;
        }
        case 6: out += "assert("; value(d); if (t.chance(1, 2)) { out += ", "; value(d); } out += ");"; break;
        case 7: out += "if "; cond(d); block(d, false); if (t.chance(1, 2)) { out += " else "; block(d, false); } out += ";"; break;
        default: block(d, false); out += ";"; break;
        }
        out += "\n";
    }
    void loop_body(int d) {
        Ctx save = cx;
        cx.loop = true;
        block(d, false);
        cx = save;
    }
    void cond(int d) { paren(d); out += " "; }
    // an expression statement
    void anyexpr(int d) { value(d); }
    bool divergent(int d) {
        switch (t.below(3)) {
        case 0:
            if (!cx.fn) return false;
            out += "(return";
            if (t.chance(1, 2)) { out += " "; value(d - 1); }
            out += ")";
            return true;
        case 1: if (!cx.loop) return false; out += "(break)"; return true;
        default: if (!cx.loop) return false; out += "(continue)"; return true;
        }
    }
    void args(int d, size_t max) {
        size_t n = t.below(max + 1);
        for (size_t i = 0; i < n; ++i) {
            if (i) out += ", ";
            value(d);
        }
    }
    void value(int d) {
        --budget;
        if (d <= 0 || budget <= 0) return leaf();
        switch (t.weighted({5, 7, 2, 6, 3, 3, 3, 3, 2, 2, 2, 2, 2, 2, 2, diverge * 2, 3})) {
        case 0: return leaf();
        case 1: {
            out += "(";
            value(d - 1);
            out += t.pick<const char*>({" + ", " - ", " * ", " / ", " % ", " ** ", " && ", " || ", " ?? ", " && ", " || ", " ?? ", " == ", " != ", " < ", " <= ", " > ", " >= "});
            value(d - 1);
            out += ")";
            return;
        }
        case 2: out += t.pick<const char*>({"-", "!", "+"}); paren(d - 1); return;
        case 3: { // access path
            paren(d - 1);
            size_t n = 1 + t.below(3);
            for (size_t i = 0; i < n; ++i) {
                bool opt = !no_opt && t.chance(1, 3);
                switch (t.below(5)) {
                case 0: out += opt ? "?(" : "("; args(d - 1, 2); out += ")"; break;
                case 1: out += opt ? "?[" : "["; value(d - 1); out += "]"; break;
                case 2: out += opt ? "?.m" : ".m"; break;
                case 3: out += opt ? "?.m" : ".m"; out += !no_opt && t.chance(1, 4) ? "?(" : "("; args(d - 1, 2); out += ")"; break;
                default: out += opt ? "?." : "."; out += sfmt("%d", (int) t.below(3)); break;
                }
            }
            return;
        }
        case 4: { // assignment
            out += "(";
            target(d);
            out += t.pick<const char*>({" = ", " = ", " = ", " += ", " -= ", " *= ", " **= ", " /= ", " %= "});
            value(d - 1);
            out += ")";
            return;
        }
        case 5: { // tuple assignment
            size_t n = 1 + t.below(3);
            out += "((";
            for (size_t i = 0; i < n; ++i) { if (i) out += ", "; target(d); }
            if (n == 1) out += ",";
            out += ") = ";
            value(d - 1);
            out += ")";
            return;
        }
        case 6: out += "(if "; cond(d - 1); block(d - 1, true); out += " else "; block(d - 1, true); out += ")"; return;
        case 7: out += "("; block(d - 1, true); out += ")"; return;
        case 8: out += "(func"; func_rest(false); out += ")"; return;
        case 9: out += "["; args(d - 1, 3); out += "]"; return;
        case 10: out += "("; value(d - 1); out += ", "; args(d - 1, 2); out += ")"; return;
        case 11: out += "(a: "; value(d - 1); if (t.chance(1, 2)) { out += ", b: "; value(d - 1); } out += ")"; return;
        case 12: {
            out += "(map{";
            size_t n = t.below(3);
            for (size_t i = 0; i < n; ++i) { if (i) out += ", "; value(d - 1); out += ": "; value(d - 1); }
            out += "})";
            return;
        }
        case 13: out += "(set{"; args(d - 1, 2); out += "})"; return;
        case 14: out += "\"a${"; value(d - 1); out += "}b"; if (t.chance(1, 2)) { out += "${"; value(d - 1); out += "}"; } out += "\""; return;
        case 15: if (!divergent(d)) leaf(); return;
        default: {
            const V* v = pick(false);
            out += v ? v->name : "null";
            return;
        }
        }
    }
    void target(int d) {
        const V* v = pick(true);
        struct Reset { bool& b; bool v; ~Reset() { b = v; } } reset{no_opt, no_opt};
        no_opt = true;
        switch (v ? t.below(4) : 1 + t.below(3)) {
        case 0: out += v->name; return;
        case 1: paren(d - 1); out += ".m"; return;
        case 2: paren(d - 1); out += sfmt(".%d", (int) t.below(3)); return;
        default: paren(d - 1); out += "["; value(d - 1); out += "]"; return;
        }
    }
    void leaf() {
        switch (t.weighted({6, 4, 1, 1, 1, 1, 1})) {
        case 0: {
            const V* v = pick(false);
            out += v ? v->name : "1";
            return;
        }
        case 1: out += t.pick<const char*>({"0", "1", "2", "9223372036854775807"}); return;
        case 2: out += t.pick<const char*>({"0.5", "1.25"}); return;
        case 3: out += t.pick<const char*>({"true", "false", "null"}); return;
        case 4: out += "#a"; return;
        case 5: out += t.pick<const char*>({"\"\"", "'x'"}); return;
        default: out += t.pick<const char*>({"()", "[]", "(:)"}); return;
        }
    }
};
std::string odd_text(Tape& t, int budget, bool loose) {
    Odd o{t, budget};
    o.loose = loose;
    o.diverge = (u32) t.below(4);
    o.program();
    return o.out;
}

// splits into rough tokens (words, spaces, single characters)
std::vector<std::string> split(const std::string& s) {
    std::vector<std::string> r;
    for (size_t i = 0; i < s.size();) {
        size_t j = i + 1;
        auto word = [](char c) { return isalnum((unsigned char) c) || c == '_'; };
        if (word(s[i]))
            while (j < s.size() && word(s[j])) ++j;
        else if (isspace((unsigned char) s[i]))
            while (j < s.size() && isspace((unsigned char) s[j])) ++j;
        r.push_back(s.substr(i, j - i));
        i = j;
    }
    return r;
}
std::string mutate(Tape& t, const std::string& a, const std::string& b) {
    auto x = split(a), y = split(b);
    size_t n = 1 + t.below(4);
    for (size_t k = 0; k < n && !x.empty(); ++k) {
        size_t i = t.below(x.size());
        switch (t.below(10)) {
        case 0: x.erase(x.begin() + i); break;
        case 1: x.insert(x.begin() + i, x[i]); break;
        case 2: x[i] = t.pick(tokens); break;
        case 3: x.insert(x.begin() + i, t.pick(tokens)); break;
        case 4: std::swap(x[i], x[t.below(x.size())]); break;
        case 5: x.resize(i); break;
        case 6: { // remove a range
            size_t e = std::min(x.size(), i + 1 + t.below(12));
            x.erase(x.begin() + i, x.begin() + e);
            break;
        }
        case 7: { // move or copy a range
            size_t e = std::min(x.size(), i + 1 + t.below(20));
            std::vector<std::string> r(x.begin() + i, x.begin() + e);
            if (t.chance(1, 2)) x.erase(x.begin() + i, x.begin() + e);
            x.insert(x.begin() + t.below(x.size() + 1), r.begin(), r.end());
            break;
        }
        case 8: // splice with the other program
            if (!y.empty()) {
                size_t f = t.below(y.size()), e = std::min(y.size(), f + 1 + t.below(30));
                x.insert(x.begin() + i, y.begin() + f, y.begin() + e);
            }
            break;
        default: // damage a byte
            if (!x[i].empty()) x[i][t.below(x[i].size())] = (char) t.below(256);
            break;
        }
    }
    std::string r;
    for (auto& w : x) r += w;
    return r;
}

void s_bytes(Case& c) {
    std::string s = c.t.chance(1, 2) ? bytes(c.t) : soup(c.t);
    check_sources(c, {{"main", s}});
}
void s_grammar(Case& c) {
    std::string s = grammar_text(c.t, c.t.chance(1, 3) ? 30 : 0, 20 + (int) c.t.size(120));
    check_sources(c, {{"main", s}});
}
void s_files(Case& c) {
    std::vector<Source> f;
    size_t n = 1 + c.t.below(3);
    for (size_t i = 0; i < n; ++i) {
        std::string s;
        switch (c.t.below(4)) {
        case 0: s = ""; break;
        case 1: s = soup(c.t); break;
        default: s = grammar_text(c.t, c.t.chance(1, 4) ? 20 : 0, 30);
        }
        f.push_back({sfmt("file%zu", i), s});
    }
    check_sources(c, f);
}
void s_mutate(Case& c) {
    std::string a = c.t.chance(2, 3) ? valid_text(c.t, 60) : grammar_text(c.t, 0, 60);
    std::string b = c.t.chance(1, 2) ? a : grammar_text(c.t, 0, 40);
    check_sources(c, {{"main", mutate(c.t, a, b)}});
}
void s_valid(Case& c) {
    std::string a = valid_text(c.t, 60 + (int) c.t.size(200));
    check_sources(c, {{"main", a}}, true);
}
void s_odd(Case& c) {
    bool loose = c.t.chance(1, 6);
    std::string a = odd_text(c.t, 10 + (int) c.t.size(100), loose);
    check_sources(c, {{"main", a}}, !loose);
}

// Deeply nested constructs: accepted as long as the nesting stays below the (recorded) limit of the native stack.
void s_deep(Case& c) {
    static const std::vector<std::pair<const char*, const char*>> wrap = {
        {"(", ")"}, {"[", "]"}, {"- ", ""}, {"1 + ", ""}, {"", " + 1"}, {"func() = ", ""}, {"func() { return ", "; }"},
        {"\"${", "}\""}, {"{ ", "; }"}, {"x[", "]"}, {"x(", ")"}, {"(a: ", ")"}, {"(1, ", ")"}, {"set{", "}"},
        {"if (x) { ", "; } else { 2; }"}, {"x ?? ", ""}, {"map{1: ", "}"}, {"{ while (false) { x; } ", "; }"},
        {"{ defer x; ", "; }"}, {"{ const y = 1; ", "; }"}, {"not_x && ", ""}};
    // sanitizer builds need about ten times the stack of normal builds
    static const bool stack_ok = [] {
        struct rlimit l;
        getrlimit(RLIMIT_STACK, &l);
        l.rlim_cur = 96u << 20;
        return setrlimit(RLIMIT_STACK, &l) == 0;
    }();
    size_t kinds = 1 + c.t.below(3), n = 20 + c.t.size(stack_ok ? 380 : 60);
    std::vector<size_t> ks;
    for (size_t i = 0; i < kinds; ++i) ks.push_back(c.t.below(wrap.size()));
    std::string a, b;
    size_t heavy = 0;
    for (size_t i = 0; i < n; ++i) {
        size_t k = ks[i % ks.size()];
        if (k >= 14 && ++heavy > 60) k = 0; // these copy code or create blocks: cost grows with the square of the depth
        a += wrap[k].first;
        b = wrap[k].second + b;
        // low precedence or statement-like operands stay in parentheses
        a += "(";
        b = ")" + b;
    }
    c.label("deep");
    check_sources(c, {{"main", "export func f(x, not_x) = " + a + "x" + b + ";\n"}}, true);
}

// True while nesting overflows the native stack.
bool deep_overflows() {
    std::string s = "export func f(x) = ";
    for (int i = 0; i < 60000; ++i) s += "(";
    s += "x";
    for (int i = 0; i < 60000; ++i) s += ")";
    s += ";\n";
    pid_t p = fork();
    if (p == 0) {
        int null = open("/dev/null", O_WRONLY);
        dup2(null, 1);
        dup2(null, 2);
        struct rlimit l = {8u << 20, 8u << 20};
        setrlimit(RLIMIT_STACK, &l);
        signal(SIGSEGV, SIG_DFL);
        signal(SIGBUS, SIG_DFL);
        try {
            compile("main", s);
        } catch (...) {
        }
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    return WIFSIGNALED(st) || WEXITSTATUS(st) != 0;
}

} // namespace

int main(int argc, char** argv) {
    pbt::Runner r("C11", "the sources have at least ten bytes", {
        Suite{"bytes", 60000, 6000000, s_bytes},
        Suite{"grammar", 30000, 4000000, s_grammar},
        Suite{"files", 15000, 1500000, s_files},
        Suite{"mutate", 15000, 2000000, s_mutate},
        Suite{"odd", 16000, 1500000, s_odd},
        Suite{"valid", 3000, 300000, s_valid},
        Suite{"deep", 1500, 100000, s_deep},
    }, {pbt::Known{"deep-nesting", "source nested (or chained) more than about 6000 levels deep overflows the native stack of the compiler", deep_overflows}});
    return r.main(argc, argv);
}
