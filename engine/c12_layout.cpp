// C12: accepted programs load, compilation is repeatable, and rewrites of a program that do not change its meaning
// do not change what it does.
#include "lang_run.hpp"

using namespace lang;
using namespace tu;
using pbt::Case;
using pbt::Suite;

namespace {

struct Run {
    std::vector<std::string> log;
    std::string end;
};

std::string plain(std::string s) {
    for (size_t p; (p = s.find("-nan")) != std::string::npos;) s.erase(p, 1);
    // assertions quote their source text
    size_t p = s.find("assertion `");
    if (p != std::string::npos) s.erase(p);
    // the compiler may order commutative operands: either operand of a wrong type may be named
    for (p = 0; (p = s.find("invalid operand of type ", p)) != std::string::npos; p += 16) {
        size_t e = s.find(' ', p + 24);
        s.erase(p + 15, (e == std::string::npos ? s.size() : e) - p - 15);
    }
    return s;
}

Run execute(const Compiled& m) {
    Run r;
    Vm vm(64u << 20);
    vm.load_env();
    vm.hook = [](Vm& self, tiro_vm_t v, tiro_sync_frame_t f) {
        Err e;
        H x(v), msg(v);
        tiro_sync_frame_arg(f, 0, x, e);
        tiro_exception_message(v, x, msg, e);
        self.log.push_back("caught " + (e.ok() ? self.text(msg) : std::string("something that is not an exception")));
    };
    Err e;
    tiro_vm_load_bytecode(vm, m.module, e);
    if (!e.ok()) {
        r.end = "load: " + e.text();
        return r;
    }
    H fn(vm);
    tiro_vm_get_export(vm, ts("main"), ts("main"), fn, e);
    if (!e.ok()) r.end = sfmt("initialisation failed with %d", (int) e.code());
    else {
        auto x = vm.call(fn);
        if (x.kind == CallResult::success) {
            auto t = vm.call("main", "verif_repr", {x.value});
            r.end = t.ok() ? "value " + vm.text(t.value) : "no text";
        } else
            r.end = x.kind == CallResult::panic ? "panic " + x.message : "error " + x.message;
    }
    r.log = std::move(vm.log);
    for (auto& l : r.log) l = plain(l);
    r.end = plain(r.end);
    return r;
}

std::string difference(const Run& a, const Run& b) {
    for (size_t i = 0; i < std::max(a.log.size(), b.log.size()); ++i) {
        std::string x = i < a.log.size() ? a.log[i] : "<end> " + a.end, y = i < b.log.size() ? b.log[i] : "<end> " + b.end;
        if (x != y) return sfmt("effect %zu: ", i) + x + "\n  the original: " + y;
    }
    if (a.end != b.end) return "outcome: " + a.end + "\n  the original: " + b.end;
    return "";
}

void rewrites(Case& c, Cfg cfg) {
    Program p;
    Gen g(c.t, p, cfg);
    g.program();
    reference(p); // discards programs that run for too long
    std::string src = Printer().program(p);
    c.describe("---- original ----\n" + src);
    Compiled m = compile("main", src, want_bytecode);
    if (!m.ok()) c.fail("a valid program is rejected: " + m.errors());
    {
        Compiled again = compile("main", src, want_bytecode);
        if (!again.ok()) c.fail("the second compilation failed: " + again.errors());
        if (m.bytecode != again.bytecode) c.fail("two compilations of the same source produced different code:\n" + m.bytecode + "\n-- and --\n" + again.bytecode);
    }
    Run base = execute(m);
    if (base.end.rfind("load:", 0) == 0) c.fail("a compiled module is not accepted: " + base.end);

    size_t variants = 2 + c.t.below(3);
    for (size_t v = 0; v < variants; ++v) {
        Style st;
        std::string what;
        if (c.t.chance(2, 3)) st.t = &c.t, what += " layout";
        if (st.t && c.t.chance(1, 2)) st.spell = true, what += " spelling";
        if (st.t && c.t.chance(1, 2)) st.parens = true, what += " parentheses";
        if (c.t.chance(1, 2)) st.rename = 1 + (int) c.t.below(4), what += " renaming";
        std::vector<tu::Source> files;
        size_t nf = p.funcs.size() + 1;
        if (c.t.chance(1, 2)) { // items over several files, functions in any order
            what += " files";
            struct Item { std::string text; };
            std::vector<std::string> vars, fns;
            for (auto* x : p.globals) vars.push_back(Printer(st).item(x));
            for (auto& f : p.funcs) fns.push_back(Printer(st).item(f));
            fns.push_back(Printer(st).item(p.main));
            for (size_t i = fns.size(); i > 1; --i) std::swap(fns[i - 1], fns[c.t.below(i)]);
            // functions may refer to module variables, which must come first
            size_t n1 = 1 + c.t.below(3), n2 = 1 + c.t.below(4);
            std::vector<std::string> text(n1 + n2);
            size_t at = 0;
            for (auto& x : vars) {
                if (at + 1 < n1 && c.t.chance(1, 2)) ++at;
                text[at] += x;
            }
            for (auto& f : fns) text[n1 + c.t.below(n2)] += f;
            // the helper functions can be anywhere
            text[c.t.below(text.size())] += prelude();
            for (size_t i = 0; i < text.size(); ++i) files.push_back({sfmt("file%zu", (i * 7 + 3) % 11), "import std; import env;\n" + text[i]});
        } else {
            std::vector<int> order(nf);
            for (size_t i = 0; i < nf; ++i) order[i] = (int) i;
            if (c.t.chance(1, 2)) {
                what += " order";
                for (size_t i = nf; i > 1; --i) std::swap(order[i - 1], order[c.t.below(i)]);
            }
            st.func_order = order;
            files.push_back({"other name.tiro", Printer(st).program(p)});
        }
        if (what.empty()) continue;
        std::string text;
        for (auto& f : files) text += "---- rewritten (" + what + "), file " + f.name + " ----\n" + f.text;
        Compiled mv = compile("main", files);
        if (!mv.ok()) {
            c.add(text);
            c.fail("the rewritten program is rejected: " + mv.errors());
        }
        Run r = execute(mv);
        std::string d = difference(r, base);
        if (!d.empty()) {
            c.add(text);
            c.fail("the rewritten program behaves differently: " + d);
        }
        for (const char* k : {"layout", "spelling", "parentheses", "renaming", "files", "order"})
            if (what.find(k) != std::string::npos) c.count(std::string("rewrites: ") + k, 1);
    }
    for (auto& [k, v] : p.stats) c.label("programs with " + k, v > 0);
    c.count("observed effects", base.log.size());
    c.nontrivial = base.log.size() >= 4;
}
void s_rewrites(Case& c) {
    Cfg cfg;
    cfg.budget = 200;
    rewrites(c, cfg);
}
void s_loops(Case& c) {
    Cfg cfg;
    cfg.budget = 160;
    cfg.depth = 3;
    cfg.loops = 10;
    cfg.closures = 6;
    cfg.early_exit = 5;
    cfg.defer = 4;
    cfg.panic = 2;
    rewrites(c, cfg);
}

// ------------------------------------------------------------------------------------------------ mutated programs
struct Tok {
    std::string s;
    bool word;
};
std::vector<Tok> tokens(const std::string& s) {
    std::vector<Tok> r;
    for (size_t i = 0; i < s.size();) {
        size_t k = i;
        unsigned char ch = s[i];
        if (isspace(ch)) while (k < s.size() && isspace((unsigned char) s[k])) ++k;
        else if (isalnum(ch) || ch == '_' || ch == '#') while (k < s.size() && (isalnum((unsigned char) s[k]) || s[k] == '_' || s[k] == '#')) ++k;
        else if (ch == '"') { // whole literal, interpolation included
            ++k;
            int depth = 0;
            while (k < s.size()) {
                if (s[k] == '\\') ++k;
                else if (s[k] == '$' && k + 1 < s.size() && s[k + 1] == '{') ++depth, ++k;
                else if (s[k] == '}' && depth) --depth;
                else if (s[k] == '"' && !depth) break;
                ++k;
            }
            ++k;
        } else
            ++k;
        r.push_back({s.substr(i, k - i), isalnum(ch) || ch == '_'});
        i = k;
    }
    return r;
}

void mutated(Case& c) {
    Program p;
    Cfg cfg;
    cfg.budget = 120;
    cfg.early_exit = 4;
    cfg.bad_type = 20;
    Gen g(c.t, p, cfg);
    g.program();
    std::string full = Printer().program(p);
    size_t cut = full.find("return d;\n}\n") + 12;
    std::string head = full.substr(0, cut);
    auto toks = tokens(full.substr(cut));
    std::vector<size_t> words;
    for (size_t i = 0; i < toks.size(); ++i)
        if (toks[i].word) words.push_back(i);
    size_t n = 1 + c.t.below(3), accepted = 0;
    std::string src;
    Compiled m;
    for (size_t attempt = 0; attempt < 6 && !accepted; ++attempt) {
        auto t2 = toks;
        for (size_t k = 0; k < n; ++k) {
            size_t i = c.t.below(t2.size());
            switch (c.t.below(7)) {
            case 0: // another name
            case 1:
                if (words.size() < 2) break;
                t2[words[c.t.below(words.size())]].s = toks[words[c.t.below(words.size())]].s;
                break;
            case 2: { // remove a statement-like piece
                size_t e = i;
                while (e < t2.size() && t2[e].s != ";") ++e;
                size_t b = i;
                while (b > 0 && t2[b - 1].s != ";" && t2[b - 1].s != "{" && t2[b - 1].s != "}") --b;
                for (size_t x = b; x <= e && x < t2.size(); ++x) t2[x].s = " ";
                break;
            }
            case 3: { // insert something
                static const char* const ins[] = {" return; ", " break; ", " continue; ", "if (true) { return 1; };", "{ };", "defer { };", " null; ", "while false { };",
                    " var q = 0; ", "assert(true);", "if (false) { break; };", "while true { break; };", "for var zz = 0; zz < 2; zz += 1 { continue; };"};
                size_t b = i;
                while (b < t2.size() && t2[b].s != ";" && t2[b].s != "{") ++b;
                if (b < t2.size()) t2[b].s += ins[c.t.below(sizeof ins / sizeof *ins)];
                break;
            }
            case 4: { // duplicate a piece
                size_t e = i, b = i;
                while (e < t2.size() && t2[e].s != ";") ++e;
                while (b > 0 && t2[b - 1].s != ";" && t2[b - 1].s != "{" && t2[b - 1].s != "}") --b;
                std::string s;
                for (size_t x = b; x <= e && x < t2.size(); ++x) s += t2[x].s;
                if (e < t2.size()) t2[e].s += "\n" + s;
                break;
            }
            case 5: { // operators
                static const char* const ops[] = {"+", "-", "*", "/", "<", ">", "%", "?.", ".", ",", "&&", "||", "??", "==", "=", "!", "**"};
                t2[i].s = ops[c.t.below(sizeof ops / sizeof *ops)];
                break;
            }
            default: // true, false, null, return ... for a word
                if (words.empty()) break;
                static const char* const repl[] = {"true", "false", "null", "0", "1", "return", "break", "continue", "(return)", "std", "env", "main", "x", "({ })", "({ 1; })", "std.panic(\"P:1\")"};
                t2[words[c.t.below(words.size())]].s = repl[c.t.below(sizeof repl / sizeof *repl)];
            }
        }
        src.clear();
        for (auto& t : t2) src += t.s;
        src = head + src;
        m = compile("main", src, want_bytecode);
        if (m.ok()) ++accepted;
    }
    c.describe(src);
    c.label("accepted", accepted);
    c.label("rejected", !accepted);
    if (!accepted) return;
    Compiled again = compile("main", src, want_bytecode);
    if (!again.ok()) c.fail("the second compilation failed: " + again.errors());
    if (m.bytecode != again.bytecode) c.fail("two compilations of the same source produced different code");
    Vm vm(32u << 20);
    vm.load_env();
    Err e;
    tiro_vm_load_bytecode(vm, m.module, e);
    if (!e.ok()) c.fail("a compiled module is not accepted: " + e.text() + "\n" + m.bytecode);
    c.nontrivial = true;
}

// ------------------------------------------------------------------------------------------------ large programs
void large(Case& c) {
    std::string src = "import std;\nimport env;\n", want;
    // sizes around the limits of one and two byte operands
    size_t n = c.t.pick({size_t(1), size_t(100), size_t(254), size_t(255), size_t(256), size_t(257), size_t(300), size_t(1000), size_t(3000)}) + c.t.below(3);
    int kind = (int) c.t.below(10);
    u64 salt = c.t.below(1000);
    static const char* const names[] = {"constants", "strings", "local variables", "parameters", "functions", "array elements", "captured variables", "record fields and symbols", "long jump", "module variables"};
    if (kind == 3) n = std::min<size_t>(n, 1024);
    c.describe(sfmt("%zu %s", n, names[kind]));
    std::string body;
    i64 sum = 0;
    auto val = [&](size_t i) { return i64((i * 2654435761u + salt) % 1000003); };
    switch (kind) {
    case 0:
        body = "var s = 0;\n";
        for (size_t i = 0; i < n; ++i) body += sfmt("s += env.id(%lld);\n", (long long) val(i)), sum += val(i);
        body += "return s;";
        break;
    case 1:
        body = "var s = 0; const b = std.new_string_builder();\n";
        for (size_t i = 0; i < n; ++i) body += sfmt("b.append(env.id(\"k%lld\"));\n", (long long) val(i)), sum += 1 + std::to_string(val(i)).size();
        body += "return b.to_string().size();";
        break;
    case 2:
        for (size_t i = 0; i < n; ++i) body += sfmt("var v%zu = env.id(%lld);\n", i, (long long) val(i)), sum += val(i);
        body += "env.id(0);\nreturn 0";
        for (size_t i = 0; i < n; ++i) body += sfmt(" + v%zu", i);
        body += ";";
        break;
    case 3: {
        src += "func many(";
        std::string add = "0", args;
        for (size_t i = 0; i < n; ++i) {
            src += sfmt("p%zu, ", i);
            add += sfmt(" + p%zu", i);
            args += sfmt("%lld, ", (long long) val(i));
            sum += val(i);
        }
        src += ") = " + add + ";\n";
        body = "return many(" + args.substr(0, args.size() - 2) + ");";
        break;
    }
    case 4:
        for (size_t i = 0; i < n; ++i) src += sfmt("func g%zu(x) = x + %lld;\n", i, (long long) val(i));
        body = "var s = 0;\n";
        for (size_t i = 0; i < n; ++i) body += sfmt("s = g%zu(s);\n", i), sum += val(i);
        body += "return s;";
        break;
    case 5:
        body = "const a = [";
        for (size_t i = 0; i < n; ++i) body += sfmt("%lld, ", (long long) val(i)), sum += val(i) * (i64) (i % 7);
        body += "];\nvar s = 0;\nfor var i = 0; i < a.size(); i += 1 { s += a[i] * (i % 7); }\nreturn s;";
        break;
    case 6:
        for (size_t i = 0; i < n; ++i) body += sfmt("var v%zu = env.id(%lld);\n", i, (long long) val(i)), sum += val(i) + 1;
        body += "const f = func() { return 0";
        for (size_t i = 0; i < n; ++i) body += sfmt(" + v%zu", i);
        body += "; };\n";
        for (size_t i = 0; i < n; ++i) body += sfmt("v%zu += 1;\n", i);
        body += "return f();";
        break;
    case 7:
        body = "const r = (";
        for (size_t i = 0; i < n; ++i) body += sfmt("f%zu: %lld, ", i, (long long) val(i)), sum += val(i);
        body += ");\nvar s = 0;\n";
        for (size_t i = 0; i < n; ++i) body += sfmt("s += r.f%zu;\n", i);
        body += "return s;";
        break;
    case 8:
        body = "var s = 0;\nfor var i = 0; i < 3; i += 1 {\n if (i == env.id(1)) { continue; }\n";
        for (size_t i = 0; i < n; ++i) body += sfmt(" s += env.id(%lld);\n", (long long) val(i)), sum += 2 * val(i);
        body += "if (i == env.id(7)) { break; }\n}\nreturn s;";
        break;
    default:
        for (size_t i = 0; i < n; ++i) src += sfmt("%s g%zu = %lld;\n", i % 2 ? "var" : "export const", i, (long long) val(i)), sum += val(i);
        body = "var s = 0;\n";
        for (size_t i = 0; i < n; ++i) body += sfmt("s += g%zu;\n", i);
        body += "return s;";
    }
    src += "export func main() {\n" + body + "\n}\n";
    Compiled m = compile("main", src, want_bytecode);
    if (!m.ok()) c.fail("a large program is rejected: " + m.errors().substr(0, 2000));
    Vm vm(256u << 20);
    H id = vm.sync_function("id", [](tiro_vm_t v, tiro_sync_frame_t f) {
        H x(v);
        MUST(tiro_sync_frame_arg(f, 0, x, must));
        MUST(tiro_sync_frame_return_value(f, x, must));
    }, 1);
    std::vector<std::pair<std::string, H>> mem;
    mem.emplace_back("id", std::move(id));
    vm.load_env_with(mem);
    mem.clear();
    Err e;
    tiro_vm_load_bytecode(vm, m.module, e);
    if (!e.ok()) c.fail("a compiled module is not accepted: " + e.text());
    auto r = vm.call("main", "main");
    if (!r.ok()) c.fail("the program failed: " + r.message);
    std::string got = vm.show(r.value);
    if (got != sfmt("%lld", (long long) sum)) c.fail("the program returned " + got + sfmt(", expected %lld", (long long) sum));
    c.label(names[kind]);
    c.nontrivial = n > 200;
}

} // namespace

// Known limits of the loader that the compiler does not know. True if the defect is still there.
bool rejected_by_loader(const std::string& src, const char* why) {
    Compiled m = compile("main", src);
    if (!m.ok()) return false;
    Vm vm(256u << 20);
    Err e;
    tiro_vm_load_bytecode(vm, m.module, e);
    return !e.ok() && e.text().find(why) != std::string::npos;
}
bool many_elements() {
    std::string s = "export func f(x) { return [x";
    for (int i = 0; i < 65536; ++i) s += ",x";
    return rejected_by_loader(s + "]; }", "Too many arguments");
}
bool many_locals() {
    std::string s = "func g() = 1;\nexport func f() {\n", use;
    for (int i = 0; i < 16400; ++i) s += sfmt("const v%d = g();\n", i), use += sfmt("%sv%d", i ? "," : "", i);
    return rejected_by_loader(s + "return [" + use + "]; }", "too many locals");
}

int main(int argc, char** argv) {
    pbt::Runner r("C12", "rewrites: at least four observed effects; mutated: the program was accepted; large: more than 200 items", {
        Suite{"rewrites", 3000, 150000, s_rewrites},
        Suite{"loops", 2000, 100000, s_loops},
        Suite{"mutated", 8000, 400000, mutated},
        Suite{"large", 300, 6000, large},
    }, {pbt::Known{"many-elements", "an array, tuple, set or map literal with more than 65536 elements compiles but is rejected by the loader", many_elements},
        pbt::Known{"many-locals", "a function that needs more than 16384 registers compiles but is rejected by the loader", many_locals}});
    return r.main(argc, argv);
}
