// C24: the command line runner reports what the library does.
//
//  programs  generated programs and broken texts in one or several files, all kinds of options, compared with the library
//  inputs    files of all sizes and contents, files that cannot be read, wrong options
#include "lang_run.hpp"
#include "tiro_util.hpp"
#include <fcntl.h>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

int tiro_run_main(int argc, char** argv); // c24_main.cpp

using pbt::Case;
using pbt::Suite;
using pbt::Tape;
using tu::sfmt;
using u64 = uint64_t;

namespace {

struct Ran {
    int code = -1;
    std::string out, err;
};

// Captures a standard stream in memory
struct Capture {
    FILE* f;
    int fd, old, file;
    Capture(FILE* f_, int fd_)
        : f(f_)
        , fd(fd_) {
        fflush(f);
        old = dup(fd), file = memfd_create("out", 0);
        dup2(file, fd);
    }
    std::string finish() {
        fflush(f);
        dup2(old, fd), close(old);
        std::string r;
        char buf[65536];
        lseek(file, 0, SEEK_SET);
        for (ssize_t n; (n = read(file, buf, sizeof buf)) > 0;) r.append(buf, (size_t) n);
        close(file);
        return r;
    }
};

Ran run(const std::vector<std::string>& args) {
    std::vector<std::string> all{"tiro_run"};
    all.insert(all.end(), args.begin(), args.end());
    std::vector<char*> argv;
    for (auto& a : all) argv.push_back(a.data());
    argv.push_back(nullptr);
    Ran r;
    Capture out(stdout, 1);
    Capture err(stderr, 2);
    r.code = tiro_run_main((int) all.size(), argv.data());
    r.err = err.finish();
    r.out = out.finish();
    return r;
}

// A directory of this process
const std::string& scratch() {
    static std::string dir;
    static pid_t owner = 0;
    if (owner != getpid()) {
        owner = getpid();
        const char* base = getenv("TMPDIR");
        dir = std::string(base ? base : "/tmp") + "/cli.XXXXXX";
        if (!mkdtemp(dir.data())) throw pbt::Fail{"no scratch directory"};
    }
    return dir;
}

struct Files {
    std::vector<std::string> paths;
    ~Files() {
        for (auto& p : paths) unlink(p.c_str());
    }
    void write(const std::string& path, const std::string& text) {
        FILE* f = fopen(path.c_str(), "wb");
        if (!f || fwrite(text.data(), 1, text.size(), f) != text.size()) throw pbt::Fail{"cannot write " + path};
        fclose(f);
        paths.push_back(path);
    }
};

struct Expected {
    int code = 0;
    std::string out;
    bool err = false;                 // something is written to stderr
    std::vector<std::string> mention; // what it must contain
    std::string kind;
};

struct Requests {
    unsigned want = 0;
    std::optional<std::string> call;
};

// What the library does with these files
Expected expected(Case& c, const std::vector<tu::Source>& src, const Requests& q) {
    Expected e;
    auto compiled = tu::compile("main", src, q.want);
    for (auto& m : compiled.diags)
        e.out += sfmt("%s ", tiro_severity_str((tiro_severity) m.severity)) + (m.file.empty() ? "<UNAVAILABLE>" : m.file) + sfmt(":%u:%u: ", m.line, m.column) + m.text + "\n";
    const std::string* parts[] = {&compiled.cst, &compiled.ast, &compiled.ir, &compiled.bytecode};
    const unsigned bits[] = {tu::want_cst, tu::want_ast, tu::want_ir, tu::want_bytecode};
    for (int i = 0; i < 4; ++i)
        if ((q.want & bits[i]) && !parts[i]->empty()) e.out += std::string(parts[i]->c_str()) + "\n\n";
    if (!compiled.ok()) {
        e.code = 1, e.err = true, e.kind = "the compilation fails";
        if (compiled.code != TIRO_OK) e.mention.push_back(tiro_errc_message(compiled.code));
        return e;
    }
    e.kind = "nothing is called";
    if (!q.call) return e;
    tu::Vm vm(0, 0);
    vm.load(compiled);
    {
        tu::H f = vm.h();
        tu::H name = vm.h();
        tu::Err err;
        tiro_vm_get_export(vm, tu::ts("main"), tu::ts(*q.call), f, err);
        if (!err.ok()) {
            e.out += vm.out;
            e.code = 1, e.err = true, e.kind = "the function is not found", e.mention = {*q.call, tiro_error_message(err.e)};
            return e;
        }
        if (tiro_value_kind(vm, f) != TIRO_KIND_FUNCTION) {
            e.out += vm.out;
            e.code = 1, e.err = true, e.kind = "not a function";
            return e;
        }
        struct Done {
            bool called = false, success = false;
            std::string text;
        } done;
        tu::H co = vm.h();
        tiro_make_coroutine(vm, f, nullptr, co, err);
        if (!err.ok()) throw pbt::Fail{"make_coroutine"};
        tiro_coroutine_set_callback(
            vm, co,
            [](tiro_vm_t m, tiro_handle_t h, void* u) {
                auto& d = *(Done*) u;
                d.called = true;
                tu::H r(m), v(m), s(m);
                tu::Err e2;
                tiro_coroutine_result(m, h, r, e2);
                d.success = tiro_result_is_success(m, r);
                if (d.success) tiro_result_value(m, r, v, e2);
                else tiro_result_error(m, r, v, e2);
                tiro_value_to_string(m, v, s, e2);
                tiro_string_t str{};
                tiro_string_value(m, s, &str, e2);
                d.text = tu::str(str);
                if (!e2.ok()) d.text = "?";
            },
            nullptr, &done, err);
        if (!err.ok()) throw pbt::Fail{"set_callback"};
        tiro_coroutine_start(vm, co, err);
        while (err.ok() && tiro_vm_has_ready(vm)) tiro_vm_run_ready(vm, err);
        e.out += vm.out;
        if (done.called) {
            // what is printed after the function has returned follows
            e.code = done.success ? 0 : 1;
            e.kind = done.success ? "the function returns" : "the function panics";
        }
        if (!err.ok()) c.discard();
        if (!done.called) {
            e.code = 1, e.err = true, e.kind = "the function does not complete";
            return e;
        }
        e.out += (done.success ? "Function returned " : "Function panicked: ") + done.text + "\n";
    }
    return e;
}

std::string shorten(const std::string& s) { return s.size() > 1500 ? s.substr(0, 1500) + sfmt(" … (%zu bytes)", s.size()) : s; }

// addresses of objects are not specified
std::string no_addresses(std::string s) {
    for (size_t i = 0; (i = s.find("@0x", i)) != std::string::npos;) {
        i += 3;
        size_t e = i;
        while (e < s.size() && isxdigit((unsigned char) s[e])) ++e;
        s.erase(i, e - i);
    }
    return s;
}

void compare(Case& c, Ran got, Expected want) {
    got.out = no_addresses(got.out), want.out = no_addresses(want.out);
    if (got.out != want.out) {
        size_t i = 0;
        while (i < got.out.size() && i < want.out.size() && got.out[i] == want.out[i]) ++i;
        size_t from = i > 60 ? i - 60 : 0;
        c.fail(sfmt("the output differs at byte %zu (%s): ", i, want.kind.c_str()) + shorten(got.out.substr(std::min(from, got.out.size()))) + "\n  expected: " + shorten(want.out.substr(std::min(from, want.out.size()))) + "\n  stderr: " + got.err);
    }
    if (got.code != want.code) c.fail(sfmt("exit code %d, expected %d (%s)", got.code, want.code, want.kind.c_str()) + "\n  stderr: " + got.err);
    if (want.err != !got.err.empty()) c.fail(want.err ? "nothing on stderr (" + want.kind + ")" : "on stderr: " + got.err);
    for (auto& m : want.mention)
        if (got.err.find(m) == std::string::npos) c.fail("stderr does not mention " + m + " (" + want.kind + "): " + got.err);
}

// The arguments in one of the ways in which they can be written
std::vector<std::string> arguments(Tape& t, const std::vector<std::string>& paths, Requests& q) {
    static const std::pair<const char*, unsigned> dumps[] = {{"--dump-cst", tu::want_cst}, {"--dump-ast", tu::want_ast}, {"--dump-ir", tu::want_ir}, {"--dump-bytecode", tu::want_bytecode}, {"--dump", tu::want_cst | tu::want_ast | tu::want_ir | tu::want_bytecode}};
    std::vector<std::vector<std::string>> groups;
    if (t.chance(1, 2)) {
        std::set<u64> used;
        u64 n = 1 + t.below(3);
        for (u64 i = 0; i < n; ++i) {
            u64 k = t.below(5);
            if (!used.insert(k).second) continue; // repeated options are not defined
            u64 form = t.below(6);
            std::string a = dumps[k].first;
            if (form == 0) a += "=true";
            if (form == 1) a += "=false";
            else q.want |= dumps[k].second;
            groups.push_back({a});
        }
    }
    if (q.call) {
        if (t.chance(1, 2) && !q.call->empty()) groups.push_back({"--call=" + *q.call});
        else groups.push_back({"--call", *q.call});
    }
    // files keep their order; options are anywhere
    std::vector<std::string> args;
    bool dashes = t.chance(1, 5);
    if (dashes) {
        while (!groups.empty()) {
            size_t i = t.below(groups.size());
            args.insert(args.end(), groups[i].begin(), groups[i].end());
            groups.erase(groups.begin() + (long) i);
        }
        args.push_back("--");
        args.insert(args.end(), paths.begin(), paths.end());
        return args;
    }
    size_t next = 0;
    while (next < paths.size() || !groups.empty()) {
        if (groups.empty() || (next < paths.size() && t.below(2))) args.push_back(paths[next++]);
        else {
            size_t i = t.below(groups.size());
            args.insert(args.end(), groups[i].begin(), groups[i].end());
            groups.erase(groups.begin() + (long) i);
        }
    }
    return args;
}

std::string file_name(Tape& t, size_t i) {
    static const char* names[] = {"main.tiro", "a b.tiro", "x", "ünïcode.tiro", "a,b,c.tiro", "{}{0}.tiro", "%s%n", "quote\"'.tiro", ".hidden", "--call", "=", "back\\slash", "[x]*?"};
    return scratch() + "/" + names[t.below(std::size(names))] + sfmt("%zu", i);
}

std::string join(const std::vector<std::string>& a) {
    std::string s;
    for (auto& x : a) s += std::string(" '") + x + "'";
    return s;
}

// Small programs for what generated programs do not do
std::string special(Tape& t, std::string& call) {
    struct S {
        const char *call, *text;
    };
    static const S list[] = {
        {"main", "import std; export func main() { std.print(\"x\", 1); std.print(); return #sym; }"},
        {"main", "import std; export func main() { std.print(\"before\"); return std.panic(\"no { } %s\"); }"},
        {"main", "import std; export func main() { std.yield_coroutine(); return 1; }"},
        {"main", "import std; export func main() { std.launch(func() { std.print(\"later\"); }); std.dispatch(); std.print(\"now\"); return 3; }"},
        {"main", "import std; export func main() { std.launch(func() { std.panic(\"unseen\"); }); std.dispatch(); return (a: 1, b: [2, \"x\"]); }"},
        {"main", "export func main(a) { return a; }"},
        {"main", "export const main = 4;"},
        {"main", "func main() { return 1; }"},
        {"", "export func main() { return 1; }"},
        {"mai", "export func main() { return 1; }"},
        {"main ", "export func main() { return 1; }"},
        {"other,main", "export func main() { return 1; } export func other() { return 2; }"},
        {"other", "export func main() { return 1; } export func other() { return 2; }"},
        {"std", "import std; export func main() { return 1; }"},
        {"main", "import std; const x = std.panic(\"in the initializer\"); export func main() { return x; }"},
        {"main", "import std; const x = std.print(\"in the initializer\"); export func main() { return x; }"},
        {"main", "import missing; export func main() { return 1; }"},
        {"main", "export func main() { return \"{} %d \\n \\u{1F600}\"; }"},
        {"main", "export func main() { return null; }"},
        {"main", "export func main() { return \"\"; }"},
        {"main", "export func main() { return main; }"},
        {"main", "export func main() { assert(1 > 2, \"assertion\"); }"},
        {"main", "export func main() { return 1 / (1 - 1); }"},
        {"main", "import std; export func main() { for var i = 0; i < 300; i += 1 { std.print(i, \"some text that fills the buffers of the standard output\"); } return \"end\"; }"},
        {"ünï", "export func main() { return 1; }"},
        {"main", "import std; export const main = std.print;"},
        {"main", "import std; func f() { return 7; } export const main = f;"},
    };
    auto& s = list[t.below(std::size(list))];
    call = s.call;
    return s.text;
}

void programs(Case& c) {
    Tape& t = c.t;
    Requests q;
    std::vector<tu::Source> src;
    Files files;
    std::string call = "main";
    auto without_env = [](std::string s) { // the runner has no such module
        for (auto [from, to] : {std::pair<std::string, std::string>{"import env;\n", ""}, {"env.emit(", "std.print("}, {"env.hook(", "std.print("}})
            for (size_t i; (i = s.find(from)) != std::string::npos;) s.replace(i, from.size(), to);
        return s;
    };
    u64 kind = t.below(4);
    if (kind <= 1) {
        lang::Program p;
        lang::Cfg cfg;
        lang::Gen g(t, p, cfg);
        g.program();
        std::string text = without_env(lang::Printer().program(p));
        lang::reference(p); // discards programs that run long
        if (kind == 1) { // broken somewhere
            u64 edits = 1 + t.below(3);
            for (u64 i = 0; i < edits; ++i) {
                size_t at = t.below(text.size() + 1);
                if (t.below(2)) text.erase(at, 1 + t.below(6));
                else text.insert(at, t.pick({"x", "}", "(", "\"", "\n", " 1 ", ";", "ü", "\xff", "/*", "var "}));
            }
            lang::Program none;
        }
        src.push_back({file_name(t, 0), text});
        if (kind == 1) call.clear(); // it might run forever
    } else
        src.push_back({file_name(t, 0), special(t, call)});
    if (t.chance(1, 3)) {
        u64 n = 1 + t.below(3);
        for (u64 i = 0; i < n; ++i)
            src.push_back({file_name(t, i + 1), t.pick({"", "export func extra1() { return 1; }", "const one = 1;", "// nothing", "func broken(", "func a1() { return main(); }", "import std as std2;", "export func extra2() { return undefined_name; }"})});
        if (t.below(2)) std::rotate(src.begin(), src.begin() + 1, src.end());
    }
    if (kind != 1 && !t.chance(1, 8)) q.call = call;
    for (auto& s : src) files.write(s.name, s.text);
    std::vector<std::string> paths;
    for (auto& s : src) paths.push_back(s.name);
    auto args = arguments(t, paths, q);
    std::string d = "tiro_run" + join(args) + "\n";
    for (auto& s : src) d += "---- " + s.name + "\n" + s.text + "\n";
    c.describe(d);
    auto want = expected(c, src, q);
    auto got = run(args);
    compare(c, got, want);
    c.label(want.kind, true);
    c.label("several files", src.size() > 1);
    c.label("reports requested", q.want != 0);
    c.nontrivial = q.call || q.want || want.code;
}

void inputs(Case& c) {
    Tape& t = c.t;
    Files files;
    std::vector<tu::Source> src;
    Requests q;
    std::string d;
    u64 kind = t.below(6);
    Expected want;
    std::vector<std::string> args;
    if (kind <= 2) { // sizes around the size of the buffer, bytes of all kinds
        u64 n = 1 + t.below(2);
        for (u64 i = 0; i < n; ++i) {
            std::string text = i ? sfmt("export func other%llu() { return 1; }", (unsigned long long) i) : "import std; export func main() { return \"the end\".size(); }";
            if (!i && t.chance(1, 2)) { // every byte of a literal can be seen in the result
                static const std::vector<std::string> pieces{"\r\n", "\r", "\n", "\n\n", "\t", " ", "   ", "\xef\xbb\xbf", "\xe2\x80\xa8", "\x0b\x0c", "\x01", "\x7f",
                    "x", "//", "/* */", "#!", "\x1a", "\xc2\x85", "?" "?/", "\\n", "\xf0\x9f\x98\x80"};
                std::string literal;
                for (u64 k = 1 + t.below(12); k; --k) literal += t.pick(pieces);
                text = "export func main() { return '" + literal + "'; }";
                d += "literal of " + std::to_string(literal.size()) + " bytes\n";
            }
            size_t size = (size_t) t.pick({0, 1, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 40000, 100000});
            if (t.chance(1, 40)) size = (size_t) t.pick({1 << 17, 1 << 18, 1 << 20, 3 << 19});
            size = (size_t) std::max<long>(0, (long) size + t.range(-2, 2));
            std::string fill;
            u64 filler = t.below(7);
            while (text.size() + fill.size() < size) {
                switch (filler) {
                case 0: fill += ' '; break;
                case 1: fill += '\n'; break;
                case 2: fill += "// comment\r\n"; break;
                case 3: fill += "// ü€😀\n"; break;
                case 4: fill += sfmt("const c%llu_%zu = %zu;\n", (unsigned long long) i, fill.size(), fill.size()); break;
                case 5: fill += "/* */"; break;
                default: fill += std::string("// nul \0 here\n", 14);
                }
                if (fill.size() > (filler == 4 ? 9000 : size)) break;
                if (fill.size() >= 100000) { // comments only
                    fill.insert(0, "/*" + std::string(size - std::min(size, text.size() + fill.size()), '.') + "*/");
                    break;
                }
            }
            if (t.below(2)) text = fill + text;
            else text += fill;
            if (t.chance(1, 4)) text.insert(t.below(text.size() + 1), std::string(1, (char) t.below(256)));
            if (t.chance(1, 8)) text.resize(t.below(text.size() + 1));
            src.push_back({file_name(t, i), text});
            d += sfmt("file of %zu bytes, filler %llu\n", text.size(), (unsigned long long) filler);
        }
        q.call = "main";
        std::vector<std::string> paths;
        std::vector<std::pair<std::string, std::string>> pipes;
        for (auto& s : src) files.write(s.name, s.text), paths.push_back(s.name);
        int fds[2] = {-1, -1};
        if (src[0].text.size() < 60000 && t.chance(1, 4)) { // through a pipe, which has no size
            if (pipe(fds)) c.discard();
            if (write(fds[1], src[0].text.data(), src[0].text.size()) != (ssize_t) src[0].text.size()) throw pbt::Fail{"pipe"};
            close(fds[1]);
            src[0].name = paths[0] = sfmt("/dev/fd/%d", fds[0]);
            d += "the first file is a pipe\n";
        }
        args = arguments(t, paths, q);
        c.describe("tiro_run" + join(args) + "\n" + d);
        want = expected(c, src, q);
        auto got = run(args);
        if (fds[0] >= 0) close(fds[0]);
        compare(c, got, want);
        c.label("files read through a pipe", fds[0] >= 0);
    } else if (kind == 3) { // something that cannot be read
        u64 n = 1 + t.below(4), bad = t.below(n);
        std::vector<std::string> paths;
        std::string name;
        for (u64 i = 0; i < n; ++i) {
            std::string path = file_name(t, i);
            if (i == bad) {
                switch (t.below(5)) {
                case 0: path += ".missing"; break;
                case 1: path = scratch(); break; // a directory
                case 2: path = scratch() + "/no/such/dir"; break;
                case 3: files.write(path, "x"), path += "/below a file"; break;
                default: path = scratch() + "/" + std::string(300, 'n'); break;
                }
                name = path;
            } else
                files.write(path, t.chance(1, 3) ? "func broken(" : sfmt("export func f%llu() { return 1; }", (unsigned long long) i));
            paths.push_back(path);
        }
        q.call = "f0";
        args = arguments(t, paths, q);
        c.describe("tiro_run" + join(args));
        want.code = 1, want.err = true, want.mention = {name}, want.kind = "a file that cannot be read";
        compare(c, run(args), want);
    } else if (kind == 4) { // options
        std::string path = file_name(t, 0);
        files.write(path, "import std; export func main() { std.print(\"running\"); return 1; }");
        args = {path, "--call", "main"};
        want.code = 1, want.err = true, want.kind = "wrong options";
        switch (t.below(5)) {
        case 0: args.insert(args.begin() + (long) t.below(args.size() - 1), t.pick({"--unknown", "-x", "--dump-everything", "--callx=main", "--dum"})); break;
        case 1: args = {path, "--call"}; break;
        case 2: args = {}; break;
        case 3: args = {"--call", "main"}; break;
        default: args = {"--dump"}; break;
        }
        c.describe("tiro_run" + join(args));
        compare(c, run(args), want);
    } else if (t.below(2)) { // the same file twice
        std::string path = file_name(t, 0);
        files.write(path, "export func main() { return 1; }");
        args = {path, path};
        if (t.below(2)) args.insert(args.begin(), {"--call", "main"});
        c.describe("tiro_run" + join(args));
        want = expected(c, {{path, "export func main() { return 1; }"}, {path, "export func main() { return 1; }"}}, q);
        if (want.code != 1) c.fail("the library accepts a file twice");
        compare(c, run(args), want);
    } else { // help
        std::string path = file_name(t, 0);
        files.write(path, "import std; export func main() { std.print(\"running\"); return 1; }");
        std::string help = t.pick({"--help", "-h"});
        args = {path, "--call=main", "--dump"};
        if (t.below(2)) args = {};
        args.insert(args.begin() + (long) t.below(args.size() + 1), help);
        c.describe("tiro_run" + join(args));
        auto got = run(args);
        if (got.code != 0 || !got.err.empty()) c.fail(sfmt("help: exit code %d, stderr: ", got.code) + got.err);
        for (auto o : {"--call", "--dump-cst", "--dump-ast", "--dump-ir", "--dump-bytecode", "--dump", "--help", "-h"})
            if (got.out.find(o) == std::string::npos) c.fail(std::string("help does not mention ") + o);
        if (got.out.find("running") != std::string::npos) c.fail("help runs the program");
        want.kind = "help";
    }
    c.label(want.kind, true);
    c.nontrivial = true;
}

} // namespace

int main(int argc, char** argv) {
    std::vector<Suite> suites{
        {"programs", 2000, 100000, programs},
        {"inputs", 1000, 60000, inputs},
    };
    return pbt::Runner("C24", "programs: a function is called, a report is requested or the compilation fails; inputs: all", suites).main(argc, argv);
}
