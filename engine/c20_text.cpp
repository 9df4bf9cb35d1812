// C20: converting values to text terminates, shows exactly the value, and can be read back.
#include "tiro_util.hpp"

#include <sys/resource.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>

#include <cmath>
#include <cstring>
#include <map>
#include <set>

using namespace tu;
using pbt::Case;
using pbt::Fail;
using pbt::Suite;
using pbt::Tape;

namespace {

std::string utf8_of(unsigned cp) {
    std::string s;
    if (cp < 0x80) s += (char) cp;
    else if (cp < 0x800) s += (char) (0xc0 | cp >> 6), s += (char) (0x80 | (cp & 63));
    else if (cp < 0x10000) s += (char) (0xe0 | cp >> 12), s += (char) (0x80 | (cp >> 6 & 63)), s += (char) (0x80 | (cp & 63));
    else s += (char) (0xf0 | cp >> 18), s += (char) (0x80 | (cp >> 12 & 63)), s += (char) (0x80 | (cp >> 6 & 63)), s += (char) (0x80 | (cp & 63));
    return s;
}

// Decodes one code point of valid utf8 (no surrogates, no overlong forms); returns its length or 0.
size_t decode(const std::string& s, size_t i, unsigned& cp) {
    unsigned char b = (unsigned char) s[i];
    size_t n = b < 0x80 ? 1 : b >= 0xc2 && b < 0xe0 ? 2 : b >= 0xe0 && b < 0xf0 ? 3 : b >= 0xf0 && b < 0xf5 ? 4 : 0;
    if (!n || i + n > s.size()) return 0;
    cp = n == 1 ? b : b & (0x7f >> n);
    for (size_t k = 1; k < n; ++k) {
        unsigned char x = (unsigned char) s[i + k];
        if ((x & 0xc0) != 0x80) return 0;
        cp = cp << 6 | (x & 63);
    }
    if ((n == 3 && cp < 0x800) || (n == 4 && cp < 0x10000) || cp > 0x10ffff || (cp >= 0xd800 && cp < 0xe000)) return 0;
    return n;
}
bool valid_utf8(const std::string& s) {
    unsigned cp;
    for (size_t i = 0; i < s.size();) {
        size_t n = decode(s, i, cp);
        if (!n) return false;
        i += n;
    }
    return true;
}

std::string quote_text(const std::string& s) {
    std::string r = "\"";
    for (size_t i = 0; i < s.size();) {
        unsigned cp = 0;
        size_t n = decode(s, i, cp);
        if (!n) {
            r += sfmt("\\x%02X", (unsigned char) s[i++]);
            continue;
        }
        i += n;
        switch (cp) {
        case '\n': r += "\\n"; break;
        case '\r': r += "\\r"; break;
        case '\t': r += "\\t"; break;
        case '$':
        case '\'':
        case '"':
        case '\\': r += '\\', r += (char) cp; break;
        default:
            if (cp >= 0x20 && cp <= 0x7e) r += (char) cp;
            else if (cp <= 0xff) r += sfmt("\\x%02X", cp);
            else r += sfmt("\\u{%X}", cp);
        }
    }
    return r + "\"";
}

std::string any_string(Tape& t, bool ascii_only = false) {
    std::string s;
    for (size_t n = t.below(t.chance(1, 8) ? 60 : 8); n-- > 0;) {
        switch (ascii_only ? t.below(3) : t.below(8)) {
        case 0: s += (char) ('a' + t.below(26)); break;
        case 1: s += t.pick({'\n', '\r', '\t', '$', '\'', '"', '\\', ' ', '\0', '\x7f', '\x1b', '{', '}', ','}); break;
        case 2: s += (char) t.below(128); break;
        case 3: s += utf8_of(0x80 + (unsigned) t.below(0x80)); break;
        case 4: s += utf8_of(0x100 + (unsigned) t.below(0xd700)); break;
        case 5: s += utf8_of(t.pick({0x7ffu, 0x800u, 0xffffu, 0x10000u, 0x10ffffu, 0xe000u, 0xd7ffu, 0x2028u, 0xfeffu})); break;
        case 6: s += t.pick({std::string("\\n"), std::string("${x}"), std::string("\\u{41}"), std::string("\\x41"), std::string("{...}")}); break;
        default: s += (char) (0x80 + t.below(128)); // usually not valid
        }
    }
    return s;
}

// ------------------------------------------------------------------------------------------------ numbers
struct World {
    Vm vm{64u << 20};
    Compiled m;
    World()
        : m(compile("main", R"(
import std;
export func text(x) = "${x}";
export func within(x) = "<${x}|${x}>";
export func built(x) { const b = std.new_string_builder(); b.append(x); return b.to_string(); }
export func repr(x) = std.debug_repr(x);
export func pretty(x) = std.debug_repr(x, true);
export func slice(s, n, k) = s.slice(n, k);
)")) {
        vm.load(m);
    }
    std::string call(Case& c, const char* f, const std::vector<tiro_handle_t>& args) {
        auto r = vm.call("main", f, args);
        if (!r.ok()) c.fail(std::string(f) + ": " + r.message);
        return vm.text(r.value);
    }
};
World& world() {
    static World* w = nullptr;
    static int uses = 0;
    if (!w || ++uses % 3000 == 0) delete w, w = new World;
    return *w;
}

void all_texts(Case& c, World& w, tiro_handle_t v, const std::string& want) {
    auto expect = [&](const char* what, const std::string& got, const std::string& exp) {
        if (got != exp) c.fail(std::string(what) + " is `" + got + "`, expected `" + exp + "`");
    };
    expect("the interpolated text", w.call(c, "text", {v}), want);
    expect("the text between others", w.call(c, "within", {v}), "<" + want + "|" + want + ">");
    expect("tiro_value_to_string", w.vm.to_text(v), want);
}

void numbers(Case& c) {
    Tape& t = c.t;
    World& w = world();
    if (t.chance(1, 2)) {
        i64 v = t.chance(1, 4) ? (i64) ((1ull << t.below(64)) - t.below(3)) : t.any_i64();
        if (t.chance(1, 3)) {
            i64 p = 1;
            for (size_t i = t.below(19); i-- > 0;) p *= 10;
            v = p - (i64) t.below(2);
            if (t.chance(1, 2)) v = -v;
        }
        c.describe(sfmt("%lld", (long long) v));
        H h = w.vm.integer(v);
        all_texts(c, w, h, std::to_string((long long) v));
        std::string r = w.call(c, "repr", {h});
        if (r != std::to_string((long long) v)) c.fail("debug_repr is " + r);
        if (w.call(c, "pretty", {h}) != r) c.fail("the pretty form differs");
        if (strtoll(r.c_str(), nullptr, 10) != v) c.fail("the text does not read back");
        c.nontrivial = true;
        return;
    }
    double v = t.any_f64();
    if (t.chance(1, 3)) v = (double) t.any_i64();
    if (t.chance(1, 4)) v = std::ldexp(v, (int) t.range(-80, 80));
    c.describe(sfmt("%a", v));
    H h = w.vm.flt(v);
    std::string s = w.vm.to_text(h);
    all_texts(c, w, h, s);
    std::string r = w.call(c, "repr", {h}), p = w.call(c, "pretty", {h});
    if (r != p) c.fail("the pretty form differs: " + r + " and " + p);
    for (auto& x : {s, r}) {
        char* end;
        double back = strtod(x.c_str(), &end);
        bool same = std::isnan(v) ? std::isnan(back) : std::memcmp(&v, &back, 8) == 0;
        if (*end || !same) c.fail(sfmt("the text of %a is `%s`, which reads as %a", v, x.c_str(), back));
    }
    // a float is recognizable as such
    if (std::isfinite(v) && r.find_first_of(".e") == std::string::npos) c.fail("debug_repr of a float looks like an integer: " + r);
    c.nontrivial = std::isfinite(v) && v != 0;
}

void strings(Case& c) {
    Tape& t = c.t;
    World& w = world();
    std::string s = any_string(t);
    if (t.chance(1, 200)) {
        std::string one = s.empty() ? "x\xc3\xa4" : s;
        while (s.size() < 100000) s += one;
    }
    c.describe(quote_text(s));
    H h = w.vm.string(s);
    all_texts(c, w, h, s);
    if (w.call(c, "built", {h}) != s) c.fail("the string builder has other contents");
    std::string r = w.call(c, "repr", {h}), want = quote_text(s);
    if (r != want) c.fail("debug_repr is " + r + ", expected " + want);
    if (w.call(c, "pretty", {h}) != r) c.fail("the pretty form differs");
    // slices: the same contents in a slice that is not the whole string
    std::string around = "\xc3" + s + "\xa4";
    H a = w.vm.string(around), from = w.vm.integer(1), len = w.vm.integer((i64) s.size());
    auto sl = w.vm.call("main", "slice", {a, from, len});
    if (!sl.ok()) c.fail("slice: " + sl.message);
    all_texts(c, w, sl.value, s);
    std::string sr = w.call(c, "repr", {sl.value});
    if (sr != "StringSlice{value: " + want + "}") c.fail("debug_repr of a slice is " + sr);
    if (valid_utf8(s) && s.size() < 5000) {
        // source text
        Compiled m = compile("m", "export func main() = " + r + ";");
        if (!m.ok()) c.fail("debug_repr cannot be compiled: " + m.errors() + "\n" + r);
        Vm vm(16u << 20, 0, false, false);
        vm.load(m);
        auto x = vm.call("m", "main");
        if (!x.ok() || vm.text(x.value) != s) c.fail("debug_repr " + r + " denotes another string: " + (x.ok() ? quote_text(vm.text(x.value)) : x.message));
        c.label("read back", true);
    }
    c.nontrivial = s.size() >= 2;
}

// ------------------------------------------------------------------------------------------------ structures
struct Node {
    enum Kind { null_, bool_, int_, float_, string_, symbol_, array_, tuple_, map_, set_, record_, slice_, success_, error_, exception_, opaque_ } kind;
    i64 i = 0;
    std::string s;             // strings, symbols; for opaque values the expression
    std::vector<int> kids;     // nodes
    std::vector<int> keys;     // of maps: nodes
    std::vector<std::string> names; // of records
    std::string type;          // name of an opaque type
};

struct Graph {
    std::vector<Node> n;
    bool readable = true; // denotes plain containers
    size_t size = 0;
    const std::string* actual = nullptr; // the order of the keys of a record is not specified: that of the actual text is taken
    std::string render(int v, std::set<int>& path, size_t base = 0) {
        if (++size > 3000) throw pbt::Discard{};
        if (path.count(v)) {
            readable = false;
            return "{...}";
        }
        path.insert(v);
        Node& x = n[v];
        std::string r;
        auto list = [&](const char* open, const char* close) {
            r = open;
            for (size_t i = 0; i < x.kids.size(); ++i) {
                r += i ? ", " : "";
                r += render(x.kids[i], path, base + r.size());
            }
            r += close;
        };
        switch (x.kind) {
        case Node::null_: r = "null"; break;
        case Node::bool_: r = x.i ? "true" : "false"; break;
        case Node::int_:
            r = std::to_string((long long) x.i);
            if (x.i == INT64_MIN) readable = false;
            break;
        case Node::float_: r = sfmt("%lld.%s", (long long) x.i, x.s.c_str()); break;
        case Node::string_:
            r = quote_text(x.s);
            readable &= valid_utf8(x.s);
            break;
        case Node::symbol_: r = "#" + x.s; break;
        case Node::array_: list("[", "]"); break;
        case Node::set_: list("set{", "}"); break;
        case Node::tuple_: list("(", x.kids.size() == 1 ? ",)" : ")"); break;
        case Node::record_:
            r = "(";
            for (size_t i = 0; i < x.kids.size(); ++i) {
                r += i ? ", " : "";
                for (size_t k = i; actual && base + r.size() <= actual->size() && k < x.kids.size(); ++k)
                    if (actual->compare(base + r.size(), x.names[k].size() + 2, x.names[k] + ": ") == 0) {
                        std::swap(x.names[i], x.names[k]);
                        std::swap(x.kids[i], x.kids[k]);
                        break;
                    }
                r += x.names[i] + ": ";
                r += render(x.kids[i], path, base + r.size());
            }
            r += x.kids.empty() ? ":)" : ")";
            break;
        case Node::map_:
            r = "map{";
            for (size_t i = 0; i < x.kids.size(); ++i) {
                r += i ? ", " : "";
                r += render(x.keys[i], path, base + r.size());
                r += ": ";
                r += render(x.kids[i], path, base + r.size());
            }
            r += "}";
            break;
        case Node::slice_:
            r = "StringSlice{value: " + quote_text(x.s) + "}";
            readable = false;
            break;
        case Node::success_:
        case Node::error_: {
            readable = false;
            r = x.kind == Node::success_ ? "Result{type: \"success\", value: " : "Result{type: \"error\", value: null, error: ";
            r += render(x.kids[0], path, base + r.size());
            r += x.kind == Node::success_ ? ", error: null}" : "}";
            break;
        }
        case Node::exception_:
            readable = false;
            r = "Exception{message: " + quote_text(x.s) + ", trace: null}";
            break;
        case Node::opaque_:
            readable = false;
            r = x.type;
        }
        path.erase(v);
        return r;
    }
};

const char* const opaque[][2] = {{"func(a) = a", "Function"}, {"helper", "Function"}, {"std.new_buffer(4)", "Buffer"}, {"std.new_string_builder()", "StringBuilder"}, {"map{1: 2}.keys()", "MapKeyView"}, {"map{1: 2}.values()", "MapValueView"},
    {"std", "Module"}, {"std.coroutine_token()", "CoroutineToken"}, {"\"abc\".contains", "Function"}, {"std.print", "Function"}, {"std.type_of(1)", "Type{name: \"Integer\"}"}, {"std.type_of([])", "Type{name: \"Array\"}"}, {"std.schema_of((abc: 1))", "RecordSchema{abc}"},
    {"std.current_coroutine()", "Coroutine{name: \"Coroutine-1\"}"}};

// without white space outside of string literals
std::string squeezed(const std::string& s) {
    std::string r;
    bool in = false;
    for (size_t i = 0; i < s.size(); ++i) {
        if (in) {
            r += s[i];
            if (s[i] == '\\' && i + 1 < s.size()) r += s[++i];
            else if (s[i] == '"') in = false;
            continue;
        }
        if (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') continue;
        r += s[i];
        in = s[i] == '"';
    }
    return r;
}

void structures(Case& c, bool cycles) {
    Tape& t = c.t;
    Graph g;
    std::vector<std::string> strings;
    std::string src = "import std;\nfunc helper() = 1;\nexport func build(s) {\n";
    size_t count = 1 + t.below(t.chance(1, 4) ? 30 : 9);
    bool has_containers = false;
    auto scalar_key = [&](int v) { return g.n[v].kind <= Node::symbol_ && g.n[v].kind != Node::float_; };
    for (size_t i = 0; i < count; ++i) {
        Node x;
        std::string e;
        auto pick = [&] { return t.chance(1, 3) ? (int) i - 1 : (int) t.below(i); };
        size_t kids = i ? t.weighted({2, 3, 4, 3, 2, 1}) : 0;
        if (kids == 5) kids = 5 + t.below(8);
        static const char* const names[] = {"a", "b", "longer_name", "_x", "c9", "value", "message", "in2", "\xc3\xa4"};
        bool scalar = i + 1 < count && t.chance(2, 5);
        switch (scalar ? t.weighted({1, 1, 4, 2, 4, 3, 1, 1, 2}) : 9 + t.weighted({6, 5, 4, 3, 4, 1, 1})) {
        case 0: x.kind = Node::null_, e = "null"; break;
        case 1: x.kind = Node::bool_, x.i = (i64) t.below(2), e = x.i ? "true" : "false"; break;
        case 2:
            x.kind = Node::int_, x.i = t.any_i64();
            e = x.i == INT64_MIN ? "-9223372036854775807 - 1" : std::to_string((long long) x.i);
            break;
        case 3:
            x.kind = Node::float_, x.i = t.range(0, 99999), x.s = t.pick({std::string("0"), std::string("5"), std::string("25"), std::string("0625")});
            e = sfmt("%lld.%s", (long long) x.i, x.s.c_str());
            break;
        case 4:
            x.kind = Node::string_, x.s = any_string(t);
            e = sfmt("s[%zu]", strings.size());
            strings.push_back(x.s);
            break;
        case 5: x.kind = Node::symbol_, x.s = t.pick({std::string("a"), std::string("sym"), std::string("if"), std::string("_"), std::string("B2"), std::string("\xce\xbb")}), e = "#" + x.s; break;
        case 6:
            x.kind = Node::slice_, x.s = any_string(t);
            e = sfmt("s[%zu].slice_first(%zu)", strings.size(), x.s.size());
            strings.push_back(x.s + "tail");
            break;
        case 7:
            x.kind = Node::exception_, x.s = any_string(t);
            e = sfmt("std.catch_panic(func() = std.panic(s[%zu])).error()", strings.size());
            strings.push_back(x.s);
            break;
        case 8: {
            auto& o = opaque[t.below(14)];
            x.kind = Node::opaque_, x.type = o[1], e = o[0];
            break;
        }
        case 9:
        case 10:
            x.kind = t.chance(1, 2) ? Node::tuple_ : Node::array_;
            for (size_t k = 0; k < kids; ++k) {
                x.kids.push_back(pick());
                e += (k ? ", " : "") + sfmt("v%d", x.kids.back());
            }
            e = x.kind == Node::array_ ? "[" + e + "]" : kids == 1 ? "(" + e + ",)" : "(" + e + ")";
            break;
        case 11:
            x.kind = Node::map_;
            for (size_t k = 0; k < kids; ++k) {
                int key = pick(), val = pick();
                if (!scalar_key(key)) continue;
                e += (e.empty() ? "" : ", ") + sfmt("v%d: v%d", key, val);
                size_t at = 0;
                std::set<int> path;
                std::string ks = g.render(key, path);
                for (; at < x.keys.size(); ++at) {
                    path.clear();
                    if (g.render(x.keys[at], path) == ks) break;
                }
                if (at < x.keys.size()) x.kids[at] = val;
                else x.keys.push_back(key), x.kids.push_back(val);
            }
            e = "map{" + e + "}";
            break;
        case 12:
            x.kind = Node::set_;
            for (size_t k = 0; k < kids; ++k) {
                int key = pick();
                if (!scalar_key(key)) continue;
                e += (e.empty() ? "" : ", ") + sfmt("v%d", key);
                bool dup = false;
                std::set<int> path;
                std::string ks = g.render(key, path);
                for (int o : x.kids) {
                    path.clear();
                    dup |= g.render(o, path) == ks;
                }
                if (!dup) x.kids.push_back(key);
            }
            e = "set{" + e + "}";
            break;
        case 13: {
            x.kind = Node::record_;
            size_t at = t.below(9);
            for (size_t k = 0; k < kids && k < 9; ++k) {
                x.kids.push_back(pick());
                x.names.push_back(names[(at + k) % 9]);
                e += (k ? ", " : "") + x.names.back() + sfmt(": v%d", x.kids.back());
            }
            e = kids ? "(" + e + ")" : "(:)";
            break;
        }
        default:
            if (!i) {
                x.kind = Node::null_, e = "null";
                break;
            }
            x.kind = t.chance(1, 2) ? Node::success_ : Node::error_;
            x.kids.push_back(pick());
            e = sfmt("std.%s(v%d)", x.kind == Node::success_ ? "success" : "error", x.kids[0]);
        }
        has_containers |= !x.kids.empty();
        src += sfmt("    const v%zu = ", i) + e + ";\n";
        g.n.push_back(x);
    }
    if (cycles) {
        for (size_t k = 1 + t.below(4); k-- > 0;) {
            std::vector<int> can;
            for (size_t i = 0; i < count; ++i)
                if (g.n[i].kind == Node::array_ || g.n[i].kind == Node::map_) can.push_back((int) i);
            if (can.empty()) break;
            int a = t.pick(can), b = t.chance(1, 2) ? (int) count - 1 : (int) t.below(count);
            if (g.n[a].kind == Node::array_) {
                if (!g.n[a].kids.empty() && t.chance(1, 3)) {
                    size_t at = t.below(g.n[a].kids.size());
                    g.n[a].kids[at] = b;
                    src += sfmt("    v%d[%zu] = v%d;\n", a, at, b);
                } else {
                    g.n[a].kids.push_back(b);
                    src += sfmt("    v%d.append(v%d);\n", a, b);
                }
            } else {
                Node key;
                key.kind = Node::string_;
                key.s = sfmt("key%zu", g.n.size());
                src += sfmt("    v%d['%s'] = v%d;\n", a, key.s.c_str(), b);
                g.n.push_back(key);
                g.n[a].keys.push_back((int) g.n.size() - 1);
                g.n[a].kids.push_back(b);
            }
        }
    }
    int root = (int) count - 1;
    src += sfmt("    return [v%d, std.debug_repr(v%d), std.debug_repr(v%d, true), std.debug_repr(v%d, false)];\n}\n", root, root, root, root);
    std::string d = src;
    for (auto& s : strings) d += quote_text(s) + "\n";
    c.describe(d);
    g.readable = true;
    g.size = 0;
    std::set<int> path;
    g.render(root, path); // discards structures whose text is too long
    bool readable = g.readable;
    static Compiled* prelude = new Compiled(compile("main", "export func at(x, i) = x[i];"));
    Compiled m = compile("m", src);
    if (!m.ok()) c.fail("rejected: " + m.errors());
    Vm vm(64u << 20);
    vm.load(*prelude);
    vm.load(m);
    H arr(vm);
    MUST(tiro_make_array(vm, 0, arr, must));
    for (auto& s : strings) {
        H x = vm.string(s);
        MUST(tiro_array_push(vm, arr, x, must));
    }
    auto r = vm.call("m", "build", {arr});
    if (!r.ok()) c.fail("panic: " + r.message);
    auto at = [&](i64 i) {
        H x(vm);
        MUST(tiro_array_get(vm, r.value, (size_t) i, x, must));
        return x;
    };
    H value = at(0), compact = at(1), pretty = at(2), compact2 = at(3);
    std::string got = vm.text(compact), nice = vm.text(pretty);
    g.actual = &got;
    g.size = 0;
    path.clear();
    std::string want = g.render(root, path);
    if (got != want) c.fail("debug_repr is\n" + got + "\nexpected\n" + want);
    if (vm.text(compact2) != got) c.fail("debug_repr(v, false) differs");
    if (squeezed(nice) != squeezed(got)) c.fail("the pretty form differs in more than white space:\n" + nice + "\nfrom\n" + got);
    if (readable) {
        for (int k = 0; k < 2; ++k) {
            const std::string& text = k ? nice : got;
            Compiled back = compile("back", "import std; export func main() { const v = " + text + "; return std.debug_repr(v); }");
            if (!back.ok()) c.fail("debug_repr cannot be compiled: " + back.errors() + "\n" + text);
            Vm vm2(64u << 20);
            vm2.load(back);
            auto x = vm2.call("back", "main");
            if (!x.ok()) c.fail("the value read back from debug_repr panics: " + x.message);
            if (vm2.text(x.value) != want) c.fail("the value read back from debug_repr is\n" + vm2.text(x.value) + "\ninstead of\n" + want);
        }
    }
    c.label("read back", readable);
    c.label("cyclic", want.find("{...}") != std::string::npos);
    c.nontrivial = has_containers;
}
void plain(Case& c) { structures(c, false); }
void cyclic(Case& c) { structures(c, true); }

// ------------------------------------------------------------------------------------------------ text of any value
void identity(Case& c) {
    // heap objects without a text of their own: the text names the type and the object
    Tape& t = c.t;
    static const char* const exprs[][2] = {{"[1]", "Array"}, {"(1, 2)", "Tuple"}, {"map{1: 2}", "HashTable|Map"}, {"set{1}", "Set"}, {"(a: 1)", "Record"}, {"func(x) = x", "Function"}, {"std.new_buffer(3)", "Buffer"}, {"std.new_string_builder()", "StringBuilder"},
        {"std.success(1)", "Result"}, {"std.current_coroutine()", "Coroutine"}, {"std.type_of(1)", "Type"}, {"std", "Module"}, {"\"a\".contains", "Function|Method"}, {"map{1: 2}.keys()", "Map|HashTable"}, {"std.schema_of((a: 1))", "RecordSchema"}};
    size_t n = 2 + t.below(6);
    std::string src = "import std;\nexport func main() {\n", list;
    std::vector<int> kind;
    for (size_t i = 0; i < n; ++i) {
        kind.push_back((int) t.below(15));
        src += sfmt("    const v%zu = %s;\n", i, exprs[kind[i]][0]);
        list += sfmt("\"${v%zu}\", ", i);
    }
    src += "    const first = [" + list + "];\n    for var i = 0; i < 2000; i += 1 { [i, i]; }\n    const second = [" + list + "];\n";
    src += "    var same = true; for var i = 0; i < first.size(); i += 1 { if (first[i] != second[i]) { same = false; } }\n    return [same, first];\n}\n";
    c.describe(src);
    Compiled m = compile("m", src);
    if (!m.ok()) c.fail("rejected: " + m.errors());
    Vm vm(64u << 20);
    vm.load(m);
    auto r = vm.call("m", "main");
    if (!r.ok()) c.fail("panic: " + r.message);
    H same(vm), first(vm), x(vm);
    MUST(tiro_array_get(vm, r.value, 0, same, must));
    MUST(tiro_array_get(vm, r.value, 1, first, must));
    if (!tiro_boolean_value(vm, same)) c.fail("the text of an object changed");
    std::map<std::string, int> seen;
    for (size_t i = 0; i < n; ++i) {
        MUST(tiro_array_get(vm, first, i, x, must));
        std::string s = vm.text(x);
        bool fits = false;
        std::string want = exprs[kind[i]][1];
        for (size_t p = 0; p <= want.size();) {
            size_t e = std::min(want.find('|', p), want.size());
            fits |= s.find(want.substr(p, e - p)) != std::string::npos;
            p = e + 1;
        }
        if (!fits) c.fail(sfmt("the text of %s is ", exprs[kind[i]][0]) + s);
        // module, types and the coroutine are unique objects
        bool unique = kind[i] == 9 || kind[i] == 10 || kind[i] == 11 || kind[i] == 14;
        auto [it, fresh] = seen.emplace(s, kind[i]);
        if (!fresh && !(unique && it->second == kind[i])) c.fail("two objects have the text " + s);
    }
    c.nontrivial = true;
}

// ------------------------------------------------------------------------------------------------ wide and deep
void extreme(Case& c) {
    Tape& t = c.t;
    size_t n = t.chance(1, 2) ? 1000 + t.below(30000) : 1 + t.below(400);
    int kind = (int) t.below(5);
    bool nested = t.chance(1, 2);
    if (nested) n = 1 + n % 900;
    static const char* const leaf[] = {"a.append(i);", "a[i] = -i;", "a.insert(i);", "a.append((i,));", "a.append([i, 'x']);"};
    static const char* const start[] = {"[]", "map{}", "set{}", "[]", "[]"};
    static const char* const wrap[] = {"[a]", "map{1: a}", "(x: a)", "(a,)", "std.success(a)"};
    std::string src = sfmt("import std;\nexport func main() {\n    var a = %s;\n    for var i = 0; i < %zu; i += 1 { %s }\n    return (std.debug_repr(a), std.debug_repr(a, true));\n}\n", nested ? "0" : start[kind], n, nested ? (std::string("a = ") + wrap[kind] + ";").c_str() : leaf[kind]);
    c.describe(src);
    std::string want;
    if (nested) {
        static const char* const open[] = {"[", "map{1: ", "(x: ", "(", "Result{type: \"success\", value: "};
        static const char* const close[] = {"]", "}", ")", ",)", ", error: null}"};
        for (size_t i = 0; i < n; ++i) want += open[kind];
        want += "0";
        for (size_t i = 0; i < n; ++i) want += close[kind];
    } else {
        static const char* const item[] = {"%lld", "%lld: -%lld", "%lld", "(%lld,)", "[%lld, \"x\"]"};
        want = kind == 1 ? "map{" : kind == 2 ? "set{" : "[";
        for (size_t i = 0; i < n; ++i) {
            if (i) want += ", ";
            if (kind == 1 && i == 0) want += "0: 0";
            else want += sfmt(item[kind], (long long) i, (long long) i);
        }
        want += kind == 1 || kind == 2 ? "}" : "]";
    }
    Compiled m = compile("m", src);
    if (!m.ok()) c.fail("rejected: " + m.errors());
    Vm vm(256u << 20);
    vm.load(m);
    auto r = vm.call("m", "main");
    if (!r.ok()) c.fail("panic: " + r.message);
    H x(vm);
    MUST(tiro_tuple_get(vm, r.value, 0, x, must));
    std::string got = vm.text(x);
    if (got != want) {
        size_t p = 0;
        while (p < got.size() && p < want.size() && got[p] == want[p]) ++p;
        c.fail(sfmt("debug_repr differs at %zu: ", p) + got.substr(p, 60) + " instead of " + want.substr(p, 60));
    }
    MUST(tiro_tuple_get(vm, r.value, 1, x, must));
    if (squeezed(vm.text(x)) != squeezed(want)) c.fail("the pretty form differs in more than white space");
    c.label("nested", nested);
    c.nontrivial = n >= 10;
}

// True while very deep structures overflow the native stack.
bool deep_overflows() {
    pid_t p = fork();
    if (p == 0) {
        int null = open("/dev/null", O_WRONLY);
        dup2(null, 1);
        dup2(null, 2);
        struct rlimit l = {8u << 20, 8u << 20};
        setrlimit(RLIMIT_STACK, &l);
        signal(SIGSEGV, SIG_DFL);
        signal(SIGBUS, SIG_DFL);
        try {
            Compiled m = compile("m", "import std; export func main() { var a = []; for var i = 0; i < 300000; i += 1 { a = [a]; } return std.debug_repr(a); }");
            Vm vm(512u << 20);
            vm.load(m);
            auto r = vm.call("m", "main");
            _exit(r.ok() && vm.text(r.value).size() == 600002 ? 0 : 1);
        } catch (...) {
        }
        _exit(2);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    return WIFSIGNALED(st) || WEXITSTATUS(st) != 0;
}

} // namespace

int main(int argc, char** argv) {
    pbt::Runner r("C20", "numbers: integers and non-zero finite floats; strings: at least two bytes; plain and cyclic: a container with elements; identity: all; extreme: at least ten elements or levels", {
        Suite{"numbers", 20000, 1000000, numbers},
        Suite{"strings", 6000, 300000, strings},
        Suite{"plain", 3000, 150000, plain},
        Suite{"cyclic", 3000, 150000, cyclic},
        Suite{"identity", 500, 20000, identity},
        Suite{"extreme", 160, 8000, extreme},
    }, {pbt::Known{"deep-debug-repr", "debug_repr of values nested about 20000 levels deep overflows the native stack", deep_overflows}});
    return r.main(argc, argv);
}
