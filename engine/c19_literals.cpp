// C19: literals denote the values they spell; diagnostics point at the right place; stack traces list the active functions.
#include "tiro_util.hpp"
#include "xid_table.hpp"

#include <cstring>

using namespace tu;
using pbt::Case;
using pbt::Suite;
using pbt::Tape;

namespace {

typedef unsigned __int128 u128;

struct World { // one virtual machine per process; modules get fresh names
    std::unique_ptr<Vm> vm;
    int next = 0, used = 0;
    Vm& get() {
        if (!vm || ++used > 400) {
            vm = std::make_unique<Vm>(64u << 20);
            used = 0;
        }
        return *vm;
    }
} world;

struct Outcome {
    bool accepted = false;
    std::string shown;        // value, see Vm::show
    std::vector<Diag> diags;
    std::string error;
};
// compiles `export func get() = <expr>;` and evaluates it
Outcome evaluate(Case& c, const std::string& expr, const std::string& before = "") {
    Outcome o;
    std::string name = sfmt("lit%d", world.next++);
    Compiled m = compile(name, before + "import std;\nexport func get() { return " + expr + "; }\n");
    o.diags = m.diags;
    if (!m.ok()) {
        if (m.code != TIRO_ERROR_BAD_SOURCE) c.fail("the compiler failed with " + m.details + " for " + expr);
        o.error = m.errors();
        return o;
    }
    Vm& vm = world.get();
    vm.load(m);
    auto r = vm.call(name, "get");
    if (!r.ok()) c.fail("evaluating the literal failed: " + r.message);
    o.accepted = true;
    o.shown = vm.show(r.value);
    return o;
}

// ------------------------------------------------------------------------------------------------ numbers
std::string digits_of(u128 v, int base, bool upper) {
    std::string r;
    do {
        int d = (int) (v % base);
        r.insert(r.begin(), d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10);
        v /= base;
    } while (v);
    return r;
}
std::string separate(Tape& t, const std::string& d) {
    std::string r;
    for (size_t i = 0; i < d.size(); ++i) {
        if (i && t.chance(1, 4)) r += '_';
        r += d[i];
    }
    return r;
}

void integers(Case& c) {
    Tape& t = c.t;
    static const int bases[] = {10, 10, 16, 8, 2};
    static const char* const prefixes[] = {"", "", "0x", "0o", "0b"};
    int k = (int) t.below(5);
    int base = bases[k];
    u128 v;
    const u128 max = (u128) INT64_MAX;
    switch (t.below(6)) {
    case 0: v = max; break;
    case 1: v = max + t.below(3); break;
    case 2: v = max - t.below(100); break;
    case 3: v = (u128) t.raw() * t.raw() >> t.below(100); break;
    case 4: v = (u128) 1 << t.below(70); break;
    default: v = t.raw() >> t.below(64);
    }
    std::string d = digits_of(v, base, t.chance(1, 2));
    if (t.chance(1, 4)) d = std::string(1 + t.below(4), '0') + d;
    bool bad = false;
    if (t.chance(1, 6)) { // a digit that does not belong to the base
        static const char* const wrong[] = {"", "", "", "89", "23456789"};
        if (*wrong[k]) {
            d.insert(t.below(d.size() + 1), 1, wrong[k][t.below(strlen(wrong[k]))]);
            bad = true;
        }
    }
    if (t.chance(1, 2)) d = separate(t, d);
    std::string lit = prefixes[k] + d;
    bool neg = t.chance(1, 5);
    std::string expr = std::string(neg ? "-" : "") + lit;
    c.describe(expr);
    // values of literals that overflow through an invalid digit do not matter
    Outcome o = evaluate(c, expr);
    bool want = !bad && v <= max;
    if (o.accepted != want) c.fail(want ? "the literal is rejected: " + o.error : "the literal is accepted as " + o.shown);
    if (want) {
        std::string s = sfmt("%lld", (long long) (neg ? -(i64) v : (i64) v));
        if (o.shown != s) c.fail("the literal denotes " + o.shown + ", expected " + s);
    } else {
        if (o.diags.size() != 1 || o.diags[0].line != 2 || o.diags[0].column != (uint32_t) (28 + neg))
            c.fail("the diagnostic does not point at the literal: " + o.error);
    }
    c.label(want ? "accepted" : "rejected");
    c.nontrivial = true;
}

void floats(Case& c) {
    Tape& t = c.t;
    static const int bases[] = {10, 10, 10, 16, 8, 2};
    static const char* const prefixes[] = {"", "", "", "0x", "0o", "0b"};
    int k = (int) t.below(6);
    int base = bases[k];
    std::string ip, fp;
    if (base == 10) {
        switch (t.below(6)) {
        case 0: { // shortest and longer forms of arbitrary numbers
            double x = t.any_f64();
            x = std::isfinite(x) ? std::fabs(x) : 0.1;
            std::string s = sfmt("%.*f", (int) t.below(30), x);
            ip = s.substr(0, s.find('.'));
            fp = s.find('.') == std::string::npos ? "" : s.substr(s.find('.') + 1);
            break;
        }
        case 1: { // exactly half way between two floats, or next to it
            double x = std::ldexp((double) ((1ull << 52) | (t.raw() >> 12)), (int) t.range(-80, 10));
            double y = std::nextafter(x, INFINITY);
            // the mean has few digits more: print exactly using long double
            long double mean = ((long double) x + y) / 2;
            char buf[400];
            snprintf(buf, sizeof buf, "%.140Lf", mean);
            std::string s = buf;
            ip = s.substr(0, s.find('.'));
            fp = s.substr(s.find('.') + 1);
            while (!fp.empty() && fp.back() == '0') fp.pop_back();
            if (t.chance(1, 3)) fp += "1";
            break;
        }
        case 2: // many digits
            for (size_t n = 1 + t.below(40); n-- > 0;) ip += (char) ('0' + t.below(10));
            for (size_t n = t.below(60); n-- > 0;) fp += (char) ('0' + t.below(10));
            break;
        case 3: // tiny
            ip = "0";
            fp = std::string(t.below(330), '0');
            for (size_t n = 1 + t.below(20); n-- > 0;) fp += (char) ('0' + t.below(10));
            break;
        case 4: // huge
            ip = sfmt("%d", 1 + (int) t.below(9)) + std::string(t.below(320), '0' + (char) t.below(10));
            fp = "0";
            break;
        default:
            ip = sfmt("%d", (int) t.below(1000));
            fp = sfmt("%d", (int) t.below(10000));
        }
        if (ip.size() > 1) { // no leading zeros (other than by choice)
            size_t z = ip.find_first_not_of('0');
            ip = z == std::string::npos ? "0" : ip.substr(z);
        }
    } else {
        size_t ni = 1 + t.below(base == 2 ? 70 : 20), nf = t.below(base == 2 ? 80 : 24);
        for (size_t i = 0; i < ni; ++i) ip += "0123456789abcdef"[t.below(base)];
        for (size_t i = 0; i < nf; ++i) fp += t.chance(1, 3) ? '0' : "0123456789ABCDEF"[t.below(base)];
    }
    std::string clean = ip + "." + fp;
    double want;
    if (base == 10) want = strtod(clean.c_str(), nullptr);
    else {
        // regroup to hexadecimal digits, which strtod reads exactly
        int bits = base == 2 ? 1 : base == 8 ? 3 : 4;
        std::string bi, bf;
        auto expand = [&](const std::string& d) {
            std::string r;
            for (char ch : d) {
                int v = ch <= '9' ? ch - '0' : (ch | 32) - 'a' + 10;
                for (int b = bits - 1; b >= 0; --b) r += (char) ('0' + ((v >> b) & 1));
            }
            return r;
        };
        bi = expand(ip);
        bf = expand(fp);
        while (bi.size() % 4) bi.insert(bi.begin(), '0');
        while (bf.size() % 4) bf += '0';
        auto pack = [](const std::string& b) {
            std::string r;
            for (size_t i = 0; i < b.size(); i += 4) r += "0123456789abcdef"[(b[i] - '0') * 8 + (b[i + 1] - '0') * 4 + (b[i + 2] - '0') * 2 + (b[i + 3] - '0')];
            return r;
        };
        want = strtod(("0x" + pack(bi) + "." + pack(bf) + "p0").c_str(), nullptr);
    }
    if (t.chance(1, 3)) {
        ip = separate(t, ip);
        fp = separate(t, fp);
    }
    std::string lit = prefixes[k] + ip + "." + fp;
    bool neg = t.chance(1, 5);
    c.describe((neg ? "-" : "") + lit);
    Outcome o = evaluate(c, (neg ? "-" : "") + lit);
    if (!o.accepted) c.fail("the literal is rejected: " + o.error);
    std::string s = sfmt("%a", neg ? -want : want);
    if (o.shown != s) c.fail("the literal denotes " + o.shown + ", expected " + s + sfmt(" (%.17g)", want));
    c.label(base == 10 ? "decimal" : "other bases");
    c.nontrivial = !fp.empty() || ip.size() > 15;
}

// ------------------------------------------------------------------------------------------------ strings
void put_utf8(std::string& s, unsigned cp) {
    if (cp < 0x80) s += (char) cp;
    else if (cp < 0x800) s += (char) (0xc0 | cp >> 6), s += (char) (0x80 | (cp & 63));
    else if (cp < 0x10000) s += (char) (0xe0 | cp >> 12), s += (char) (0x80 | (cp >> 6 & 63)), s += (char) (0x80 | (cp & 63));
    else s += (char) (0xf0 | cp >> 18), s += (char) (0x80 | (cp >> 12 & 63)), s += (char) (0x80 | (cp >> 6 & 63)), s += (char) (0x80 | (cp & 63));
}
unsigned any_cp(Tape& t) {
    switch (t.below(8)) {
    case 0: return 0x80 + (unsigned) t.below(0x780);
    case 1: return 0x800 + (unsigned) t.below(0xd000);
    case 2: return 0xe000 + (unsigned) t.below(0x2000);
    case 3: return 0x10000 + (unsigned) t.below(0x100000);
    case 4: return t.pick({0xfffeu, 0xffffu, 0xfeffu, 0x10ffffu, 0xd7ffu, 0xe000u, 0x7fu, 0x80u, 0x7ffu, 0x800u, 0x10000u, 0x2028u});
    default: return 32 + (unsigned) t.below(95);
    }
}
struct Text {
    std::string source, value;
    bool valid = true;
    size_t escapes = 0, interpolations = 0;
};
// the contents of a string literal quoted by q
void piece(Tape& t, Text& x, char q, int depth);
void literal(Tape& t, Text& x, int depth) {
    char q = t.chance(1, 3) ? '\'' : '"';
    x.source += q;
    for (size_t n = t.below(depth ? 4 : 9); n-- > 0;) piece(t, x, q, depth);
    x.source += q;
}
void piece(Tape& t, Text& x, char q, int depth) {
    switch (t.weighted({8, 3, 3, 3, 1, depth < 3 ? 3u : 0u, 1})) {
    case 0: { // verbatim
        unsigned cp = any_cp(t);
        if (cp == '$' || cp == '\\' || cp == (unsigned char) q) cp = q == '"' ? '\'' : '"';
        put_utf8(x.source, cp);
        put_utf8(x.value, cp);
        break;
    }
    case 1: {
        static const char src[] = "nrt\"'\\$";
        static const char val[] = "\n\r\t\"'\\$";
        size_t i = t.below(7);
        x.source += '\\';
        x.source += src[i];
        x.value += val[i];
        ++x.escapes;
        break;
    }
    case 2: {
        unsigned cp = (unsigned) t.below(256);
        x.source += sfmt(t.chance(1, 2) ? "\\x%02x" : "\\x%02X", cp);
        put_utf8(x.value, cp);
        ++x.escapes;
        break;
    }
    case 3: {
        unsigned cp = t.chance(1, 8) ? (unsigned) t.below(32) : any_cp(t);
        x.source += "\\u{" + std::string(t.chance(1, 4) ? t.below(6) : 0, '0') + sfmt(t.chance(1, 2) ? "%x" : "%X", cp) + "}";
        put_utf8(x.value, cp);
        ++x.escapes;
        break;
    }
    case 4: // white space and line breaks are kept
    {
        static const char* const ws[] = {"\n", "\t", "\r\n", "  ", "\r", "// no comment", "/* no comment */", "\x01", "\x7f"};
        std::string s = ws[t.below(9)];
        x.source += s;
        x.value += s;
        break;
    }
    case 5: { // interpolation
        ++x.interpolations;
        switch (t.below(6)) {
        case 0:
            x.source += "${" + std::string(t.below(3), ' ') + "12 /* } */ + 3}";
            x.value += "15";
            break;
        case 1: // a nested literal
        {
            x.source += "${";
            literal(t, x, depth + 1);
            x.source += "}";
            break;
        }
        case 2:
            x.source += "${{ const m = {7;}; m; }}";
            x.value += "7";
            break;
        case 3:
            x.source += "${if (true) { \"}\"; } else { '{'; }}";
            x.value += "}";
            break;
        case 4:
            x.source += "${(map{'}': \"{\"})[\"}\"]}";
            x.value += "{";
            break;
        default:
            x.source += "$word";
            x.value += "W";
            // must not be continued by a letter
            x.source += "-";
            x.value += "-";
        }
        break;
    }
    default: // a brace without $
        x.source += t.chance(1, 2) ? "{" : "}";
        x.value += x.source.back();
    }
}
void strings(Case& c) {
    Tape& t = c.t;
    Text x;
    size_t n = 1 + t.below(3);
    for (size_t i = 0; i < n; ++i) {
        if (i) x.source += t.chance(1, 2) ? " " : t.chance(1, 2) ? "\n" : "/* */";
        literal(t, x, 0);
    }
    c.describe(x.source);
    Outcome o = evaluate(c, "({ const word = \"W\"; " + x.source + "; })");
    if (!o.accepted) c.fail("the literal is rejected: " + o.error);
    if (o.shown != "\"" + x.value + "\"") {
        std::string a, b;
        for (unsigned char ch : o.shown) a += sfmt("%02x", ch);
        for (unsigned char ch : "\"" + x.value + "\"") b += sfmt("%02x", ch);
        c.fail("the literal denotes " + a + "\nexpected " + b);
    }
    c.count("escape sequences", x.escapes);
    c.count("interpolations", x.interpolations);
    c.nontrivial = x.escapes + x.interpolations >= 1;
}

void bad_strings(Case& c) {
    Tape& t = c.t;
    Text pre, post;
    for (size_t n = t.below(4); n-- > 0;) piece(t, pre, '"', 3);
    for (size_t n = t.below(4); n-- > 0;) piece(t, post, '"', 3);
    std::string bad;
    switch (t.below(9)) {
    case 0: { // unknown escape character
        unsigned cp;
        do cp = t.chance(1, 3) ? any_cp(t) : 32 + (unsigned) t.below(95);
        while (strchr("nrt\"'\\$xu", (int) cp) && cp < 128);
        bad = "\\";
        put_utf8(bad, cp);
        break;
    }
    case 1: bad = "\\x" + std::string(1, "gGxz {"[t.below(6)]) + "1"; break;
    case 2: bad = "\\x1" + std::string(1, "gGxz {"[t.below(6)]); break;
    case 3: bad = sfmt("\\u{%x}", 0xd800 + (unsigned) t.below(0x800)); break;
    case 4: bad = sfmt("\\u{%llx}", (unsigned long long) (0x110000 + (t.raw() >> (20 + t.below(24))))); break;
    case 5: bad = "\\u{}"; break;
    case 6: bad = std::string("\\u") + "0a(x"[t.below(4)]; break;
    case 7: bad = std::string("\\u{4") + "g- $"[t.below(3)] + "1}"; break;
    default: bad = std::string("$") + " 1-\"}"[t.below(5)]; break;
    }
    // the literal starts at a known place
    std::string lit = "\"" + pre.source + bad + post.source + "\"";
    c.describe(lit);
    Outcome o = evaluate(c, lit);
    if (o.accepted) c.fail("the literal is accepted as " + o.shown);
    if (o.diags.empty()) c.fail("no diagnostic");
    c.nontrivial = true;
}

// ------------------------------------------------------------------------------------------------ symbols, names
void symbols(Case& c) {
    Tape& t = c.t;
    static const char* const starts[] = {"a", "Z", "_", "\xc3\xa4", "\xce\xbb", "\xe4\xb8\xad", "\xf0\x9d\x94\xb8", "x"};
    static const char* const cont[] = {"a", "9", "_", "\xc3\xa9", "\xcc\x81", "0", "\xe0\xa5\x87", "Q", "\xc2\xb7"};
    static const char* const wrong[] = {"1", "", " a", "-", "\xe2\x82\xac", "\"a\"", "(", "\xcc\x81"};
    bool bad = t.chance(1, 5);
    // code points near the borders of the ranges of the unicode database
    auto from_table = [&](int lowest, int highest) {
        for (size_t i = t.below(sizeof(xid_ranges) / sizeof(*xid_ranges));; i = (i + 1) % (sizeof(xid_ranges) / sizeof(*xid_ranges))) {
            auto& r = xid_ranges[i];
            if (r.kind < lowest || r.kind > highest) continue;
            unsigned n = r.hi - r.lo + 1;
            unsigned k = t.chance(1, 3) ? 0 : t.chance(1, 2) ? n - 1 : (unsigned) t.below(n);
            { std::string s; put_utf8(s, r.lo + k); return s; }
        }
    };
    std::string name = bad ? t.chance(1, 2) ? std::string(wrong[t.below(8)]) : from_table(0, 1) : t.chance(1, 2) ? std::string(starts[t.below(8)]) : from_table(2, 2);
    if (!bad)
        for (size_t n = t.below(12); n-- > 0;) name += t.chance(1, 2) ? std::string(cont[t.below(9)]) : from_table(1, 2);
    if (t.chance(1, 6) && !bad) bad = true, name += from_table(0, 0);
    if (t.chance(1, 5) && !bad) name = t.pick({std::string("if"), std::string("func"), std::string("null"), std::string("true"), std::string("import")});
    c.describe("#" + name);
    Outcome o = evaluate(c, "({ const s = #" + name + "; \"${std.Type.name(std.type_of(s))} ${std.debug_repr(s)}\"; })");
    if (o.accepted == bad) c.fail(bad ? "an invalid symbol is accepted as " + o.shown : "the symbol is rejected: " + o.error);
    if (!bad) {
        std::string plain = "\"Symbol #" + name + "\"";
        if (o.shown != plain) c.fail("the symbol is " + o.shown + ", expected " + plain);
        // equal names are the same symbol, different names are not
        std::string other = t.chance(1, 2) ? name : name + "_";
        Outcome e = evaluate(c, "#" + name + " == #" + other);
        if (e.shown != (other == name ? "true" : "false")) c.fail("#" + name + " == #" + other + " is " + e.shown);
        // the same characters as an identifier
        static const std::set<std::string> kw{"if", "func", "null", "true", "import"};
        Outcome v = evaluate(c, "({ const " + name + " = 41; " + name + " + 1; })");
        if (v.accepted == (bool) kw.count(name) || (v.accepted && v.shown != "42")) c.fail("the identifier " + name + ": " + (v.accepted ? v.shown : v.error));
    }
    c.nontrivial = !bad;
}

// ------------------------------------------------------------------------------------------------ positions
struct Toks {
    std::vector<std::string> t;
    void add(const char* s) { // separated by spaces
        std::string w;
        for (const char* p = s;; ++p) {
            if (*p == ' ' || !*p) {
                if (!w.empty()) t.push_back(w);
                w.clear();
                if (!*p) break;
            } else
                w += *p;
        }
    }
};
size_t cp_count(const std::string& s) {
    size_t n = 0;
    for (unsigned char ch : s) n += (ch & 0xc0) != 0x80;
    return n;
}
struct Layout {
    std::string text;
    std::vector<size_t> start; // of each token, in code points
    void finish() {}
    // position of a code point index
    std::pair<u64, u64> position(size_t cp) const {
        u64 line = 1, col = 1;
        size_t n = 0;
        for (size_t i = 0; i < text.size(); ++i) {
            if (((unsigned char) text[i] & 0xc0) == 0x80) continue;
            if (n++ == cp) break;
            if (text[i] == '\n') ++line, col = 1;
            else ++col;
        }
        return {line, col};
    }
    // code point index of a position, or npos
    size_t index(u64 line, u64 col) const {
        u64 l = 1, k = 1;
        size_t n = 0;
        for (size_t i = 0; i < text.size(); ++i) {
            if (((unsigned char) text[i] & 0xc0) == 0x80) continue;
            if (l == line && k == col) return n;
            ++n;
            if (text[i] == '\n') ++l, k = 1;
            else ++k;
        }
        return l == line && k == col ? n : std::string::npos;
    }
};
Layout lay_out(const std::vector<std::string>& toks, Tape* t) {
    Layout r;
    size_t n = 0;
    auto put = [&](const std::string& s) {
        r.text += s;
        n += cp_count(s);
    };
    for (auto& k : toks) {
        if (t) {
            for (size_t i = t->below(3); i-- > 0;) {
                static const char* const gaps[] = {"\n", "  ", "\t", "\r\n", "// comment ) } \"\n", "/* c */", "/* two\nlines \xe2\x82\xac */", "\n\n\n", "// \xc3\xa4\xf0\x9f\x98\x80\n", "/* nested /* c */\r\n */", "\xc2\x85",
                    "\xe2\x80\x8e", "\xe2\x80\xa8", "\r", "/**/", "//\n", "\n/* \xe4\xb8\xad */ ", "/* \xf0\x9f\x98\x80\xf4\x8f\xbf\xbf\xf0\x90\x80\x80 */",
                    "/* \xdf\xbf\xe0\xa0\x80\xef\xbf\xbd */"};
                put(gaps[t->below(19)]);
            }
            put(t->chance(1, 6) ? "\n" : " ");
        } else if (n)
            put(" ");
        r.start.push_back(n);
        put(k);
    }
    put(t && t->chance(1, 2) ? "\n" : " ");
    return r;
}
const char* const snippets[] = {
    "func NAME ( x , y ) { var z = x + y ; z += 1 ; return ( z , x ) ; }",
    "export func NAME ( ) = [ 1 , \"s\" , #sym , 2.5 ] ;",
    "func NAME ( a ) { for v in a { if ( v == 3 ) { break ; } else { continue ; } } }",
    "const NAME = \"text${1+2}\xc3\xa4\" ;",
    "func NAME ( f ) { defer f ( 1 ) ; while f ( 2 ) { f ( 3 ) ; } return f ?. x ?? null ; }",
    "var NAME = map{ 1 : 2 , 'k' : [ ] } ;",
    "func NAME ( q ) { const ( a , b ) = ( q , ( c : 1 , ) ) ; assert ( a == b , \"msg\" ) ; return func ( ) = a . 0 ; }",
    "const NAME = ( '\xf0\x9f\x98\x80\xf0\x9d\x94\xb8' , \"\xef\xbf\xbd\\u{1F600}\" , #\xf0\x9d\x94\xb8 ) ;",
    "func NAME ( s ) { var i = 0 ; for var k = 0 ; k < 5 ; k += 1 { i = i ** 2 ; } ; s [ i ] = - i ; return s . m ( i ) [ 0 ] ; }",
};
std::string diag_text(const Diag& d) { return sfmt("%s:%u:%u: ", d.file.c_str(), d.line, d.column) + d.text; }

void positions(Case& c) {
    Tape& t = c.t;
    Toks a;
    size_t n = 1 + t.below(4);
    std::vector<std::pair<size_t, size_t>> items;
    a.add("import std ;");
    for (size_t i = 0; i < n; ++i) {
        size_t from = a.t.size();
        std::string s = snippets[t.below(sizeof snippets / sizeof *snippets)];
        s.replace(s.find("NAME"), 4, sfmt("n%zu", i));
        a.add(s.c_str());
        items.emplace_back(from, a.t.size());
    }
    std::vector<std::string> toks = a.t;
    long target = -1; // token that must be named
    size_t inner = 0; // and the offset in it
    int kind = (int) t.below(9);
    static const char* const kinds[] = {"undefined name", "invalid number", "invalid escape", "unexpected character", "duplicate name", "constant assigned", "break outside a loop", "token mutation", "two token mutations"};
    // a place between statements of a function with a block body
    auto insert_statement = [&](const char* s, size_t at_token) -> bool {
        std::vector<size_t> places;
        for (size_t i = 0; i + 1 < toks.size(); ++i)
            if (toks[i] == "{" && i && toks[i - 1] == ")") {
                size_t k = i;
                while (k > 0 && toks[k] != "func" && toks[k] != "if" && toks[k] != "while" && toks[k] != "for") --k;
                if (toks[k] == "func") places.push_back(i + 1);
            }
        if (places.empty()) return false;
        size_t p = places[t.below(places.size())];
        Toks x;
        x.add(s);
        toks.insert(toks.begin() + p, x.t.begin(), x.t.end());
        target = (long) (p + at_token);
        return true;
    };
    bool ok = true;
    switch (kind) {
    case 0:
        if (t.chance(1, 3)) {
            bool nl = t.chance(1, 2);
            ok = insert_statement(nl ? "const q0 = f1 ;" : "const q0 = f2 ;", 3);
            if (ok) toks[target] = nl ? "\"\xc3\xa4\n\n${1}\xe4\xb8\xad${[undefinedx]}\"" : "'\xf0\x9f\x98\x80" "b${1 + undefinedx} $x'", inner = nl ? 12 : 9;
            break;
        }
        ok = t.chance(1, 2) ? insert_statement("undefined_name ( 1 , 2 ) ;", 0) : insert_statement("const q0 = ( 1 , [ undefined\xc3\xa4 ] ) ;", 7); break;
    case 1: ok = t.chance(1, 2) ? insert_statement("const q0 = [ 99999999999999999999 ] ;", 4) : insert_statement("const q0 = 1 + 0b102 ;", 5); break;
    case 2: ok = insert_statement("const q0 = ( \"ok\" , \"\xc3\xa4\\q\" ) ;", 6); break;
    case 3: ok = insert_statement(t.chance(1, 2) ? "const q0 = ` ;" : "const q0 = \xe2\x82\xac ;", 3); break;
    case 4: ok = insert_statement("const q0 = 1 ; var q0 = 2 ;", 6); break;
    case 5: ok = insert_statement("const q0 = 1 ; q0 = 2 ;", 5); break;
    case 6: ok = insert_statement(t.chance(1, 2) ? "break ;" : "continue ;", 0); break;
    default:
        for (int k = kind - 6; k-- > 0;) {
            size_t i = 3 + t.below(toks.size() - 3);
            switch (t.below(4)) {
            case 0: toks.erase(toks.begin() + i); break;
            case 1: toks.insert(toks.begin() + i, toks[t.below(toks.size())]); break;
            case 2: toks[i] = toks[t.below(toks.size())]; break;
            default: {
                static const char* const other[] = {")", "(", "}", "{", ";", "if", "func", "1", "name", "+", ".", ",", "return", "`", "\"str\"", "#", "=", "in"};
                toks[i] = other[t.below(18)];
            }
            }
        }
    }
    if (!ok) c.discard();
    Layout plain = lay_out(toks, nullptr), other = lay_out(toks, &t);
    std::string file = t.pick({std::string("main"), std::string("a b.tiro"), std::string("x/\xc3\xa4.tiro")});
    bool second = t.chance(1, 4);
    c.describe(std::string(kinds[kind]) + (target >= 0 ? ", token " + toks[target] : "") + "\n" + plain.text + "\n---- other layout ----\n" + other.text);
    Compiled p = compile("main", {{"main", plain.text}});
    std::vector<tu::Source> files;
    if (second) files.push_back({"other file", "// nothing\n\nfunc unrelated_() = 1;\n"});
    files.push_back({file, other.text});
    if (second) files.push_back({"third file", "func unrelated2_() = 1;\n"});
    Compiled q = compile("main", files);
    if (p.ok() != q.ok()) c.fail(std::string("one layout is accepted, the other is rejected:") + p.errors() + q.errors());
    if (p.diags.size() != q.diags.size()) c.fail("the number of diagnostics depends on the layout:" + p.errors() + "\n-- and --" + q.errors());
    if (target >= 0) {
        if (p.diags.empty()) c.fail("no diagnostic");
        auto& d = p.diags[0];
        size_t want = plain.start[target];
        want += inner;
        if (kind == 2) ++want; // the text after the quote
        if (kind == 3) want += 1; // syntax errors name the end of the last token
        if (plain.index(d.line, d.column) != want) c.fail("the first diagnostic " + diag_text(d) + " does not point at the token, which is at column " + std::to_string(want + 1));
    }
    size_t compared = 0;
    for (size_t i = 0; i < p.diags.size(); ++i) {
        auto &d = p.diags[i], &e = q.diags[i];
        if (d.line == 0) {
            if (e.line) c.fail("a diagnostic without position has one in the other layout: " + diag_text(e));
            continue;
        }
        if (d.text != e.text) c.fail("the diagnostics differ: " + diag_text(d) + " and " + diag_text(e));
        size_t ip = plain.index(d.line, d.column);
        size_t tok = std::upper_bound(plain.start.begin(), plain.start.end(), ip) - plain.start.begin();
        if (ip == std::string::npos || !tok) c.fail("a diagnostic is outside of the file: " + diag_text(d));
        --tok;
        size_t off = ip - plain.start[tok];
        bool at_end = off > cp_count(toks[tok]);
        if (at_end && (tok + 1 != toks.size() || ip != cp_count(plain.text))) c.fail("a diagnostic points between the tokens: " + diag_text(d));
        auto [line, col] = other.position(at_end ? cp_count(other.text) : other.start[tok] + off);
        if (e.line != line || e.column != col || e.file != file)
            c.fail(sfmt("diagnostic %zu is at ", i) + diag_text(e) + sfmt(", expected %s:%llu:%llu (the other layout: ", file.c_str(), (unsigned long long) line, (unsigned long long) col) + diag_text(d) + ")");
        ++compared;
    }
    c.label(kinds[kind], !p.diags.empty());
    c.count("compared positions", compared);
    c.nontrivial = compared >= 1;
}

// ------------------------------------------------------------------------------------------------ stack traces
void traces(Case& c) {
    Tape& t = c.t;
    size_t depth = 1 + t.below(8);
    bool deep = false;
    std::vector<std::string> want; // innermost first
    std::string src = "import std;\nimport env;\n";
    static const char* const ends[] = {"std.panic(\"m\")", "1 / zero()", "({ assert(zero() == 1); 0; })", "env.fail(1)", "zero().x", "zero()()", "two(1)", "[1][9]", "([1]).nothing()"};
    int end = (int) t.below(9);
    src += "var zero_value = 0;\nfunc zero() = zero_value;\nfunc two(a, b) = a;\n";
    if (end == 3) want.push_back("fail");
    // l0 is the innermost function
    std::string call = ends[end];
    for (size_t i = 0; i < depth; ++i) {
        switch (t.weighted({4, 3, 2, 2, 2, 1, 1})) {
        case 0: // a named function
            src += sfmt("func level_%zu(p) { const l = [p, %zu]; return (l, %s); }\n", i, i, call.c_str());
            want.push_back(sfmt("level_%zu", i));
            call = sfmt("level_%zu(%zu)", i, i);
            break;
        case 1: // a function value
            src += sfmt("const value_%zu = func(p) { const l = [p]; return [%s, l]; };\n", i, call.c_str());
            want.push_back("<UNNAMED>");
            call = sfmt("value_%zu(2)", i);
            break;
        case 2: // within catch_panic, raised again
            src += sfmt("func caught_%zu() { const k = 1; return [k, %s]; }\n", i, call.c_str());
            want.push_back(sfmt("caught_%zu", i));
            want.push_back("<catch panic>");
            call = sfmt("({ const r = std.catch_panic(caught_%zu); if (r.is_error()) { env.keep(r.error()); }; r.value(); })", i);
            break;
        case 3: // with defers
            src += sfmt("func defers_%zu(p) { defer zero(); var l = 0; for var i = 0; i < 3; i += 1 { defer zero(); if (i == 1) { l = %s; } } return l; }\n", i, call.c_str());
            want.push_back(sfmt("defers_%zu", i));
            call = sfmt("defers_%zu(null)", i);
            break;
        case 4: // inner function with captured variable
            src += sfmt("func outer_%zu(p) { var k = p; const f = func() { k += 1; return (k, %s); }; const r = f(); return r; }\n", i, call.c_str());
            want.push_back("<UNNAMED>");
            want.push_back(sfmt("outer_%zu", i));
            call = sfmt("outer_%zu(3)", i);
            break;
        case 6: { // recursion
            size_t n = t.chance(1, 3) && want.size() < 3000 ? t.size(2000) : t.below(20);
            src += sfmt("func again_%zu(n) { if (n > 0) { return [again_%zu(n - 1)]; } return (%s, n); }\n", i, i, call.c_str());
            for (size_t k = 0; k <= n; ++k) want.push_back(sfmt("again_%zu", i));
            call = sfmt("again_%zu(%zu)", i, n);
            deep |= n >= 100;
            break;
        }
        default: // within a deferred expression
            src += sfmt("func late_%zu() { defer %s; return 1; }\n", i, call.c_str());
            want.push_back(sfmt("late_%zu", i));
            call = sfmt("late_%zu()", i);
        }
    }
    src += "export func main() { const r = std.catch_panic(func() = " + call + "); return r; }\n";
    c.describe(src);
    want.push_back("<UNNAMED>");
    want.push_back("<catch panic>");
    want.push_back("main");
    Compiled m = compile("main", src);
    if (!m.ok()) c.fail("rejected: " + m.errors());
    bool enabled = t.chance(7, 8);
    Vm vm(64u << 20, 0, enabled);
    struct Seen {
        std::string first;
        bool any = false;
    } seen;
    vm.user = &seen;
    std::vector<std::pair<std::string, H>> env;
    env.emplace_back("fail", vm.sync_function("fail", [](tiro_vm_t, tiro_sync_frame_t f) { MUST(tiro_sync_frame_panic_msg(f, ts("native"), must)); }, 1));
    auto text_of = [](Vm& vm, tiro_handle_t ex) -> std::string {
        H tr(vm);
        MUST(tiro_exception_trace(vm, ex, tr, must));
        return tiro_value_kind(vm, tr) == TIRO_KIND_STRING ? vm.text(tr) : "<none>";
    };
    env.emplace_back("keep", vm.sync_function("keep", [](tiro_vm_t v, tiro_sync_frame_t f) {
        H a(v), tr(v);
        MUST(tiro_sync_frame_arg(f, 0, a, must));
        Seen& s = *(Seen*) Vm::of(v).user;
        if (s.any) return;
        s.any = true;
        MUST(tiro_exception_trace(v, a, tr, must));
        s.first = tiro_value_kind(v, tr) == TIRO_KIND_STRING ? Vm::of(v).text(tr) : "<none>";
    }, 1));
    vm.load_env_with(env);
    env.clear();
    vm.load(m);
    auto r = vm.call("main", "main");
    if (!r.ok()) c.fail("not caught: " + r.message);
    std::string got;
    if (seen.any) got = seen.first; // caught further inside
    else {
        H ex(vm);
        MUST(tiro_result_error(vm, r.value, ex, must));
        got = text_of(vm, ex);
    }
    std::string expected = "<none>";
    if (enabled) {
        expected = "Coroutine-1:";
        for (auto& w : want) expected += "\n  - " + w;
    }
    if (got != expected) c.fail("the stack trace is\n" + got + "\nexpected\n" + expected);
    c.label("caught further inside", seen.any);
    c.label("more than 100 active calls", deep);
    c.nontrivial = enabled && depth >= 2;
}

} // namespace

int main(int argc, char** argv) {
    pbt::Runner r("C19", "integers: all; floats: a fraction or many digits; strings: an escape or interpolation; symbols: valid ones; positions: at least one compared position; traces: at least two levels", {
        Suite{"integers", 6000, 300000, integers},
        Suite{"floats", 8000, 400000, floats},
        Suite{"strings", 8000, 400000, strings},
        Suite{"bad_strings", 3000, 100000, bad_strings},
        Suite{"symbols", 2000, 80000, symbols},
        Suite{"positions", 10000, 500000, positions},
        Suite{"traces", 3000, 100000, traces},
    });
    return r.main(argc, argv);
}
