// C07: operation histories on strings, slices and builders against byte strings.
#include "tiro_util.hpp"

using namespace tu;
using pbt::Case;
using pbt::Suite;

namespace {

const char* const prelude = R"TIRO(import std;
export const literals = ["", "a", "b", "ab", "ba", "aab", "\x00", "a\x00b", "\xff", "\u{e9}", "abababab", "x"];
export func slice(o, a, b) = o.slice(a, b);
export func slice_first(o, n) = o.slice_first(n);
export func slice_last(o, n) = o.slice_last(n);
export func to_string(o) = o.to_string();
export func contains(o, n) = o.contains(n);
export func size(o) = o.size();
export func collect(o) { const r = []; for x in o { r.append(x); } return r; }
export func first_n(o, n) { const r = []; for x in o { if r.size() == n { break; } r.append(x); } return r; }
export func builder() = std.new_string_builder();
export func append0(o) = o.append();
export func append1(o, x) = o.append(x);
export func append2(o, x, y) = o.append(x, y);
export func append3(o, x, y, z) = o.append(x, y, z);
export func append_byte(o, n) = o.append_byte(n);
export func append_loop(o, x, n) { for var i = 0; i < n; i += 1 { o.append(x); } }
export func clear(o) = o.clear();
export func interp1(x) = "${x}";
export func interp2(x, y) = "<${x}|$y>";
export func interp3(x, y, z) = "$x" "${y}-" 'q${z}';
export func nested(x, y) = "a${"b${x}c"}d${y}";
export func utf8(o) = std.to_utf8(o);
export func eq(a, b) = (a == b, a != b, b == a, b != a);
export func key(a, b) { const m = map{a: 1}; m[b] = 2; return (m.size(), m[a], m.contains(b)); }
export func name(o) = std.Type.name(std.type_of(o));
export func sym(i) = if i == 0 { #abc; } else { #x_1; };
export func chain(o, a, b, c, d) = o.slice(a, b).slice_first(c).slice_last(d);
export func unbound(o, a, b) = std.String.slice(o, a, b);
export func bound(o, a) { const f = o.slice_first; return f(a); }
)TIRO";

const std::vector<std::string> literals = {"", "a", "b", "ab", "ba", "aab", std::string("\0", 1), std::string("a\0b", 3), "\xc3\xbf",
    "\xc3\xa9", "abababab", "x"};

struct World {
    Vm vm{512u << 20};
    std::map<std::string, H> fns;
    World() {
        Compiled c = compile("m", prelude);
        if (!c.ok()) throw Fail{"the harness module does not compile: " + c.errors()};
        vm.load(c);
    }
    tiro_handle_t fn(const std::string& n) {
        auto it = fns.find(n);
        if (it == fns.end()) it = fns.emplace(n, vm.get_export("m", n)).first;
        return it->second;
    }
};
World& world() {
    static World w;
    return w;
}

std::string quote(std::string_view s) {
    std::string r = "\"";
    for (unsigned char ch : s)
        if (ch >= 32 && ch < 127 && ch != '"' && ch != '\\') r += ch;
        else r += sfmt("\\x%02x", ch);
    return r + "\"";
}

struct Ent {
    enum Kind { string, slice, builder } k = string;
    std::string s;
    size_t born = 0; // how much of the builder's content was appended in how many steps
};

struct Run {
    Case& c;
    World& w = world();
    Vm& vm = w.vm;
    std::vector<Ent> es;
    std::vector<H> hs;
    std::string what;
    size_t slices_of_slices = 0, grows = 0, found = 0, clamped = 0, panics = 0;

    [[noreturn]] void fail(const std::string& m) { c.fail(what + ": " + m); }
    void log(const std::string& s) {
        what = s;
        c.add(s + "\n");
    }
    std::string bytes() {
        std::string s;
        size_t n = c.t.size(c.t.chance(1, 6) ? 200 : 24);
        u64 alpha = c.t.below(4);
        for (size_t i = 0; i < n; ++i) {
            switch (alpha) {
            case 0: s += "ab"[c.t.below(2)]; break;
            case 1: s += "a"; break;
            case 2: s += "abc \n\"$\\"[c.t.below(8)]; break;
            default: s += (char) c.t.below(256); break;
            }
        }
        return s;
    }
    H call(const std::string& f, std::vector<tiro_handle_t> a) {
        auto r = vm.call(w.fn(f), a);
        if (!r.ok()) fail(f + " failed: " + r.message);
        return std::move(r.value);
    }
    void must_panic(const std::string& f, std::vector<tiro_handle_t> a) {
        auto r = vm.call(w.fn(f), a);
        if (r.kind != CallResult::panic) fail(f + " should panic but " + (r.ok() ? "returned " + vm.show(r.value) : r.message));
        ++panics;
    }
    void expect_text(tiro_handle_t h, const std::string& want, const std::string& ctx) {
        if (tiro_value_kind(vm, h) != TIRO_KIND_STRING) fail(ctx + ": not a string: " + vm.show(h));
        std::string got = vm.text(h);
        if (got != want) fail(ctx + ": got " + quote(got) + ", expected " + quote(want));
    }
    void expect_int(tiro_handle_t h, i64 want, const std::string& ctx) {
        if (tiro_value_kind(vm, h) != TIRO_KIND_INTEGER || tiro_integer_value(vm, h) != want)
            fail(ctx + ": got " + vm.show(h) + sfmt(", expected %lld", (long long) want));
    }
    void expect_bool(tiro_handle_t h, bool want, const std::string& ctx) {
        if (tiro_value_kind(vm, h) != TIRO_KIND_BOOLEAN || tiro_boolean_value(vm, h) != want)
            fail(ctx + ": got " + vm.show(h) + ", expected " + (want ? "true" : "false"));
    }
    void add(Ent e, H h) {
        es.push_back(std::move(e));
        hs.push_back(std::move(h));
        verify(es.size() - 1);
    }
    // content of one entity, through all ways of reading it
    void verify(size_t i) {
        const Ent& e = es[i];
        std::string ctx = sfmt("content of #%zu", i);
        if (e.k == Ent::string) {
            expect_text(hs[i], e.s, ctx);
        } else {
            H t = call("to_string", {hs[i]});
            expect_text(t, e.s, ctx);
        }
    }
    void verify_deep(size_t i) {
        const Ent& e = es[i];
        static const char* names[] = {"String", "StringSlice", "StringBuilder"};
        H n = call("name", {hs[i]});
        expect_text(n, names[e.k], "type name");
        H s = call("size", {hs[i]});
        expect_int(s, e.s.size(), "size");
        if (e.k == Ent::builder) return;
        H t = call("interp1", {hs[i]});
        expect_text(t, e.s, "interpolation");
        H api(vm);
        MUST(tiro_value_to_string(vm, hs[i], api, must));
        expect_text(api, e.s, "tiro_value_to_string");
        H arr = call("collect", {hs[i]});
        if (tiro_array_size(vm, arr) != e.s.size()) fail(sfmt("iteration yields %zu items", tiro_array_size(vm, arr)));
        for (size_t k = 0; k < e.s.size(); ++k) {
            H x(vm);
            MUST(tiro_array_get(vm, arr, k, x, must));
            expect_text(x, e.s.substr(k, 1), sfmt("item %zu of the iteration", k));
        }
        if (e.k == Ent::string) {
            H b = call("utf8", {hs[i]});
            if (tiro_value_kind(vm, b) != TIRO_KIND_BUFFER) fail("to_utf8 is not a buffer");
            const char* data = (const char*) tiro_buffer_data(vm, b);
            std::string got(data ? data : "", tiro_buffer_size(vm, b));
            if (got != e.s) fail("to_utf8: " + quote(got));
            char* z = nullptr;
            MUST(tiro_string_cstr(vm, hs[i], &z, must));
            std::string zs(z, e.s.size());
            bool term = z[e.s.size()] == 0;
            free(z);
            if (zs != e.s || !term) fail("tiro_string_cstr: " + quote(zs));
        } else {
            must_panic("utf8", {hs[i]});
        }
    }

    size_t pick() { return c.t.below(es.size()); }
    // an index argument for text of length n
    i64 arg(size_t n) {
        switch (c.t.weighted({8, 3, 1, 1})) {
        case 0: return (i64) c.t.below(n + 2);
        case 1: return (i64) n + c.t.range(-2, 2);
        case 2: return -c.t.range(1, 3);
        default: return c.t.pick<i64>({INT64_MAX, INT64_MIN, 1ll << 32, (1ll << 32) + 1, 1ll << 62, INT64_MAX - 1, -1, (1ll << 32) - 1});
        }
    }
    static size_t u(i64 v) { return v < 0 ? 0 : (size_t) v; }
    std::string sub(const std::string& s, i64 off, i64 n) {
        size_t o = std::min(u(off), s.size()), k = std::min(u(n), s.size() - o);
        if (u(off) > s.size() || u(n) > s.size() - o || off < 0 || n < 0) ++clamped;
        return s.substr(o, k);
    }
    // any plain value with its text
    H plain(std::string& text, bool& empty) {
        empty = false;
        switch (c.t.weighted({4, 3, 1, 1, 1, 1})) {
        case 0: {
            size_t i = pick();
            if (es[i].k == Ent::builder) { text = "7"; return vm.integer(7); }
            text = es[i].s;
            H h(vm);
            MUST(tiro_value_copy(vm, hs[i], h, must));
            empty = text.empty();
            return h;
        }
        case 1: {
            i64 v = c.t.any_i64();
            text = sfmt("%lld", (long long) v);
            return vm.integer(v);
        }
        case 2: {
            bool b = c.t.chance(1, 2);
            text = b ? "true" : "false";
            return vm.boolean(b);
        }
        case 3: text = "null"; return vm.null();
        case 4: {
            i64 i = c.t.below(2);
            text = i == 0 ? "#abc" : "#x_1";
            H a = vm.integer(i);
            return call("sym", {a});
        }
        default: {
            i64 k = c.t.range(-8, 8);
            text = sfmt("%lld.5", (long long) (k < 0 ? -k : k));
            if (k < 0) text = "-" + text;
            return vm.flt(k < 0 ? -(f64) -k - 0.5 : k + 0.5);
        }
        }
    }

    void op() {
        size_t i = pick();
        bool sl = es[i].k != Ent::builder;
        switch (c.t.weighted({3, 5, 3, 3, 2, 4, 2, 2, 5, 2, 2, 3, 3, 1, 2, 2})) {
        case 0: {
            std::string s = bytes();
            log(sfmt("#%zu = string ", es.size()) + quote(s));
            add({Ent::string, s}, vm.string(s));
            return;
        }
        case 1: { // slice
            i64 a = arg(es[i].s.size()), b = arg(es[i].s.size());
            log(sfmt("#%zu = #%zu.slice(%lld, %lld)", es.size(), i, (long long) a, (long long) b));
            H ha = vm.integer(a), hb = vm.integer(b);
            if (!sl) return must_panic("slice", {hs[i], ha, hb});
            if (es[i].k == Ent::slice) ++slices_of_slices;
            Ent e{Ent::slice, sub(es[i].s, a, b)};
            if (es[i].k == Ent::string && c.t.chance(1, 3)) return add(e, call("unbound", {hs[i], ha, hb}));
            add(e, call("slice", {hs[i], ha, hb}));
            return;
        }
        case 2: {
            i64 a = arg(es[i].s.size());
            log(sfmt("#%zu = #%zu.slice_first(%lld)", es.size(), i, (long long) a));
            H ha = vm.integer(a);
            if (!sl) return must_panic("slice_first", {hs[i], ha});
            if (es[i].k == Ent::slice) ++slices_of_slices;
            bool bound = c.t.chance(1, 4);
            add({Ent::slice, sub(es[i].s, 0, a)}, call(bound ? "bound" : "slice_first", {hs[i], ha}));
            return;
        }
        case 3: {
            i64 a = arg(es[i].s.size());
            log(sfmt("#%zu = #%zu.slice_last(%lld)", es.size(), i, (long long) a));
            H ha = vm.integer(a);
            if (!sl) return must_panic("slice_last", {hs[i], ha});
            if (es[i].k == Ent::slice) ++slices_of_slices;
            size_t k = std::min(u(a), es[i].s.size());
            add({Ent::slice, es[i].s.substr(es[i].s.size() - k)}, call("slice_last", {hs[i], ha}));
            return;
        }
        case 4: {
            log(sfmt("#%zu = #%zu.to_string()", es.size(), i));
            if (es[i].k == Ent::string) return must_panic("to_string", {hs[i]});
            add({Ent::string, es[i].s}, call("to_string", {hs[i]}));
            return;
        }
        case 5: { // contains
            size_t n = pick();
            std::string needle;
            H nh(vm);
            if (c.t.chance(1, 2)) {
                // a piece of the text, possibly changed
                size_t a = c.t.below(es[i].s.size() + 1);
                needle = es[i].s.substr(a, c.t.below(8));
                if (c.t.chance(1, 3)) needle += c.t.chance(1, 2) ? "b" : "a";
                log(sfmt("#%zu.contains(", i) + quote(needle) + ")");
                nh = vm.string(needle);
            } else {
                log(sfmt("#%zu.contains(#%zu)", i, n));
                MUST(tiro_value_copy(vm, hs[n], nh, must));
                if (es[n].k == Ent::builder) return must_panic("contains", {hs[i], nh});
                needle = es[n].s;
            }
            bool want = needle.empty();
            for (size_t k = 0; !want && k + needle.size() <= es[i].s.size(); ++k) want = memcmp(es[i].s.data() + k, needle.data(), needle.size()) == 0;
            found += want && !needle.empty();
            H r = call("contains", {hs[i], nh});
            expect_bool(r, want, "contains");
            return;
        }
        case 6: {
            log(sfmt("read #%zu", i));
            verify_deep(i);
            return;
        }
        case 7: {
            log(sfmt("#%zu = builder", es.size()));
            add({Ent::builder, ""}, call("builder", {}));
            return;
        }
        case 8: { // append
            std::vector<size_t> bs;
            for (size_t k = 0; k < es.size(); ++k)
                if (es[k].k == Ent::builder) bs.push_back(k);
            if (bs.empty()) {
                log(sfmt("#%zu.append()", i));
                return must_panic("append0", {hs[i]});
            }
            i = c.t.pick(bs);
            size_t n = c.t.below(4);
            std::vector<H> a;
            std::vector<tiro_handle_t> args{hs[i]};
            std::string add_s, d;
            for (size_t k = 0; k < n; ++k) {
                std::string text;
                bool empty;
                a.push_back(plain(text, empty));
                add_s += text;
                d += (k ? ", " : "") + quote(text);
            }
            for (auto& h : a) args.push_back(h);
            log(sfmt("#%zu.append(", i) + d + ")");
            H r = call(sfmt("append%zu", n), args);
            if (tiro_value_kind(vm, r) != TIRO_KIND_NULL) fail("append returns " + vm.show(r));
            if (es[i].s.size() <= 64 && es[i].s.size() + add_s.size() > 64) ++grows;
            es[i].s += add_s;
            verify(i);
            return;
        }
        case 9: { // append_byte
            i64 b = c.t.chance(1, 6) ? c.t.pick<i64>({-1, 256, 1 << 20, INT64_MIN, INT64_MAX}) : (i64) c.t.below(256);
            log(sfmt("#%zu.append_byte(%lld)", i, (long long) b));
            H hb = vm.integer(b);
            if (sl || b < 0 || b > 255) return must_panic("append_byte", {hs[i], hb});
            call("append_byte", {hs[i], hb});
            es[i].s += (char) b;
            verify(i);
            return;
        }
        case 10: {
            log(sfmt("#%zu.clear()", i));
            if (sl) return must_panic("clear", {hs[i]});
            call("clear", {hs[i]});
            es[i].s.clear();
            verify(i);
            return;
        }
        case 11: { // interpolation
            std::string x, y, z;
            bool e;
            H a = plain(x, e), b = plain(y, e), d = plain(z, e);
            size_t k = c.t.below(4);
            static const char* f[] = {"interp1", "interp2", "interp3", "nested"};
            log(sfmt("#%zu = %s(", es.size(), f[k]) + quote(x) + ", " + quote(y) + ", " + quote(z) + ")");
            std::vector<tiro_handle_t> args{a, b, d};
            args.resize(k == 0 ? 1 : k == 2 ? 3 : 2);
            std::string want = k == 0 ? x : k == 1 ? "<" + x + "|" + y + ">" : k == 2 ? x + y + "-q" + z : "ab" + x + "cd" + y;
            if (want.size() > 2000) c.discard();
            add({Ent::string, want}, call(f[k], args));
            return;
        }
        case 12: { // equality, as operator and as map key
            size_t j = pick();
            if (c.t.chance(1, 2)) { // prefer equal contents
                for (size_t k = 0; k < es.size(); ++k)
                    if (k != i && es[k].s == es[i].s && es[k].k != Ent::builder) { j = k; break; }
            }
            log(sfmt("#%zu == #%zu", i, j));
            bool want = i == j || (sl && es[j].k != Ent::builder && es[i].s == es[j].s);
            H r = call("eq", {hs[i], hs[j]});
            std::string exp = want ? "(true, false, true, false)" : "(false, true, false, true)";
            if (vm.show(r) != exp) fail(vm.show(r) + ", expected " + exp);
            H q = call("key", {hs[i], hs[j]});
            exp = want ? "(1, 2, true)" : "(2, 1, true)";
            if (vm.show(q) != exp) fail("as map keys: " + vm.show(q) + ", expected " + exp);
            return;
        }
        case 13: { // wrong argument types
            H bad = c.t.chance(1, 2) ? vm.string("1") : c.t.chance(1, 2) ? vm.flt(1.0) : vm.null();
            H one = vm.integer(1);
            log(sfmt("bad arguments for #%zu", i));
            if (sl) {
                must_panic("slice", {hs[i], bad, one});
                must_panic("slice", {hs[i], one, bad});
                must_panic("slice_first", {hs[i], bad});
                must_panic("slice_last", {hs[i], bad});
            } else {
                must_panic("append_byte", {hs[i], bad});
                must_panic("collect", {hs[i]});
            }
            must_panic("contains", {hs[i], one});
            verify(i);
            return;
        }
        case 14: { // a chain of slices
            i64 a = arg(es[i].s.size()), b = arg(es[i].s.size()), p = arg(es[i].s.size()), q = arg(es[i].s.size());
            if (!sl) return;
            log(sfmt("#%zu = #%zu.slice(%lld, %lld).slice_first(%lld).slice_last(%lld)", es.size(), i, (long long) a, (long long) b, (long long) p, (long long) q));
            H ha = vm.integer(a), hb = vm.integer(b), hp = vm.integer(p), hq = vm.integer(q);
            std::string s = sub(sub(es[i].s, a, b), 0, p);
            s = s.substr(s.size() - std::min(s.size(), u(q)));
            ++slices_of_slices;
            add({Ent::slice, s}, call("chain", {hs[i], ha, hb, hp, hq}));
            return;
        }
        default: { // many appends
            for (size_t k = 0; sl && k < es.size(); ++k)
                if (es[k].k == Ent::builder) i = k, sl = false;
            if (sl || es[i].s.size() > 2000) return;
            std::string x;
            bool e;
            H h = plain(x, e);
            if (x.size() > 40) return;
            i64 n = c.t.below(60);
            log(sfmt("append to #%zu %lld times ", i, (long long) n) + quote(x));
            H hn = vm.integer(n);
            call("append_loop", {hs[i], h, hn});
            if (es[i].s.size() <= 64 && es[i].s.size() + x.size() * n > 64) ++grows;
            for (i64 k = 0; k < n; ++k) es[i].s += x;
            verify(i);
            return;
        }
        }
    }
};

void history(Case& c) {
    Run r{c};
    auto& lit = r.w.fns;
    (void) lit;
    H ls = [&] { H h(r.vm); MUST(tiro_value_copy(r.vm, r.w.fn("literals"), h, must)); return h; }();
    size_t nl = 1 + c.t.below(3);
    for (size_t k = 0; k < nl; ++k) {
        size_t i = c.t.below(literals.size());
        H x(r.vm);
        MUST(tiro_array_get(r.vm, ls, i, x, must));
        r.log(sfmt("#%zu = literal ", r.es.size()) + quote(literals[i]));
        r.add({Ent::string, literals[i]}, std::move(x));
    }
    std::string s = r.bytes();
    r.log(sfmt("#%zu = string ", r.es.size()) + quote(s));
    r.add({Ent::string, s}, r.vm.string(s));
    if (c.t.chance(1, 2)) {
        r.log(sfmt("#%zu = builder", r.es.size()));
        r.add({Ent::builder, ""}, r.call("builder", {}));
    }
    size_t n = 2 + c.t.size(40);
    for (size_t k = 0; k < n; ++k) r.op();
    // nothing that happened later may have changed an earlier value
    r.log("final contents");
    for (size_t k = 0; k < r.es.size(); ++k) r.verify(k);
    r.verify_deep(c.t.below(r.es.size()));
    c.label("histories with slices of slices", r.slices_of_slices > 0);
    c.label("histories with clamped slice arguments", r.clamped > 0);
    c.label("histories in which a builder outgrew its first buffer", r.grows > 0);
    c.label("histories with a successful non-empty search", r.found > 0);
    c.label("histories with rejected operations", r.panics > 0);
    c.nontrivial = n >= 5 && r.es.size() >= 4;
}

} // namespace

int main(int argc, char** argv) {
    pbt::Runner r("C07", "at least five operations on at least four values", {
        Suite{"history", 100000, 3000000, history},
    });
    return r.main(argc, argv);
}
