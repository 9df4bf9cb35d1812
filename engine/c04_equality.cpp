// C04: equality, ordering and hashing of generated value pools against an exact oracle.
#include "tiro_util.hpp"

using namespace tu;
using pbt::Case;
using pbt::Suite;

namespace {

struct Val {
    enum Kind { null, boolean, integer, flt, str, symbol, object } k = null;
    bool b = false;
    i64 i = 0;
    f64 f = 0;
    std::string s;
    int id = 0; // identity of objects
    std::string how;
    std::string show() const {
        switch (k) {
        case null: return "null";
        case boolean: return b ? "true" : "false";
        case integer: return sfmt("%lld", (long long) i);
        case flt: return std::isnan(f) ? "nan" : sfmt("%.17g(%a)", f, f);
        case str: {
            std::string r = how + "\"";
            for (unsigned char c : s) r += c < 32 || c > 126 ? sfmt("\\x%02x", c) : std::string(1, c);
            return r + "\"";
        }
        case symbol: return "#" + s;
        default: return sfmt("%s#%d", how.c_str(), id);
        }
    }
    bool num() const { return k == integer || k == flt; }
};

// exact comparison of numbers; 2: unordered
int cmp_if(i64 a, f64 b) {
    if (std::isnan(b)) return 2;
    if (b >= 9223372036854775808.0) return -1;
    if (b < -9223372036854775808.0) return 1;
    f64 t = std::trunc(b);
    i64 bi = (i64) t;
    if (a != bi) return a < bi ? -1 : 1;
    return b > t ? -1 : b < t ? 1 : 0;
}
int cmp_num(const Val& a, const Val& b) {
    if (a.k == Val::integer && b.k == Val::integer) return a.i < b.i ? -1 : a.i > b.i;
    if (a.k == Val::integer) return cmp_if(a.i, b.f);
    if (b.k == Val::integer) {
        int c = cmp_if(b.i, a.f);
        return c == 2 ? 2 : -c;
    }
    if (std::isnan(a.f) || std::isnan(b.f)) return 2;
    return a.f < b.f ? -1 : a.f > b.f;
}
bool equal(const Val& a, const Val& b) {
    if (a.num() && b.num()) return cmp_num(a, b) == 0;
    if (a.k != b.k) return false;
    switch (a.k) {
    case Val::null: return true;
    case Val::boolean: return a.b == b.b;
    case Val::str:
    case Val::symbol: return a.s == b.s;
    default: return a.id == b.id;
    }
}
// comparison result: -1 0 1, 2 unordered, 3 panic
int order(const Val& a, const Val& b) {
    if (a.k == Val::null) return b.k == Val::null ? 0 : -1;
    if (b.k == Val::null) return 1;
    if (!a.num() || !b.num()) return 3;
    return cmp_num(a, b);
}

const char* const lits[] = {"", "a", "b", "ab", "abc", "null", "1", "true", "aa", "ba", "x1", "\xc3\xa9"};
const char* const syms[] = {"a", "b", "ab", "null", "x1"};

struct World {
    Vm vm{256u << 20};
    H eq, ne, lt, le, gt, ge, build, slice, slice2, slice_str, interp, literal, symbol, boxes, map_probe, set_probe, map_many, self;
    int next_id = 1;
    World() {
        std::string s = R"(import std;
export func eq(a, b) = a == b;
export func ne(a, b) = a != b;
export func lt(a, b) = a < b;
export func le(a, b) = a <= b;
export func gt(a, b) = a > b;
export func ge(a, b) = a >= b;
export func build(p, q) { const b = std.new_string_builder(); b.append(p); b.append(q); return b.to_string(); }
export func slice(s, off, n) = s.slice(off, n);
export func slice2(s, x, off, n) = s.slice_last(s.size() - x).slice(off, n);
export func slice_str(s, off, n) = s.slice(off, n).to_string();
export func interp(p, q) = "$p$q";
export func box(i) {
    if i == 0 { return [1]; }
    if i == 1 { return map{1: 1}; }
    if i == 2 { return set{1}; }
    if i == 3 { return (x: 1); }
    if i == 4 { return std.new_buffer(2); }
    if i == 5 { return std.error(1); }
    if i == 6 { return std.new_string_builder(); }
    return func() = i;
}
// insertion under key a, lookup under key b
export func map_probe(a, b) {
    const m = map{};
    m[a] = "A";
    const before = m.contains(b);
    m[b] = "B";
    const size = m.size();
    const va = m[a];
    m.remove(b);
    return (before, size, va, m.contains(a), m.size());
}
export func set_probe(a, b) {
    const s = set{a};
    const before = s.contains(b);
    const added = s.insert(b);
    const size = s.size();
    s.remove(b);
    return (before, added, size, s.contains(a), s.size());
}
// all keys of the array: number of distinct keys, and the index of the last occurrence of an equal key
export func map_many(keys) {
    const m = map{};
    var i = 0;
    for k in keys { m[k] = i; i += 1; }
    const found = [];
    for k in keys { found.append(m[k]); }
    return (m.size(), found);
}
)";
        s += "export func literal(i) { const t = [";
        for (auto l : lits) s += sfmt("\"%s\", ", l);
        s += "]; return t[i]; }\nexport func symbol(i) { const t = [";
        for (auto l : syms) s += sfmt("#%s, ", l);
        s += "]; return t[i]; }\n";
        Compiled c = compile("m", s);
        if (!c.ok()) throw Fail{"the harness module does not compile: " + c.errors()};
        vm.load(c);
        auto g = [&](const char* n) { return vm.get_export("m", n); };
        eq = g("eq"); ne = g("ne"); lt = g("lt"); le = g("le"); gt = g("gt"); ge = g("ge");
        build = g("build"); slice = g("slice"); slice2 = g("slice2"); slice_str = g("slice_str"); interp = g("interp");
        literal = g("literal"); symbol = g("symbol"); boxes = g("box");
        map_probe = g("map_probe"); set_probe = g("set_probe"); map_many = g("map_many");
    }
    H get(tiro_handle_t f, const std::vector<tiro_handle_t>& a) {
        auto r = vm.call(f, a);
        if (!r.ok()) throw Fail{"harness call failed: " + r.message};
        return std::move(r.value);
    }
};
World& world() {
    static World w;
    return w;
}

struct Made {
    Val v;
    H h;
};

std::string bytes(Case& c, int max) {
    std::string s;
    int n = c.t.below(max + 1);
    for (int i = 0; i < n; ++i) s += c.t.chance(1, 12) ? (char) c.t.below(256) : (char) ('a' + c.t.below(2));
    return s;
}

H make_string(Case& c, World& w, const std::string& s, std::string& how) {
    size_t cut = c.t.below(s.size() + 1);
    H p = w.vm.string(s.substr(0, cut)), q = w.vm.string(s.substr(cut));
    switch (c.t.below(7)) {
    case 0: how = "api "; return w.vm.string(s);
    case 1: how = "builder "; return w.get(w.build, {p, q});
    case 2: how = "interpolated "; return w.get(w.interp, {p, q});
    case 3:
    case 4:
    case 5: {
        std::string pre = bytes(c, 3), post = bytes(c, 3);
        H big = w.vm.string(pre + s + post);
        H off = w.vm.integer(pre.size()), n = w.vm.integer(s.size());
        switch (c.t.below(3)) {
        case 0: how = "slice "; return w.get(w.slice, {big, off, n});
        case 1: how = "slice.to_string "; return w.get(w.slice_str, {big, off, n});
        default: {
            how = "slice of slice ";
            size_t x = c.t.below(pre.size() + 1);
            H hx = w.vm.integer(x), o2 = w.vm.integer(pre.size() - x);
            return w.get(w.slice2, {big, hx, o2, n});
        }
        }
    }
    default:
        for (size_t i = 0; i < sizeof lits / sizeof *lits; ++i)
            if (s == lits[i]) {
                how = "literal ";
                H idx = w.vm.integer(i);
                return w.get(w.literal, {idx});
            }
        how = "api ";
        return w.vm.string(s);
    }
}

// values near (or equal to) an earlier one are likely
Made make(Case& c, World& w, const std::vector<Made>& pool) {
    Made m;
    Val& v = m.v;
    const Val* near = !pool.empty() && c.t.chance(2, 3) ? &pool[c.t.below(pool.size())].v : nullptr;
    if (near && near->num() && (near->k == Val::integer || std::isfinite(near->f))) {
        if (c.t.chance(1, 2)) {
            v.k = Val::flt;
            v.f = near->k == Val::integer ? (f64) near->i : near->f;
            switch (c.t.below(4)) {
            case 1: v.f = std::nextafter(v.f, INFINITY); break;
            case 2: v.f = std::nextafter(v.f, -INFINITY); break;
            case 3: v.f += 0.5; break;
            }
        } else {
            v.k = Val::integer;
            if (near->k == Val::integer) v.i = near->i;
            else if (near->f >= 9223372036854775808.0) v.i = INT64_MAX;
            else if (near->f < -9223372036854775808.0) v.i = INT64_MIN;
            else v.i = (i64) near->f;
            v.i = (i64) ((u64) v.i + (u64) c.t.range(-1, 1));
        }
        m.h = v.k == Val::flt ? w.vm.flt(v.f) : w.vm.integer(v.i);
        return m;
    }
    if (near && near->k == Val::str) {
        v.k = Val::str;
        v.s = near->s;
        switch (c.t.below(4)) {
        case 0:
        case 1: break;
        case 2: v.s += 'a'; break;
        case 3:
            if (!v.s.empty()) v.s[c.t.below(v.s.size())] ^= 1 << c.t.below(8);
            break;
        }
        m.h = make_string(c, w, v.s, v.how);
        return m;
    }
    if (near && near->k == Val::object && c.t.chance(1, 2)) {
        v = *near;
        m.h = w.vm.h();
        for (auto& p : pool)
            if (&p.v == near) tiro_value_copy(w.vm, p.h, m.h, nullptr);
        return m;
    }
    switch (c.t.weighted({6, 5, 6, 1, 1, 2, 2})) {
    case 0:
        v.k = Val::integer;
        v.i = c.t.any_i64();
        m.h = w.vm.integer(v.i);
        break;
    case 1:
        v.k = Val::flt;
        v.f = c.t.any_f64();
        m.h = w.vm.flt(v.f);
        break;
    case 2:
        v.k = Val::str;
        v.s = c.t.chance(1, 3) ? std::string(lits[c.t.below(sizeof lits / sizeof *lits)]) : bytes(c, c.t.chance(1, 6) ? 60 : 5);
        m.h = make_string(c, w, v.s, v.how);
        break;
    case 3:
        v.k = Val::null;
        m.h = w.vm.null();
        break;
    case 4:
        v.k = Val::boolean;
        v.b = c.t.chance(1, 2);
        m.h = w.vm.boolean(v.b);
        break;
    case 5: {
        v.k = Val::symbol;
        int i = c.t.below(5);
        v.s = syms[i];
        H idx = w.vm.integer(i);
        m.h = w.get(w.symbol, {idx});
        break;
    }
    default: {
        v.k = Val::object;
        int i = c.t.below(8);
        static const char* const names[] = {"array", "map", "set", "record", "buffer", "result", "builder", "function"};
        v.how = names[i];
        v.id = w.next_id++;
        H idx = w.vm.integer(i);
        m.h = w.get(w.boxes, {idx});
    }
    }
    return m;
}

bool is_nan(const Val& v) { return v.k == Val::flt && std::isnan(v.f); }

void pool(Case& c) {
    World& w = world();
    w.next_id = 1;
    std::vector<Made> p;
    int n = 2 + c.t.below(8);
    for (int i = 0; i < n; ++i) {
        p.push_back(make(c, w, p));
        c.add(p.back().v.show() + "\n");
    }
    auto boolean = [&](tiro_handle_t f, const Made& a, const Made& b, const char* op) -> int {
        auto r = w.vm.call(f, {a.h, b.h});
        if (r.kind == CallResult::panic) return 2;
        if (!r.ok()) c.fail(a.v.show() + op + b.v.show() + " failed: " + r.message);
        if (tiro_value_kind(w.vm, r.value) != TIRO_KIND_BOOLEAN) c.fail(std::string("result of") + op + "is no boolean");
        return tiro_boolean_value(w.vm, r.value);
    };
    u64 equal_pairs = 0, mixed = 0;
    for (auto& a : p)
        for (auto& b : p) {
            bool want = equal(a.v, b.v);
            auto chk = [&](tiro_handle_t f, const char* op, int expect) {
                int got = boolean(f, a, b, op);
                if (got != expect)
                    c.fail(a.v.show() + op + b.v.show() + ": " + (got == 2 ? "panic" : got ? "true" : "false") + ", expected " + (expect == 2 ? "panic" : expect ? "true" : "false"));
            };
            chk(w.eq, " == ", want);
            chk(w.ne, " != ", !want);
            if (&a != &b && want) ++equal_pairs;
            if (&a != &b && want && a.v.k == Val::integer && b.v.k == Val::flt) ++mixed;
            int o = order(a.v, b.v);
            chk(w.lt, " < ", o == 3 ? 2 : o == -1);
            chk(w.le, " <= ", o == 3 ? 2 : o == -1 || o == 0);
            chk(w.gt, " > ", o == 3 ? 2 : o == 1);
            chk(w.ge, " >= ", o == 3 ? 2 : o == 1 || o == 0);
            // the C API's notion of sameness must not contradict: identical handles are equal
            if (is_nan(a.v) || is_nan(b.v)) continue;
            if (c.t.chance(2, 3)) continue;
            auto r = w.vm.call(w.map_probe, {a.h, b.h});
            if (!r.ok()) c.fail("map with keys " + a.v.show() + " and " + b.v.show() + ": " + r.message);
            std::string got = w.vm.show(r.value), exp = want ? "(true, 1, \"B\", false, 0)" : "(false, 2, \"A\", true, 1)";
            if (got != exp) c.fail("map keys " + a.v.show() + ", " + b.v.show() + ": " + got + ", expected " + exp);
            auto q = w.vm.call(w.set_probe, {a.h, b.h});
            if (!q.ok()) c.fail("set with " + a.v.show() + " and " + b.v.show() + ": " + q.message);
            got = w.vm.show(q.value);
            exp = want ? "(true, false, 1, false, 0)" : "(false, true, 2, true, 1)";
            if (got != exp) c.fail("set members " + a.v.show() + ", " + b.v.show() + ": " + got + ", expected " + exp);
        }
    // all values as keys of one map
    {
        std::vector<const Made*> keys;
        for (auto& a : p)
            if (!is_nan(a.v)) keys.push_back(&a);
        H arr(w.vm);
        MUST(tiro_make_array(w.vm, 0, arr, must));
        for (auto* k : keys) MUST(tiro_array_push(w.vm, arr, k->h, must));
        auto r = w.vm.call(w.map_many, {arr});
        if (!r.ok()) c.fail("map of all values: " + r.message);
        std::vector<int> last(keys.size());
        int distinct = 0;
        for (size_t i = 0; i < keys.size(); ++i) {
            bool first = true;
            for (size_t j = 0; j < keys.size(); ++j)
                if (equal(keys[i]->v, keys[j]->v)) {
                    last[i] = j;
                    if (j < i) first = false;
                }
            distinct += first;
        }
        std::string exp = sfmt("(%d, [", distinct);
        for (size_t i = 0; i < last.size(); ++i) exp += sfmt(i ? ", %d" : "%d", last[i]);
        exp += "])";
        std::string got = w.vm.show(r.value);
        if (got != exp) c.fail("map of all values: " + got + ", expected " + exp);
    }
    c.label("pools with equal values built differently", equal_pairs > 0);
    c.label("pools with an integer equal to a float", mixed > 0);
    c.nontrivial = true;
}

} // namespace

int main(int argc, char** argv) {
    pbt::Runner r("C04", "every pool has at least two values; all ordered pairs are compared", {
        Suite{"pool", 16000, 800000, pool},
    });
    return r.main(argc, argv);
}
