// C05: maps and sets against an insertion-ordered dictionary model.
#include "tiro_util.hpp"

using namespace tu;
using pbt::Case;
using pbt::Suite;

namespace {

const char* SRC = R"tiro(
import std;
export func new_map() = map{};
export func new_set() = set{};
export func put(m, k, v) { m[k] = v; return 0; }
export func get(m, k) = m[k];
export func mhas(m, k) = m.contains(k);
export func del(m, k) = m.remove(k);
export func msize(m) = m.size();
export func mclear(m) = m.clear();
export func keys(m) { const r = []; for k in m.keys() { r.append(k); } return r; }
export func values(m) { const r = []; for v in m.values() { r.append(v); } return r; }
export func items(m) { const r = []; for kv in m { r.append(kv); } return r; }
export func sput(s, k) = s.insert(k);
export func sitems(s) { const r = []; for k in s { r.append(k); } return r; }
export func fill(m, a, n, step, v) { for var i = 0; i < n; i += 1 { m[a + i * step] = v + i; } return 0; }
export func unfill(m, a, n, step) { for var i = 0; i < n; i += 1 { m.remove(a + i * step); } return 0; }
export func sfill(m, a, n, step) { var c = 0; for var i = 0; i < n; i += 1 { if m.insert(a + i * step) { c += 1; } } return c; }
export func check_range(m, a, n, step) { var c = 0; for var i = 0; i < n; i += 1 { if m.contains(a + i * step) { c += 1; } } return c; }
export func slice_of(s, a, n) = s.slice(a, n);
export func sym(i) { const l = [#a, #b, #c, #foo, #"with_underscore"]; return 0; }
export func syms() = [#a, #b, #c, #foo, #with_underscore];
// iteration with a scripted change per step: ops is an array of (op, key, value)
export func wild(m, ops, limit) {
    const seen = [];
    var n = 0;
    for (k, v) in m {
        seen.append((n, k, v));
        if n >= limit { break; }
        const (op, a, b) = ops[n];
        if op == 1 { m[a] = b; }
        if op == 2 { m.remove(a); }
        if op == 3 { m.clear(); }
        n += 1;
    }
    return seen;
}
)tiro";

std::string fix_src() {
    std::string s = SRC;
    auto p = s.find("export func sym(i)");
    auto e = s.find('\n', p);
    s.erase(p, e - p + 1);
    return s;
}

const Compiled& program() {
    static Compiled c = compile("main", fix_src());
    if (!c.ok()) throw Fail{"harness program does not compile: " + c.errors()};
    return c;
}

struct Key {
    std::string canon; // equality class
    H value;
    std::string text;
};

struct Model {
    std::vector<std::pair<std::string, std::string>> entries; // canonical key -> shown value
    std::map<std::string, size_t> idx;
    bool has(const std::string& k) const { return idx.count(k); }
    // An overwrite keeps the stored key (1 and 1.0 are equal, but not the same).
    void put(const std::string& k, const std::string& v, const std::string& form) {
        auto it = idx.find(k);
        if (it != idx.end()) entries[it->second].second = v;
        else { idx[k] = entries.size(); entries.push_back({k, v}); forms.push_back(form); live++; }
    }
    bool del(const std::string& k) {
        auto it = idx.find(k);
        if (it == idx.end()) return false;
        entries[it->second].first.clear(); // dead
        dead.insert(it->second);
        idx.erase(it);
        live--;
        return true;
    }
    void clear() { entries.clear(); forms.clear(); idx.clear(); dead.clear(); live = 0; }
    std::vector<std::pair<std::string, std::string>> list() const {
        std::vector<std::pair<std::string, std::string>> r;
        for (size_t i = 0; i < entries.size(); ++i)
            if (!dead.count(i)) r.push_back({entries[i].first + "~" + forms[i], entries[i].second});
        return r;
    }
    std::vector<std::string> forms;
    std::set<size_t> dead;
    size_t live = 0;
};

// canonical name of the equality class of a number
std::string canon_int(i64 v) { return sfmt("n%lld", (long long) v); }
std::string canon_float(f64 f) {
    if (f >= -9223372036854775808.0 && f < 9223372036854775808.0 && f == std::trunc(f)) return canon_int((i64) f);
    return sfmt("f%a", f);
}

struct World {
    Case& c;
    Vm vm{64u << 20};
    std::map<std::string, H> fns;
    std::vector<Key> keys;
    std::vector<std::string> text_lines;
    explicit World(Case& c)
        : c(c) {
        vm.load(program());
        for (auto n : {"new_map", "new_set", "put", "get", "mhas", "del", "msize", "mclear", "keys", "values", "items", "sput",
                 "sitems", "fill", "unfill", "sfill", "check_range", "slice_of", "syms", "wild"})
            fns[n] = vm.get_export("main", n);
    }
    H call(const char* fn, const std::vector<tiro_handle_t>& args) {
        auto r = vm.call(fns[fn], args);
        if (!r.ok()) c.fail(std::string(fn) + " failed: " + r.message);
        return std::move(r.value);
    }
    // Equality class of a value found in the map. Identity keys are found by comparing with the pool through the API.
    std::string canon(tiro_handle_t v) {
        switch (tiro_value_kind(vm, v)) {
        case TIRO_KIND_NULL: return "null";
        case TIRO_KIND_BOOLEAN: return tiro_boolean_value(vm, v) ? "true" : "false";
        case TIRO_KIND_INTEGER: return canon_int(tiro_integer_value(vm, v));
        case TIRO_KIND_FLOAT: return canon_float(tiro_float_value(vm, v));
        case TIRO_KIND_STRING: return "s" + vm.text(v);
        default: {
            for (auto& k : keys)
                if (tiro_value_same(vm, k.value, v)) return k.canon;
            // slices are converted by text
            std::string t = vm.to_text(v);
            for (auto& k : keys)
                if (k.text.rfind("slice", 0) == 0 && k.canon == "s" + t) return k.canon;
            return "?" + std::string(tiro_kind_str(tiro_value_kind(vm, v)));
        }
        }
    }
    std::string form(tiro_handle_t v) {
        auto k = tiro_value_kind(vm, v);
        return std::string(tiro_kind_str(k)) + (k == TIRO_KIND_FLOAT ? sfmt(" %a", tiro_float_value(vm, v)) : "");
    }
    std::string exact(tiro_handle_t v) { return canon(v) + "~" + form(v); }
    void add_key(Key k) { keys.push_back(std::move(k)); }
    void random_key() {
        auto& t = c.t;
        switch (t.weighted({8, 3, 4, 2, 2, 1, 2})) {
        case 0: {
            i64 v = t.chance(1, 3) ? t.any_i64() : t.range(-40, 40) * t.pick<i64>({1, 1, 6, 8, 16, 256});
            add_key({canon_int(v), vm.integer(v), sfmt("%lld", (long long) v)});
            break;
        }
        case 1: {
            f64 v = t.chance(1, 2) ? (f64) t.range(-10, 10) : t.any_f64();
            if (v != v) v = 0.5;
            add_key({canon_float(v), vm.flt(v), sfmt("float %a", v)});
            break;
        }
        case 2: {
            std::string s;
            for (size_t i = t.below(5); i-- > 0;) s += "abAB\0\x80z9"[t.below(8)];
            if (t.chance(1, 8)) s += std::string(t.below(60), 'x');
            add_key({"s" + s, vm.string(s), "string '" + s + "'"});
            break;
        }
        case 3: {
            std::string s;
            for (size_t i = 1 + t.below(6); i-- > 0;) s += "ab"[t.below(2)];
            size_t a = t.below(s.size()), n = t.below(s.size() - a + 1);
            H h = call("slice_of", {vm.string(s), vm.integer(a), vm.integer(n)});
            add_key({"s" + s.substr(a, n), std::move(h), "slice '" + s.substr(a, n) + "'"});
            break;
        }
        case 4: {
            std::string id = sfmt("object#%zu", keys.size());
            add_key({id, vm.tuple({}), id});
            break;
        }
        case 5: {
            bool b = t.below(2);
            if (t.below(2)) add_key({b ? "true" : "false", vm.boolean(b), b ? "true" : "false"});
            else add_key({"null", vm.null(), "null"});
            break;
        }
        default: {
            H l = call("syms", {});
            size_t i = t.below(5);
            H k(vm);
            MUST(tiro_array_get(vm, l, i, k, must));
            add_key({sfmt("sym%zu", i), std::move(k), sfmt("symbol %zu", i)});
        }
        }
    }
    // array result as list of shown items
    template<typename F>
    void each(tiro_handle_t arr, F f) {
        for (size_t i = 0, n = tiro_array_size(vm, arr); i < n; ++i) {
            H x(vm);
            MUST(tiro_array_get(vm, arr, i, x, must));
            f(i, x);
        }
    }
    std::pair<std::string, std::string> kv(tiro_handle_t tup, size_t at = 0) {
        H k(vm), v(vm);
        MUST(tiro_tuple_get(vm, tup, at, k, must));
        MUST(tiro_tuple_get(vm, tup, at + 1, v, must));
        return {exact(k), vm.show(v)};
    }
};

std::string join(const std::vector<std::pair<std::string, std::string>>& l) {
    std::string r;
    for (auto& [k, v] : l) r += k + "=" + v + " ";
    return r;
}

void verify_map(World& w, tiro_handle_t m, const Model& mo, bool all_keys) {
    auto& c = w.c;
    H size = w.call("msize", {m});
    if (w.vm.show(size) != sfmt("%zu", mo.live)) c.fail(sfmt("size() is %s, expected %zu", w.vm.show(size).c_str(), mo.live));
    auto want = mo.list();
    std::vector<std::pair<std::string, std::string>> got;
    H items = w.call("items", {m});
    w.each(items, [&](size_t, H& x) { got.push_back(w.kv(x)); });
    if (got != want) c.fail("iteration yields " + join(got) + " expected " + join(want));
    H ks = w.call("keys", {m}), vs = w.call("values", {m});
    std::vector<std::string> gk, gv, wk, wv;
    w.each(ks, [&](size_t, H& x) { gk.push_back(w.exact(x)); });
    w.each(vs, [&](size_t, H& x) { gv.push_back(w.vm.show(x)); });
    for (auto& [k, v] : want) wk.push_back(k), wv.push_back(v);
    if (gk != wk) c.fail("keys() differ from the map");
    if (gv != wv) c.fail("values() differ from the map");
    if (all_keys)
        for (auto& k : w.keys) {
            H has = w.call("mhas", {m, k.value});
            if (tiro_boolean_value(w.vm, has) != mo.has(k.canon))
                c.fail("contains(" + k.text + ") is wrong, expected " + (mo.has(k.canon) ? "true" : "false"));
            H v = w.call("get", {m, k.value});
            std::string wantv = mo.has(k.canon) ? mo.entries[mo.idx.at(k.canon)].second : "null";
            if (w.vm.show(v) != wantv) c.fail("m[" + k.text + "] is " + w.vm.show(v) + ", expected " + wantv);
        }
}

void map_history(Case& c, size_t max_keys, size_t max_ops) {
    World w(c);
    auto& t = c.t;
    for (size_t n = 1 + t.size(max_keys); n-- > 0;) w.random_key();
    std::string d = "map keys:";
    for (auto& k : w.keys) d += " [" + k.text + "]";
    c.describe(d + "\n");
    H m = w.call("new_map", {});
    Model mo;
    size_t nops = 1 + t.below(max_ops);
    int removes = 0, collisions = 0;
    size_t peak = 0;
    for (size_t i = 0; i < nops; ++i) {
        Key& k = w.keys[t.below(w.keys.size())];
        switch (t.weighted({10, 5, 3, 3, 1, 1, 1, 1})) {
        case 0: {
            i64 v = i;
            c.add("put " + k.text + "\n");
            w.call("put", {m, k.value, w.vm.integer(v)});
            if (mo.has(k.canon)) ++collisions;
            mo.put(k.canon, sfmt("%lld", (long long) v), w.form(k.value));
            break;
        }
        case 1: {
            c.add("remove " + k.text + "\n");
            w.call("del", {m, k.value});
            removes += mo.del(k.canon);
            break;
        }
        case 2: {
            c.add("get " + k.text + "\n");
            H v = w.call("get", {m, k.value});
            std::string want = mo.has(k.canon) ? mo.entries[mo.idx[k.canon]].second : "null";
            if (w.vm.show(v) != want) c.fail("m[" + k.text + "] is " + w.vm.show(v) + ", expected " + want);
            break;
        }
        case 3: {
            c.add("contains " + k.text + "\n");
            H v = w.call("mhas", {m, k.value});
            if (w.vm.show(v) != (mo.has(k.canon) ? "true" : "false")) c.fail("contains(" + k.text + ") is " + w.vm.show(v));
            break;
        }
        case 4: {
            c.add("verify\n");
            verify_map(w, m, mo, true);
            break;
        }
        case 5: {
            if (!t.chance(1, 6)) break;
            c.add("clear\n");
            w.call("mclear", {m});
            mo.clear();
            break;
        }
        case 6: { // bulk
            i64 a = t.range(-20, 20), n = t.size(300), step = t.pick<i64>({1, 1, 2, 8, 64, 1024});
            if (t.chance(2, 3)) {
                c.add(sfmt("fill from %lld count %lld step %lld\n", (long long) a, (long long) n, (long long) step));
                w.call("fill", {m, w.vm.integer(a), w.vm.integer(n), w.vm.integer(step), w.vm.integer(i)});
                for (i64 j = 0; j < n; ++j) mo.put(canon_int(a + j * step), sfmt("%lld", (long long) (i + j)), tiro_kind_str(TIRO_KIND_INTEGER));
            } else {
                c.add(sfmt("unfill from %lld count %lld step %lld\n", (long long) a, (long long) n, (long long) step));
                w.call("unfill", {m, w.vm.integer(a), w.vm.integer(n), w.vm.integer(step)});
                for (i64 j = 0; j < n; ++j) removes += mo.del(canon_int(a + j * step));
            }
            break;
        }
        default: { // scripted changes while iterating
            size_t limit = t.below(8);
            H ops(w.vm);
            MUST(tiro_make_array(w.vm, limit, ops, must));
            std::vector<std::pair<int, size_t>> script;
            std::string s = "iterate with";
            for (size_t j = 0; j < limit; ++j) {
                int op = t.weighted({2, 4, 4, 1});
                size_t kk = t.below(w.keys.size());
                script.push_back({op, kk});
                s += sfmt(" (%s %s)", op == 0 ? "nothing" : op == 1 ? "put" : op == 2 ? "remove" : "clear", w.keys[kk].text.c_str());
                H tup = w.vm.tuple({w.vm.integer(op), w.keys[kk].value, w.vm.integer(1000 + j)});
                MUST(tiro_array_push(w.vm, ops, tup, must));
            }
            c.add(s + "\n");
            H seen = w.call("wild", {m, ops, w.vm.integer(limit)});
            size_t step = 0;
            w.each(seen, [&](size_t j, H& x) {
                auto [k2, v2] = w.kv(x, 1);
                k2.erase(k2.rfind('~'));
                if (!mo.has(k2) || mo.entries[mo.idx[k2]].second != v2)
                    c.fail(sfmt("iteration step %zu yields an entry that is not in the map: ", j) + k2 + "=" + v2);
                if (j < script.size()) {
                    auto& kk = w.keys[script[j].second];
                    if (script[j].first == 1) mo.put(kk.canon, sfmt("%zu", 1000 + j), w.form(kk.value));
                    if (script[j].first == 2) removes += mo.del(kk.canon);
                    if (script[j].first == 3) mo.clear();
                }
                ++step;
            });
            c.label("iteration with changes");
            break;
        }
        }
        peak = std::max(peak, mo.live);
    }
    verify_map(w, m, mo, true);
    c.label("maps with removals", removes > 0);
    c.label("maps overwriting keys", collisions > 0);
    c.label("maps above 6 entries", peak > 6);
    c.label("maps above 191 entries (16 bit index)", peak > 191);
    c.nontrivial = removes > 0 && peak > 2;
}

void set_history(Case& c) {
    World w(c);
    auto& t = c.t;
    for (size_t n = 1 + t.size(40); n-- > 0;) w.random_key();
    std::string d = "set keys:";
    for (auto& k : w.keys) d += " [" + k.text + "]";
    c.describe(d + "\n");
    H s = w.call("new_set", {});
    Model mo;
    size_t nops = 1 + t.below(80), peak = 0;
    int removes = 0;
    auto verify = [&] {
        H size = w.call("msize", {s});
        if (w.vm.show(size) != sfmt("%zu", mo.live)) c.fail("size() of the set is " + w.vm.show(size));
        std::vector<std::string> got, want;
        H items = w.call("sitems", {s});
        w.each(items, [&](size_t, H& x) { got.push_back(w.exact(x)); });
        for (auto& [k, v] : mo.list()) want.push_back(k);
        if (got != want) c.fail("iteration over the set is wrong");
        for (auto& k : w.keys) {
            H has = w.call("mhas", {s, k.value});
            if (tiro_boolean_value(w.vm, has) != mo.has(k.canon)) c.fail("contains(" + k.text + ") is wrong");
        }
    };
    for (size_t i = 0; i < nops; ++i) {
        Key& k = w.keys[t.below(w.keys.size())];
        switch (t.weighted({10, 5, 3, 1, 1, 1})) {
        case 0: {
            c.add("insert " + k.text + "\n");
            H r = w.call("sput", {s, k.value});
            if (w.vm.show(r) != (mo.has(k.canon) ? "false" : "true")) c.fail("insert(" + k.text + ") returned " + w.vm.show(r));
            mo.put(k.canon, "", w.form(k.value));
            break;
        }
        case 1:
            c.add("remove " + k.text + "\n");
            w.call("del", {s, k.value});
            removes += mo.del(k.canon);
            break;
        case 2: {
            c.add("contains " + k.text + "\n");
            H v = w.call("mhas", {s, k.value});
            if (w.vm.show(v) != (mo.has(k.canon) ? "true" : "false")) c.fail("contains(" + k.text + ") is " + w.vm.show(v));
            break;
        }
        case 3:
            if (!t.chance(1, 4)) break;
            c.add("clear\n");
            w.call("mclear", {s});
            mo.clear();
            break;
        case 4: {
            i64 a = t.range(-20, 20), n = t.size(300), step = t.pick<i64>({1, 2, 8, 256});
            c.add(sfmt("fill from %lld count %lld step %lld\n", (long long) a, (long long) n, (long long) step));
            H r = w.call("sfill", {s, w.vm.integer(a), w.vm.integer(n), w.vm.integer(step)});
            size_t before = mo.live;
            for (i64 j = 0; j < n; ++j) mo.put(canon_int(a + j * step), "", tiro_kind_str(TIRO_KIND_INTEGER));
            if (w.vm.show(r) != sfmt("%zu", mo.live - before)) c.fail("insert reported a wrong number of new elements");
            break;
        }
        default: verify();
        }
        peak = std::max(peak, mo.live);
    }
    verify();
    c.label("sets with removals", removes > 0);
    c.nontrivial = removes > 0 && peak > 2;
}

// growth into the 16 and 32 bit index classes, with removals
void big_map(Case& c) {
    World w(c);
    auto& t = c.t;
    i64 n = t.pick<i64>({150, 191, 192, 193, 200, 400, 3000, 49151, 49152, 49153, 50000, 70000});
    i64 step = t.pick<i64>({1, 3, 64, 65536}), a = t.range(-5, 5);
    c.describe(sfmt("big map: %lld keys from %lld step %lld", (long long) n, (long long) a, (long long) step));
    H m = w.call("new_map", {});
    auto I = [&](i64 v) { return w.vm.integer(v); };
    w.call("fill", {m, I(a), I(n), I(step), I(0)});
    auto expect = [&](const char* what, H&& got, i64 want) {
        if (w.vm.show(got) != sfmt("%lld", (long long) want)) c.fail(sfmt("%s is %s, expected %lld", what, w.vm.show(got).c_str(), (long long) want));
    };
    expect("size", w.call("msize", {m}), n);
    expect("number of keys found", w.call("check_range", {m, I(a), I(n), I(step)}), n);
    // remove a stretch, then check both parts
    i64 from = t.below(n), cnt = t.below(n - from) + 1;
    c.add(sfmt(", remove %lld from index %lld", (long long) cnt, (long long) from));
    w.call("unfill", {m, I(a + from * step), I(cnt), I(step)});
    expect("size after removal", w.call("msize", {m}), n - cnt);
    expect("removed keys still found", w.call("check_range", {m, I(a + from * step), I(cnt), I(step)}), 0);
    expect("remaining keys found", w.call("check_range", {m, I(a), I(n), I(step)}), n - cnt);
    H it = w.call("items", {m});
    i64 idx = 0;
    w.each(it, [&](size_t, H& x) {
        if (idx == from) idx += cnt;
        auto [k, v] = w.kv(x);
        if (k != canon_int(a + idx * step) + "~" + tiro_kind_str(TIRO_KIND_INTEGER) || v != sfmt("%lld", (long long) idx)) c.fail("iteration yields " + k + "=" + v + sfmt(" at index %lld", (long long) idx));
        ++idx;
    });
    if (idx == from) idx += cnt;
    if (idx != n) c.fail("iteration ended early");
    w.call("fill", {m, I(a), I(n), I(step), I(7)});
    expect("size after refill", w.call("msize", {m}), n);
    expect("number of keys found after refill", w.call("check_range", {m, I(a), I(n), I(step)}), n);
    c.nontrivial = true;
    c.label("big maps (32 bit index)", n > 49152);
}

} // namespace

int main(int argc, char** argv) {
    pbt::Runner r("C05", "a history that removed at least one present key and held at least three entries at some time",
        {
            Suite{"map", 6000, 300000, [](Case& c) { map_history(c, 40, 120); }},
            Suite{"map_small", 6000, 300000, [](Case& c) { map_history(c, 10, 60); }},
            Suite{"set", 5000, 200000, set_history},
            Suite{"big", 24, 1500, big_map},
        });
    return r.main(argc, argv);
}
