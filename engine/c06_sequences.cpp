// C06: operation histories on arrays, tuples, buffers and records against plain sequences.
#include "tiro_util.hpp"

#include <optional>

using namespace tu;
using pbt::Case;
using pbt::Suite;

namespace {

struct Elem {
    enum Kind { null, integer, flt, str, ref } k = null;
    i64 i = 0; // value, or index of the object
    std::string s;
    std::string show() const {
        switch (k) {
        case null: return "null";
        case integer: return sfmt("%lld", (long long) i);
        case flt: return sfmt("%lld.5", (long long) i);
        case str: return "\"" + s + "\"";
        default: return sfmt("@%lld", (long long) i);
        }
    }
};

const char* const fields[] = {"a", "b", "c", "d", "e"};
constexpr int N_FIELDS = 5;

struct Obj {
    enum Kind { array, tuple, buffer, record } k = array;
    std::vector<Elem> v;            // array, tuple; buffer: integers
    std::map<std::string, Elem> rec; // record
};

std::string prelude() {
    std::string s = R"(import std;
export func get(o, i) = o[i];
export func set(o, i, v) = o[i] = v;
export func add(o, i, v) { return o[i] += v; }
export func size(o) = o.size();
export func append(o, v) { o.append(v); }
export func append_unbound(o, v) { const m = o.append; m(v); std.Array.append(o, v); }
export func clear(o) { o.clear(); }
export func collect(o) { const r = []; for x in o { r.append(x); } return r; }
export func grow_while_iterating(o, v, n) { const r = []; var k = 0; for x in o { r.append(x); if k < n { o.append(v); k += 1; } } return r; }
export func clear_while_iterating(o, n) { const r = []; for x in o { r.append(x); if r.size() == n { o.clear(); } } return r; }
export func swap(o, i, j) { (o[i], o[j]) = (o[j], o[i]); }
export func eq(a, b) = a == b;
export func new_buffer(n) = std.new_buffer(n);
export func unpack2(t) { const (a, b) = t; return [a, b]; }
export func unpack3(t) { const (a, b, c) = t; return [a, b, c]; }
export func append_many(o, from, n) { for var i = 0; i < n; i += 1 { o.append(from + i); } }
)";
    for (int i = 0; i < 6; ++i) {
        s += sfmt("export func tget%d(o) = o.%d;\nexport func tset%d(o, v) = o.%d = v;\n", i, i, i, i);
    }
    for (int n = 0; n <= 5; ++n) {
        std::string p, e;
        for (int i = 0; i < n; ++i) {
            p += sfmt(i ? ", a%d" : "a%d", i);
            e += sfmt("a%d, ", i);
        }
        s += sfmt("export func arr%d(", n) + p + ") = [" + e + "];\n";
        s += sfmt("export func tup%d(", n) + p + ") = (" + e + ");\n";
    }
    for (auto f : fields) s += sfmt("export func rget_%s(o) = o.%s;\nexport func rset_%s(o, v) = o.%s = v;\nexport func radd_%s(o, v) { return o.%s += v; }\n", f, f, f, f, f, f);
    // records with every non-empty subset of three fields, in different orders
    s += "export func rec0(x, y, z) = (a: x, b: y, c: z);\nexport func rec1(x, y, z) = (c: z, a: x, b: y);\n"
         "export func rec2(x, y, z) = (e: x, b: y);\nexport func rec3(x, y, z) = (d: x);\nexport func rec4(x, y, z) = (:);\n";
    return s;
}

struct World {
    Vm vm{512u << 20};
    std::map<std::string, H> fns;
    World() {
        Compiled c = compile("m", prelude());
        if (!c.ok()) throw Fail{"the harness module does not compile: " + c.errors()};
        vm.load(c);
    }
    tiro_handle_t fn(const std::string& n) {
        auto it = fns.find(n);
        if (it == fns.end()) it = fns.emplace(n, vm.get_export("m", n)).first;
        return it->second;
    }
};
World& world() {
    static World w;
    return w;
}

struct Run {
    Case& c;
    World& w = world();
    Vm& vm = w.vm;
    std::vector<Obj> objs;
    std::vector<H> hs;
    std::string what;

    void fail(const std::string& m) { c.fail(what + ": " + m); }
    void log(const std::string& s) {
        what = s;
        c.add(s + "\n");
    }

    H make(const Elem& e) {
        switch (e.k) {
        case Elem::null: return vm.null();
        case Elem::integer: return vm.integer(e.i);
        case Elem::flt: return vm.flt((f64) e.i + 0.5);
        case Elem::str: return vm.string(e.s);
        default: {
            H h(vm);
            MUST(tiro_value_copy(vm, hs[e.i], h, must));
            return h;
        }
        }
    }
    bool matches(const Elem& e, tiro_handle_t h) {
        switch (e.k) {
        case Elem::null: return tiro_value_kind(vm, h) == TIRO_KIND_NULL;
        case Elem::integer: return tiro_value_kind(vm, h) == TIRO_KIND_INTEGER && tiro_integer_value(vm, h) == e.i;
        case Elem::flt: return tiro_value_kind(vm, h) == TIRO_KIND_FLOAT && tiro_float_value(vm, h) == (f64) e.i + 0.5;
        case Elem::str: return tiro_value_kind(vm, h) == TIRO_KIND_STRING && vm.text(h) == e.s;
        default: return tiro_value_same(vm, hs[e.i], h);
        }
    }
    void expect_elem(const Elem& e, tiro_handle_t h, const std::string& ctx) {
        if (!matches(e, h)) fail(ctx + ": got " + vm.show(h) + ", expected " + e.show());
    }
    Elem elem(bool simple = false) {
        Elem e;
        switch (c.t.weighted({1, 6, 1, 2, simple ? 0u : 2u})) {
        case 0: break;
        case 1:
            e.k = Elem::integer;
            e.i = c.t.range(-5, 1000);
            break;
        case 2:
            e.k = Elem::flt;
            e.i = c.t.range(0, 9);
            break;
        case 3:
            e.k = Elem::str;
            e.s = std::string(c.t.below(4), 'a' + (char) c.t.below(3));
            break;
        default:
            if (objs.empty()) break;
            e.k = Elem::ref;
            e.i = c.t.below(objs.size());
        }
        return e;
    }
    // an index: mostly close to the bounds
    struct Index {
        std::optional<i64> i;
        H h;
        std::string s;
    };
    Index index(size_t size) {
        Index x;
        switch (c.t.weighted({8, 3, 2, 2})) {
        case 0: x.i = size ? (i64) c.t.below(size) : 0; break;
        case 1: x.i = (i64) size + c.t.range(-2, 2); break;
        case 2: x.i = c.t.any_i64(); break;
        default: {
            switch (c.t.below(5)) {
            case 0: x.h = vm.flt(0.0); x.s = "0.0"; break;
            case 1: x.h = vm.null(); x.s = "null"; break;
            case 2: x.h = vm.string("0"); x.s = "\"0\""; break;
            case 3: x.h = vm.boolean(false); x.s = "false"; break;
            default: x.h = vm.flt(NAN); x.s = "nan"; break;
            }
            return x;
        }
        }
        x.h = vm.integer(*x.i);
        x.s = sfmt("%lld", (long long) *x.i);
        return x;
    }

    // nullopt: panic
    std::optional<H> call(const std::string& fn, const std::vector<tiro_handle_t>& args) {
        auto r = vm.call(w.fn(fn), args);
        if (r.kind == CallResult::panic) return {};
        if (!r.ok()) fail("call failed: " + r.message);
        return std::move(r.value);
    }
    void expect_panic(const std::optional<H>& r, bool want) {
        if (r && want) fail("should have panicked, returned " + vm.show(*r));
        if (!r && !want) fail("panicked");
        c.label("panics", want);
    }
    void expect_code(Err& e, tiro_errc_t want) {
        if (e.code() != want) fail(std::string("error code ") + tiro_errc_name(e.code()) + ", expected " + tiro_errc_name(want));
        c.label("API errors", want != TIRO_OK);
    }

    void verify(size_t o) {
        Obj& m = objs[o];
        tiro_handle_t h = hs[o];
        switch (m.k) {
        case Obj::array: {
            if (tiro_array_size(vm, h) != m.v.size()) fail(sfmt("object %zu has %zu elements, expected %zu", o, tiro_array_size(vm, h), m.v.size()));
            H x(vm);
            for (size_t i = 0; i < m.v.size(); ++i) {
                if (m.v.size() > 64 && i > 8 && i + 8 < m.v.size() && i % 37) continue;
                MUST(tiro_array_get(vm, h, i, x, must));
                expect_elem(m.v[i], x, sfmt("object %zu[%zu]", o, i));
            }
            break;
        }
        case Obj::tuple: {
            if (tiro_tuple_size(vm, h) != m.v.size()) fail("wrong tuple size");
            H x(vm);
            for (size_t i = 0; i < m.v.size(); ++i) {
                MUST(tiro_tuple_get(vm, h, i, x, must));
                expect_elem(m.v[i], x, sfmt("object %zu[%zu]", o, i));
            }
            break;
        }
        case Obj::buffer: {
            if (tiro_buffer_size(vm, h) != m.v.size()) fail("wrong buffer size");
            auto* d = tiro_buffer_data(vm, h);
            for (size_t i = 0; i < m.v.size(); ++i)
                if (d[i] != m.v[i].i) fail(sfmt("object %zu: byte %zu is %d, expected %lld", o, i, d[i], (long long) m.v[i].i));
            break;
        }
        case Obj::record: {
            H keys(vm), k(vm), x(vm);
            MUST(tiro_record_keys(vm, h, keys, must));
            size_t n = tiro_array_size(vm, keys);
            if (n != m.rec.size()) fail("wrong number of record keys");
            for (size_t i = 0; i < n; ++i) {
                MUST(tiro_array_get(vm, keys, i, k, must));
                std::string name = vm.text(k);
                if (!m.rec.count(name)) fail("unexpected record key " + name);
                MUST(tiro_record_get(vm, h, k, x, must));
                expect_elem(m.rec[name], x, sfmt("object %zu.%s", o, name.c_str()));
            }
            break;
        }
        }
    }

    void create() {
        Obj m;
        int kind = c.t.below(4);
        m.k = (Obj::Kind) kind;
        int by = c.t.below(3);
        std::string id = sfmt("%zu", objs.size());
        std::vector<H> parts;
        std::vector<tiro_handle_t> args;
        auto part = [&](const Elem& e) {
            parts.push_back(make(e));
            args.push_back(parts.back());
        };
        if (kind <= 1) {
            const char* name = kind ? "tuple" : "array";
            if (by) {
                int n = c.t.below(6);
                for (int i = 0; i < n; ++i) {
                    m.v.push_back(elem());
                    part(m.v.back());
                }
                log(id + " = " + name + " literal of " + sfmt("%d", n) + " elements");
                auto r = call(sfmt(kind ? "tup%d" : "arr%d", n), args);
                expect_panic(r, false);
                hs.push_back(std::move(*r));
            } else {
                size_t n = c.t.size(300);
                log(id + " = API " + name + sfmt("(%zu)", n));
                H h(vm);
                if (kind) {
                    MUST(tiro_make_tuple(vm, n, h, must));
                    m.v.resize(n);
                } else {
                    MUST(tiro_make_array(vm, n, h, must));
                }
                hs.push_back(std::move(h));
            }
        } else if (kind == 2) {
            Index n;
            if (by && c.t.chance(1, 5)) {
                n = Index();
                // strange sizes
                switch (c.t.below(4)) {
                case 0: n.i = -1; break;
                case 1: n.i = INT64_MIN; break;
                case 2: n.h = vm.flt(2.0); break;
                default: n.h = vm.null(); break;
                }
                if (n.i) n.h = vm.integer(*n.i);
                log("new_buffer with an invalid size");
                expect_panic(call("new_buffer", {n.h}), true);
                return;
            }
            size_t sz = c.t.size(2000);
            m.v.assign(sz, Elem{Elem::integer, 0, ""});
            log(id + sfmt(" = buffer(%zu)", sz));
            if (by) {
                H s = vm.integer(sz);
                auto r = call("new_buffer", {s});
                expect_panic(r, false);
                hs.push_back(std::move(*r));
            } else {
                H h(vm);
                MUST(tiro_make_buffer(vm, sz, h, must));
                hs.push_back(std::move(h));
            }
        } else {
            if (by) {
                int shape = c.t.below(5);
                Elem x = elem(), y = elem(), z = elem();
                part(x); part(y); part(z);
                switch (shape) {
                case 0:
                case 1: m.rec = {{"a", x}, {"b", y}, {"c", z}}; break;
                case 2: m.rec = {{"e", x}, {"b", y}}; break;
                case 3: m.rec = {{"d", x}}; break;
                }
                log(id + sfmt(" = record literal %d", shape));
                auto r = call(sfmt("rec%d", shape), args);
                expect_panic(r, false);
                hs.push_back(std::move(*r));
            } else {
                H keys(vm);
                MUST(tiro_make_array(vm, 0, keys, must));
                std::string text;
                std::vector<std::string> names;
                int n = c.t.below(9);
                for (int i = 0; i < n; ++i) {
                    std::string k = c.t.chance(1, 2) ? std::string(fields[c.t.below(N_FIELDS)]) : sfmt("k%d", (int) c.t.below(30));
                    if (c.t.chance(1, 10)) k = c.t.chance(1, 2) ? std::string() : std::string("\0x", 2);
                    if (m.rec.count(k)) continue;
                    m.rec[k] = Elem{};
                    H s = vm.string(k);
                    MUST(tiro_array_push(vm, keys, s, must));
                    text += k + " ";
                }
                log(id + " = API record { " + text + "}");
                H schema(vm), h(vm);
                MUST(tiro_make_record_schema(vm, keys, schema, must));
                MUST(tiro_make_record(vm, schema, h, must));
                hs.push_back(std::move(h));
                // a second record of the same schema is independent
                if (c.t.chance(1, 3)) {
                    H h2(vm);
                    MUST(tiro_make_record(vm, schema, h2, must));
                    objs.push_back(m);
                    hs.push_back(std::move(h2));
                }
            }
        }
        objs.push_back(std::move(m));
    }

    void step() {
        size_t o = c.t.below(objs.size());
        Obj& m = objs[o];
        tiro_handle_t h = hs[o];
        std::string id = sfmt("%zu", o);
        size_t n = m.v.size();
        if (m.k == Obj::record) return record_step(o);
        bool is_array = m.k == Obj::array, is_buffer = m.k == Obj::buffer;
        auto value_ok = [&](const Elem& e) { return !is_buffer || (e.k == Elem::integer && e.i >= 0 && e.i <= 255); };
        switch (c.t.weighted({4, 6, 2, 2, 3, 2, 2, is_array ? 6u : 1u, is_array ? 1u : 0u, is_array ? 2u : 0u, is_array ? 1u : 0u, m.k == Obj::tuple ? 4u : 1u, 1, is_array ? 1u : 0u})) {
        case 0: {
            Index x = index(n);
            log("get " + id + "[" + x.s + "]");
            bool ok = x.i && *x.i >= 0 && (u64) *x.i < n;
            auto r = call("get", {h, x.h});
            expect_panic(r, !ok);
            if (ok) expect_elem(m.v[*x.i], *r, "result");
            break;
        }
        case 1: {
            Index x = index(n);
            Elem e = elem();
            if (is_buffer && c.t.chance(3, 4)) e = Elem{Elem::integer, c.t.range(-1, 256), ""};
            log("set " + id + "[" + x.s + "] = " + e.show());
            bool ok = x.i && *x.i >= 0 && (u64) *x.i < n && value_ok(e);
            H v = make(e);
            auto r = call("set", {h, x.h, v});
            expect_panic(r, !ok);
            if (ok) {
                m.v[*x.i] = e;
                expect_elem(e, *r, "value of the assignment");
            }
            break;
        }
        case 2: {
            Index x = index(n);
            i64 d = c.t.range(-3, 3);
            log("add " + id + "[" + x.s + "] += " + sfmt("%lld", (long long) d));
            bool ok = x.i && *x.i >= 0 && (u64) *x.i < n && (m.v[*x.i].k == Elem::integer || m.v[*x.i].k == Elem::flt);
            H v = vm.integer(d);
            Elem e;
            if (ok) {
                e = m.v[*x.i];
                e.i += d;
                ok = value_ok(e);
            }
            auto r = call("add", {h, x.h, v});
            expect_panic(r, !ok);
            if (ok) m.v[*x.i] = e;
            break;
        }
        case 3: {
            log("size " + id);
            auto r = call("size", {h});
            expect_panic(r, false);
            if (tiro_integer_value(vm, *r) != (i64) n) fail("wrong size " + vm.show(*r));
            break;
        }
        case 4: {
            // through the API
            u64 i = c.t.chance(2, 3) && n ? c.t.below(n) : (u64) ((i64) n + c.t.range(-1, 1));
            if (c.t.chance(1, 8)) i = (u64) c.t.any_i64();
            if (is_buffer) {
                log("buffer data");
                if (n) {
                    i %= n;
                    u64 b = c.t.below(256);
                    tiro_buffer_data(vm, h)[i] = (unsigned char) b;
                    m.v[i].i = b;
                }
                break;
            }
            H x(vm);
            Err e;
            if (c.t.chance(1, 2)) {
                log(sfmt("API get %s[%llu]", id.c_str(), (unsigned long long) i));
                if (is_array) tiro_array_get(vm, h, i, x, e);
                else tiro_tuple_get(vm, h, i, x, e);
                expect_code(e, i < n ? TIRO_OK : TIRO_ERROR_OUT_OF_BOUNDS);
                if (i < n) expect_elem(m.v[i], x, "result");
            } else {
                Elem el = elem();
                log(sfmt("API set %s[%llu] = ", id.c_str(), (unsigned long long) i) + el.show());
                H v = make(el);
                if (is_array) tiro_array_set(vm, h, i, v, e);
                else tiro_tuple_set(vm, h, i, v, e);
                expect_code(e, i < n ? TIRO_OK : TIRO_ERROR_OUT_OF_BOUNDS);
                if (i < n) m.v[i] = el;
            }
            break;
        }
        case 5: {
            log("iterate " + id);
            auto r = call("collect", {h});
            // buffers cannot be iterated
            expect_panic(r, is_buffer);
            if (!is_buffer) check_list(*r, m.v);
            break;
        }
        case 6: {
            if (n < 1) break;
            Index x = index(n), y = index(n);
            log("swap " + id + "[" + x.s + "], [" + y.s + "]");
            auto in = [&](const Index& k) { return k.i && *k.i >= 0 && (u64) *k.i < n; };
            bool ok = in(x) && in(y);
            expect_panic(call("swap", {h, x.h, y.h}), !ok);
            if (ok) std::swap(m.v[*x.i], m.v[*y.i]);
            break;
        }
        case 7: {
            Elem e = elem();
            H v = make(e);
            int how = c.t.below(4);
            if (!is_array) {
                log("append to a non-array " + id);
                expect_panic(call("append", {h, v}), true);
                Err er;
                tiro_array_push(vm, h, v, er);
                expect_code(er, TIRO_ERROR_BAD_TYPE);
                break;
            }
            log("append " + id + ", " + e.show());
            if (how == 0) {
                MUST(tiro_array_push(vm, h, v, must));
                m.v.push_back(e);
            } else if (how == 1) {
                expect_panic(call("append_unbound", {h, v}), false);
                m.v.push_back(e);
                m.v.push_back(e);
            } else {
                expect_panic(call("append", {h, v}), false);
                m.v.push_back(e);
            }
            break;
        }
        case 8: {
            log("clear " + id);
            if (c.t.chance(1, 2)) expect_panic(call("clear", {h}), false);
            else MUST(tiro_array_clear(vm, h, must));
            m.v.clear();
            break;
        }
        case 9: {
            int k = 1 + c.t.below(3);
            log(sfmt("pop %s %d times", id.c_str(), k));
            for (int i = 0; i < k; ++i) {
                Err e;
                tiro_array_pop(vm, h, e);
                expect_code(e, m.v.empty() ? TIRO_ERROR_OUT_OF_BOUNDS : TIRO_OK);
                if (!m.v.empty()) m.v.pop_back();
            }
            break;
        }
        case 10: {
            i64 k = c.t.size(3000), from = c.t.range(-100, 100);
            log(sfmt("append %lld elements to ", (long long) k) + id);
            H a = vm.integer(from), b = vm.integer(k);
            expect_panic(call("append_many", {h, a, b}), false);
            for (i64 i = 0; i < k; ++i) m.v.push_back(Elem{Elem::integer, from + i, ""});
            break;
        }
        case 11: {
            size_t i = c.t.below(6);
            bool tuple = m.k == Obj::tuple;
            bool ok = tuple && i < n;
            if (c.t.chance(1, 4)) {
                if (!tuple) break;
                int want = c.t.chance(1, 2) ? 2 : 3;
                log(sfmt("unpack %s into %d variables", id.c_str(), want));
                auto r = call(want == 2 ? "unpack2" : "unpack3", {h});
                if ((int) n < want) expect_panic(r, true);
                else if (!r) fail("panicked");
                else check_list(*r, std::vector<Elem>(m.v.begin(), m.v.begin() + want));
                break;
            }
            if (c.t.chance(1, 2)) {
                log(id + sfmt(".%zu", i));
                auto r = call(sfmt("tget%zu", i), {h});
                expect_panic(r, !ok);
                if (ok) expect_elem(m.v[i], *r, "result");
            } else {
                Elem e = elem();
                H v = make(e);
                log(id + sfmt(".%zu = ", i) + e.show());
                auto r = call(sfmt("tset%zu", i), {h, v});
                expect_panic(r, !ok);
                if (ok) m.v[i] = e;
            }
            break;
        }
        case 12: {
            log("record access on " + id);
            expect_panic(call("rget_a", {h}), true);
            expect_panic(call("rset_b", {h, h}), true);
            Err e;
            H keys(vm);
            tiro_record_keys(vm, h, keys, e);
            expect_code(e, TIRO_ERROR_BAD_TYPE);
            break;
        }
        default: {
            // iteration sees elements appended (or removed) while it is running
            std::vector<Elem> seen;
            if (c.t.chance(1, 2)) {
                i64 k = c.t.below(6);
                Elem e = elem();
                H v = make(e), kk = vm.integer(k);
                log(sfmt("grow %s by %lld while iterating", id.c_str(), (long long) k));
                auto r = call("grow_while_iterating", {h, v, kk});
                expect_panic(r, false);
                if (!m.v.empty()) m.v.insert(m.v.end(), k, e);
                check_list(*r, m.v);
            } else {
                i64 k = 1 + c.t.below(4);
                H kk = vm.integer(k);
                log(sfmt("clear %s while iterating at element %lld", id.c_str(), (long long) k));
                auto r = call("clear_while_iterating", {h, kk});
                expect_panic(r, false);
                if ((i64) m.v.size() >= k) {
                    check_list(*r, std::vector<Elem>(m.v.begin(), m.v.begin() + k));
                    m.v.clear();
                } else {
                    check_list(*r, m.v);
                }
            }
        }
        }
        verify(o);
    }

    void check_list(tiro_handle_t list, const std::vector<Elem>& want) {
        if (tiro_array_size(vm, list) != want.size()) fail(sfmt("%zu elements visited, expected %zu", tiro_array_size(vm, list), want.size()));
        H x(vm);
        for (size_t i = 0; i < want.size(); ++i) {
            MUST(tiro_array_get(vm, list, i, x, must));
            expect_elem(want[i], x, sfmt("element %zu", i));
        }
    }

    void record_step(size_t o) {
        Obj& m = objs[o];
        tiro_handle_t h = hs[o];
        std::string id = sfmt("%zu", o);
        std::string f = fields[c.t.below(N_FIELDS)];
        bool has = m.rec.count(f);
        switch (c.t.below(7)) {
        case 0: {
            log(id + "." + f);
            auto r = call("rget_" + f, {h});
            expect_panic(r, !has);
            if (has) expect_elem(m.rec[f], *r, "result");
            break;
        }
        case 1: {
            Elem e = elem();
            H v = make(e);
            log(id + "." + f + " = " + e.show());
            expect_panic(call("rset_" + f, {h, v}), !has);
            if (has) m.rec[f] = e;
            break;
        }
        case 2: {
            log(id + "." + f + " += 2");
            H v = vm.integer(2);
            bool ok = has && (m.rec[f].k == Elem::integer || m.rec[f].k == Elem::flt);
            expect_panic(call("radd_" + f, {h, v}), !ok);
            if (ok) m.rec[f].i += 2;
            break;
        }
        case 3:
        case 4: {
            std::string k = f;
            if (c.t.chance(1, 2)) k = sfmt("k%d", (int) c.t.below(30));
            if (!m.rec.empty() && c.t.chance(1, 2)) {
                auto it = m.rec.begin();
                std::advance(it, c.t.below(m.rec.size()));
                k = it->first;
            }
            bool ok = m.rec.count(k);
            H key = vm.string(k), x(vm);
            Err e;
            if (c.t.chance(1, 2)) {
                log("API get " + id + "." + k);
                tiro_record_get(vm, h, key, x, e);
                expect_code(e, ok ? TIRO_OK : TIRO_ERROR_BAD_KEY);
                if (ok) expect_elem(m.rec[k], x, "result");
            } else {
                Elem el = elem();
                H v = make(el);
                log("API set " + id + "." + k + " = " + el.show());
                tiro_record_set(vm, h, key, v, e);
                expect_code(e, ok ? TIRO_OK : TIRO_ERROR_BAD_KEY);
                if (ok) m.rec[k] = el;
            }
            break;
        }
        case 5: {
            Index x = index(3);
            log("index a record " + id + "[" + x.s + "]");
            expect_panic(call("get", {h, x.h}), true);
            H v = vm.null();
            expect_panic(call("set", {h, x.h, v}), true);
            break;
        }
        default: {
            log("sequence operations on record " + id);
            expect_panic(call("collect", {h}), true);
            expect_panic(call("tget0", {h}), true);
            H x(vm);
            Err e;
            tiro_array_get(vm, h, 0, x, e);
            expect_code(e, TIRO_ERROR_BAD_TYPE);
        }
        }
        verify(o);
    }
};

void history(Case& c) {
    Run r{c};
    int first = 1 + c.t.below(3);
    for (int i = 0; i < first; ++i) r.create();
    int n = c.t.size(60);
    for (int i = 0; i < n; ++i) {
        if (r.objs.empty() || (r.objs.size() < 6 && c.t.chance(1, 10))) r.create();
        else r.step();
    }
    for (size_t o = 0; o < r.objs.size(); ++o) r.verify(o);
    // distinct objects stay distinct
    for (size_t a = 0; a < r.objs.size(); ++a)
        for (size_t b = 0; b < r.objs.size(); ++b) {
            auto x = r.call("eq", {r.hs[a], r.hs[b]});
            if (!x || tiro_boolean_value(r.vm, *x) != (a == b)) c.fail(sfmt("identity of objects %zu and %zu", a, b));
        }
    c.nontrivial = n >= 3;
}

} // namespace

int main(int argc, char** argv) {
    pbt::Runner r("C06", "at least three operations on the objects", {
        Suite{"history", 60000, 2000000, history},
    });
    return r.main(argc, argv);
}
