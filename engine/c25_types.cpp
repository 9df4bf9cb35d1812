// C25: an operation is decided by the type of its operand, and every way of using it agrees.
//
//  operations   a value of any type, an operation of any kind, one of the ways in which the operation can be written;
//               the outcome (value or panic) and the state of the operands afterwards against a model of the types
//  agreement    one operation on equal values, written in all ways: all of them have the same outcome
#include "tiro_util.hpp"
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>

using namespace tu;
using pbt::Case;
using pbt::Suite;
using pbt::Tape;

namespace {

// ---------------------------------------------------------------------------------------------------- the model
enum K { Null, Bool, Int, Flt, Str, Slice, Sym, Tup, Rec, Arr, Map, Set, KeyView, ValueView, Buf, Builder, Res, Exc, Func, Coro, Token, Mod, Type, Schema, Native, KINDS };
const char* type_name(K k) {
    switch (k) {
    case Null: return "Null";
    case Bool: return "Boolean";
    case Int: return "Integer";
    case Flt: return "Float";
    case Str: return "String";
    case Slice: return "StringSlice";
    case Sym: return "Symbol";
    case Tup: return "Tuple";
    case Rec: return "Record";
    case Arr: return "Array";
    case Map: return "Map";
    case Set: return "Set";
    case KeyView: return "MapKeyView";
    case ValueView: return "MapValueView";
    case Buf: return "Buffer";
    case Builder: return "StringBuilder";
    case Res: return "Result";
    case Exc: return "Exception";
    case Func: return "Function";
    case Coro: return "Coroutine";
    case Token: return "CoroutineToken";
    case Mod: return "Module";
    case Type: return "Type";
    case Schema: return "RecordSchema";
    case Native: return "NativeObject";
    default: return "?";
    }
}
int kind_of(K k) { // as seen by the host
    switch (k) {
    case Null: return TIRO_KIND_NULL;
    case Bool: return TIRO_KIND_BOOLEAN;
    case Int: return TIRO_KIND_INTEGER;
    case Flt: return TIRO_KIND_FLOAT;
    case Str: return TIRO_KIND_STRING;
    case Tup: return TIRO_KIND_TUPLE;
    case Rec: return TIRO_KIND_RECORD;
    case Arr: return TIRO_KIND_ARRAY;
    case Buf: return TIRO_KIND_BUFFER;
    case Res: return TIRO_KIND_RESULT;
    case Exc: return TIRO_KIND_EXCEPTION;
    case Func: return TIRO_KIND_FUNCTION;
    case Coro: return TIRO_KIND_COROUTINE;
    case Mod: return TIRO_KIND_MODULE;
    case Type: return TIRO_KIND_TYPE;
    case Schema: return TIRO_KIND_RECORD_SCHEMA;
    case Native: return TIRO_KIND_NATIVE;
    default: return TIRO_KIND_INTERNAL;
    }
}

struct V;
using P = std::shared_ptr<V>;
struct Out {
    bool panic = false;
    P v;
};
const Out PANIC{true, nullptr};
using Args = std::vector<P>;

struct V {
    K k = Null;
    i64 i = 0;     // Int, Bool, Type (K); Res: success?
    double f = 0;  // Flt
    std::string s; // text; message; or what identifies a unique object
    Args v;        // items; Map: keys; Res: value; views: the map
    Args w;        // Map: values; Rec: values
    std::vector<std::string> names; // Rec
    std::function<Out(const Args&)> fn;
};
P mk(K k) {
    auto p = std::make_shared<V>();
    p->k = k;
    return p;
}
P null() { return mk(Null); }
P boolean(bool b) { P p = mk(Bool); p->i = b; return p; }
P integer(i64 i) { P p = mk(Int); p->i = i; return p; }
P flt(double f) { P p = mk(Flt); p->f = f; return p; }
P text(K k, std::string s) { P p = mk(k); p->s = std::move(s); return p; }
P type(K k) { P p = mk(Type); p->i = k; return p; }
P unique(K k, std::string s) { P p = mk(k); p->s = std::move(s); return p; }
P func(std::function<Out(const Args&)> f, std::string id = "") { P p = mk(Func); p->fn = std::move(f); p->s = std::move(id); return p; }
Out ok(P p) { return {false, std::move(p)}; }

bool truthy(const P& p) { return !(p->k == Null || (p->k == Bool && !p->i)); }
bool num(const P& p) { return p->k == Int || p->k == Flt; }
double as_f(const P& p) { return p->k == Int ? (double) p->i : p->f; }
bool stringlike(const P& p) { return p->k == Str || p->k == Slice; }
bool eq(const P& a, const P& b) {
    if (a == b) return true;
    if (num(a) && num(b)) return a->k == Int && b->k == Int ? a->i == b->i : as_f(a) == as_f(b); // the floats are never integral
    if (stringlike(a) && stringlike(b)) return a->s == b->s;
    if (a->k != b->k) return false;
    switch (a->k) {
    case Null: return true;
    case Bool: return a->i == b->i;
    case Sym: return a->s == b->s;
    case Type: return a->i == b->i;
    case Mod:
    case Native:
    case Coro:
    case Token:
    case Schema:
    case Func: return !a->s.empty() && a->s == b->s;
    default: return false;
    }
}
int find(const Args& v, const P& x) {
    for (size_t i = 0; i < v.size(); ++i)
        if (eq(v[i], x)) return (int) i;
    return -1;
}

std::string str(const P& p); // as the interpolation
std::string show(const P& p, int d = 0) {
    if (d > 6) return "...";
    auto seq = [&](const char* open, const Args& v, const char* close) {
        std::string r = open;
        for (auto& x : v) r += show(x, d + 1) + ",";
        return r + close;
    };
    switch (p->k) {
    case Null: return "null";
    case Bool: return p->i ? "true" : "false";
    case Int: return sfmt("%lld", (long long) p->i);
    case Flt: return sfmt("f%g", p->f);
    case Str: return "s'" + p->s + "'";
    case Slice: return "S'" + p->s + "'";
    case Sym: return "#" + p->s;
    case Tup: return seq("(", p->v, ")");
    case Rec: {
        std::string r = "rec(";
        for (const char* n : {"a", "b", "f"})
            for (size_t i = 0; i < p->names.size(); ++i)
                if (p->names[i] == n) r += std::string(n) + ":" + show(p->w[i], d + 1) + ",";
        return r + ")";
    }
    case Arr: return seq("[", p->v, "]");
    case Map: {
        std::string r = "map{";
        for (size_t i = 0; i < p->v.size(); ++i) r += show(p->v[i], d + 1) + ":" + show(p->w[i], d + 1) + ",";
        return r + "}";
    }
    case Set: return seq("set{", p->v, "}");
    case KeyView: return seq("keys[", p->v[0]->v, "]");
    case ValueView: return seq("values[", p->v[0]->w, "]");
    case Buf: return seq("buf[", p->v, "]");
    case Builder: return "sb'" + p->s + "'";
    case Res: return (p->i ? "ok(" : "err(") + show(p->v[0], d + 1) + ")";
    case Exc: return "exc'" + p->s + "'";
    case Func: return "fn";
    case Coro: return "co";
    case Token: return "tok";
    case Mod: return "mod";
    case Type: return std::string("T:") + type_name((K) p->i);
    case Schema: return "schema";
    case Native: return "native";
    default: return "?";
    }
}
std::string str(const P& p) {
    switch (p->k) {
    case Str:
    case Slice: return p->s;
    case Flt: return sfmt("%g", p->f);
    default: return show(p);
    }
}

const char* PRELUDE = R"~(import std;
import host;
func exception(m) = std.catch_panic(func() { std.panic(m); }).error();
func builder(a, b) {
    const r = std.new_string_builder();
    r.append(a);
    r.append(b);
    return r;
}
func buffer(bytes) {
    const r = std.new_buffer(bytes.size());
    for var i = 0; i < bytes.size(); i += 1 { r[i] = bytes[i]; }
    return r;
}
func items(open, v, close, d) {
    var r = open;
    for e in v { r = "${r}${show(e, d + 1)},"; }
    return "$r$close";
}
func field(v, name, get, d) {
    const r = std.catch_panic(get);
    return if r.is_success() { "$name:${show(r.value(), d + 1)},"; } else { ""; };
}
func show(v, d) {
    if d > 6 { return "..."; }
    const t = std.type_of(v);
    if t == std.Null || t == std.Boolean || t == std.Integer || t == std.Symbol { return "$v"; }
    if t == std.Float { return "f$v"; }
    if t == std.String { return "s'$v'"; }
    if t == std.StringSlice { return "S'$v'"; }
    if t == std.Tuple { return items("(", v, ")", d); }
    if t == std.Array { return items("[", v, "]", d); }
    if t == std.Set { return items("set{", v, "}", d); }
    if t == std.MapKeyView { return items("keys[", v, "]", d); }
    if t == std.MapValueView { return items("values[", v, "]", d); }
    if t == std.Record {
        return "rec(${field(v, "a", func() = v.a, d)}${field(v, "b", func() = v.b, d)}${field(v, "f", func() = v.f, d)})";
    }
    if t == std.Map {
        var r = "map{";
        for e in v { r = "${r}${show(e.0, d + 1)}:${show(e.1, d + 1)},"; }
        return "$r}";
    }
    if t == std.Buffer {
        var r = "buf[";
        for var i = 0; i < v.size(); i += 1 { r = "${r}${v[i]},"; }
        return "$r]";
    }
    if t == std.StringBuilder { return "sb'${v.to_string()}'"; }
    if t == std.Result {
        return if v.is_success() { "ok(${show(v.value(), d + 1)})"; } else { "err(${show(v.error(), d + 1)})"; };
    }
    if t == std.Exception { return "exc'${v.message()}'"; }
    if t == std.Function { return "fn"; }
    if t == std.Coroutine { return "co"; }
    if t == std.CoroutineToken { return "tok"; }
    if t == std.Module { return "mod"; }
    if t == std.Type { return "T:${std.Type.name(v)}"; }
    if t == std.RecordSchema { return "schema"; }
    if t == std.NativeObject { return "native"; }
    return "?";
}
func call0(f) = f();
func call1(f, a) = f(a);
func call2(f, a, b) = f(a, b);
func same(v) = v;
func three(a, b, c) = b;
func outcome(f) {
    const r = std.catch_panic(f);
    return if r.is_success() { show(r.value(), 0); } else { if std.type_of(r.error()) == std.Exception { "panic"; } else { "not an exception"; }; };
}
func iterate(v) {
    const r = [];
    for e in v { r.append(e); }
    return r;
}
)~";

// --------------------------------------------------------------------------------------------- values and their text
struct Made {
    std::string text; // an expression that creates the value
    std::function<P()> make;
};
std::string quote(const std::string& s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\' || c == '$') r += '\\';
        r += c;
    }
    return r + "\"";
}

Out call(const P& f, const Args& a) {
    if (f->k != Func) return PANIC;
    return f->fn(a);
}

struct Method {
    K on;
    const char* name;
    unsigned argc; // without the receiver
};
const std::vector<Method>& methods() {
    static const std::vector<Method> m{{Arr, "size", 0}, {Arr, "append", 1}, {Arr, "clear", 0}, {Map, "size", 0}, {Map, "contains", 1}, {Map, "keys", 0},
        {Map, "values", 0}, {Map, "clear", 0}, {Map, "remove", 1}, {Set, "size", 0}, {Set, "contains", 1}, {Set, "clear", 0}, {Set, "insert", 1},
        {Set, "remove", 1}, {Buf, "size", 0}, {Tup, "size", 0}, {Str, "contains", 1}, {Str, "size", 0}, {Str, "slice_first", 1}, {Str, "slice_last", 1},
        {Str, "slice", 2}, {Slice, "contains", 1}, {Slice, "size", 0}, {Slice, "slice_first", 1}, {Slice, "slice_last", 1}, {Slice, "slice", 2},
        {Slice, "to_string", 0}, {Builder, "append", 0}, {Builder, "append_byte", 1}, {Builder, "clear", 0}, {Builder, "contains", 1}, {Builder, "size", 0},
        {Builder, "to_string", 0}, {Res, "type", 0}, {Res, "is_success", 0}, {Res, "is_error", 0}, {Res, "value", 0}, {Res, "error", 0}, {Exc, "message", 0},
        {Exc, "trace", 0}, {Coro, "name", 0}, {Token, "coroutine", 0}, {Token, "valid", 0}, {Token, "resume", 0}, {Type, "name", 0}};
    return m;
}
const Method* method(K k, const std::string& name) {
    for (auto& m : methods())
        if (m.on == k && name == m.name) return &m;
    return nullptr;
}

// The method function of a type, called with the receiver as its first argument
Out apply_method(const Method& m, const Args& a) {
    if (a.size() < m.argc + 1) return PANIC;
    const P& x = a[0];
    if (x->k != m.on) return PANIC;
    std::string n = m.name;
    auto cut = [&](const P& p) -> std::optional<size_t> {
        if (p->k != Int) return {};
        return p->i < 0 ? 0 : (size_t) p->i;
    };
    auto slice = [&](size_t off, size_t len) {
        off = std::min(off, x->s.size());
        return ok(text(Slice, x->s.substr(off, len)));
    };
    switch (x->k) {
    case Arr:
        if (n == "size") return ok(integer((i64) x->v.size()));
        if (n == "append") return x->v.push_back(a[1]), ok(null());
        return x->v.clear(), ok(null());
    case Map: {
        if (n == "size") return ok(integer((i64) x->v.size()));
        if (n == "contains") return ok(boolean(find(x->v, a[1]) >= 0));
        if (n == "clear") return x->v.clear(), x->w.clear(), ok(null());
        if (n == "remove") {
            int i = find(x->v, a[1]);
            if (i >= 0) x->v.erase(x->v.begin() + i), x->w.erase(x->w.begin() + i);
            return ok(null());
        }
        P r = mk(n == "keys" ? KeyView : ValueView);
        r->v = {x};
        return ok(r);
    }
    case Set: {
        if (n == "size") return ok(integer((i64) x->v.size()));
        if (n == "clear") return x->v.clear(), ok(null());
        int i = find(x->v, a[1]);
        if (n == "contains") return ok(boolean(i >= 0));
        if (n == "insert") {
            if (i < 0) x->v.push_back(a[1]);
            return ok(boolean(i < 0));
        }
        if (i >= 0) x->v.erase(x->v.begin() + i);
        return ok(null());
    }
    case Buf:
    case Tup: return ok(integer((i64) x->v.size()));
    case Str:
    case Slice:
        if (n == "size") return ok(integer((i64) x->s.size()));
        if (n == "contains") return stringlike(a[1]) ? ok(boolean(x->s.find(a[1]->s) != std::string::npos)) : PANIC;
        if (n == "to_string") return ok(text(Str, x->s));
        {
            auto p = cut(a[1]);
            if (!p) return PANIC;
            if (n == "slice_first") return slice(0, *p);
            if (n == "slice_last") {
                size_t k = std::min(*p, x->s.size());
                return slice(x->s.size() - k, k);
            }
            auto q = cut(a[2]);
            if (!q) return PANIC;
            return slice(*p, *q);
        }
    case Builder:
        if (n == "size") return ok(integer((i64) x->s.size()));
        if (n == "to_string") return ok(text(Str, x->s));
        if (n == "clear") return x->s.clear(), ok(null());
        if (n == "contains") return stringlike(a[1]) ? ok(boolean(x->s.find(a[1]->s) != std::string::npos)) : PANIC;
        if (n == "append_byte") {
            if (a[1]->k != Int || a[1]->i < 0 || a[1]->i > 255) return PANIC;
            x->s += (char) a[1]->i;
            return ok(null());
        }
        for (size_t i = 1; i < a.size(); ++i) x->s += str(a[i]);
        return ok(null());
    case Res:
        if (n == "type") return ok(text(Sym, x->i ? "success" : "error"));
        if (n == "is_success") return ok(boolean(x->i));
        if (n == "is_error") return ok(boolean(!x->i));
        if ((n == "value") != (bool) x->i) return PANIC;
        return ok(x->v[0]);
    case Exc: return ok(n == "message" ? text(Str, x->s) : null());
    case Coro: return ok(text(Str, "<name>"));
    case Token:
        if (n == "coroutine") return ok(unique(Coro, "current"));
        return ok(boolean(n == "valid")); // the coroutine is running: it does not wait and cannot be resumed
    case Type: return ok(text(Str, type_name((K) x->i)));
    default: return PANIC;
    }
}
P method_function(const Method& m) {
    return func([&m](const Args& a) { return apply_method(m, a); }, sfmt("method %s.%s", type_name(m.on), m.name));
}
P bound(const Method& m, P x) {
    return func([&m, x](const Args& a) {
        Args b{x};
        b.insert(b.end(), a.begin(), a.end());
        return apply_method(m, b);
    });
}
P std_function(const std::string& n);

// exported by the module std
std::optional<P> std_member(const std::string& n) {
    for (int k = 0; k < KINDS; ++k)
        if (n == type_name((K) k)) return type((K) k);
    if (n == "abs" || n == "type_of" || n == "success" || n == "error" || n == "to_utf8" || n == "new_buffer" || n == "schema_of" || n == "panic") return std_function(n);
    return {};
}
P std_function(const std::string& n) {
    return func(
        [n](const Args& a) -> Out {
            if (a.empty()) return PANIC;
            const P& x = a[0];
            if (n == "abs") return num(x) ? ok(flt(std::abs(as_f(x)))) : PANIC;
            if (n == "type_of") return ok(type(x->k));
            if (n == "success" || n == "error") {
                P r = mk(Res);
                r->i = n == "success";
                r->v = {x};
                return ok(r);
            }
            if (n == "to_utf8") {
                if (x->k != Str) return PANIC;
                P r = mk(Buf);
                for (unsigned char c : x->s) r->v.push_back(integer(c));
                return ok(r);
            }
            if (n == "new_buffer") {
                if (x->k != Int || x->i < 0) return PANIC;
                P r = mk(Buf);
                for (i64 i = 0; i < x->i; ++i) r->v.push_back(integer(0));
                return ok(r);
            }
            if (n == "schema_of") return x->k == Rec ? ok(mk(Schema)) : PANIC;
            return PANIC;
        },
        "std." + n);
}

// x.n without a call
Out get_member(const P& x, const std::string& n) {
    if (x->k == Rec) {
        for (size_t i = 0; i < x->names.size(); ++i)
            if (x->names[i] == n) return ok(x->w[i]);
        return PANIC;
    }
    if (x->k == Mod) {
        auto m = std_member(n);
        return m ? ok(*m) : PANIC;
    }
    if (x->k == Type) {
        auto m = method((K) x->i, n);
        return m ? ok(method_function(*m)) : PANIC;
    }
    auto m = method(x->k, n);
    return m ? ok(bound(*m, x)) : PANIC;
}

struct Gen {
    Tape& t;
    explicit Gen(Tape& tt)
        : t(tt) {}

    Made simple() { // a value that can be an element, a key, an argument
        switch (t.below(9)) {
        case 0: return {"null", [] { return null(); }};
        case 1: {
            bool b = t.chance(1, 2);
            return {b ? "true" : "false", [b] { return boolean(b); }};
        }
        case 2:
        case 3: return of(Int);
        case 4: return of(Flt);
        case 5:
        case 6: return of(Str);
        case 7: return of(Slice);
        default: return of(Sym);
        }
    }
    Made with_items(K k, const std::string& open, const std::string& close, bool comma, unsigned max = 3) {
        std::vector<Made> m;
        unsigned n = (unsigned) t.below(max + 1);
        for (unsigned i = 0; i < n; ++i) m.push_back(simple());
        std::string s = open;
        for (unsigned i = 0; i < n; ++i) s += m[i].text + (i + 1 < n || (comma && n == 1) ? ", " : "");
        return {s + close, [m, k] {
                    P p = mk(k);
                    for (auto& x : m) {
                        P e = x.make();
                        if (k == Set && find(p->v, e) >= 0) continue;
                        p->v.push_back(e);
                    }
                    return p;
                }};
    }
    Made map() {
        std::vector<std::pair<Made, Made>> m;
        unsigned n = (unsigned) t.below(4);
        for (unsigned i = 0; i < n; ++i) {
            Made k = simple(), v = simple();
            m.emplace_back(k, v);
        }
        std::string s = "(map{";
        for (unsigned i = 0; i < n; ++i) s += m[i].first.text + ": " + m[i].second.text + (i + 1 < n ? ", " : "");
        return {s + "})", [m] {
                    P p = mk(Map);
                    for (auto& [k, v] : m) {
                        P kk = k.make();
                        int i = find(p->v, kk);
                        if (i >= 0) p->w[(size_t) i] = v.make();
                        else p->v.push_back(kk), p->w.push_back(v.make());
                    }
                    return p;
                }};
    }
    Made function() {
        switch (t.below(9)) {
        case 0: return {"func() = 7", [] { return func([](const Args& a) { return a.empty() ? ok(integer(7)) : PANIC; }); }};
        case 1: return {"(func(p) = p)", [] { return func([](const Args& a) { return a.size() == 1 ? ok(a[0]) : PANIC; }); }};
        case 2: return {"three", [] { return func([](const Args& a) { return a.size() == 3 ? ok(a[1]) : PANIC; }, "three"); }};
        case 3: {
            std::string n = t.pick(std::vector<std::string>{"abs", "type_of", "success", "error", "to_utf8", "schema_of"}); // sizes are the subject of C18
            return {"std." + n, [n] { return std_function(n); }};
        }
        case 4: { // bound method
            auto& m = t.pick(methods());
            if (m.on == Type || m.on == Coro || (m.on == Builder && !strcmp(m.name, "append"))) break;
            Made x = of(m.on);
            std::string n = m.name;
            return {x.text + "." + n, [x, &m] { return bound(m, x.make()); }};
        }
        case 5: { // method function of a type
            auto& m = t.pick(methods());
            if (m.on == Builder && !strcmp(m.name, "append")) break;
            return {std::string("std.") + type_name(m.on) + "." + m.name, [&m] { return method_function(m); }};
        }
        case 6: return {"host.identity", [] { return func([](const Args& a) { return a.empty() ? PANIC : ok(a[0]); }, "host.identity"); }};
        case 7: { // the closure over a value
            Made x = simple();
            return {"(func(v) = func() = v)(" + x.text + ")", [x] {
                        P v = x.make();
                        return func([v](const Args& a) { return a.empty() ? ok(v) : PANIC; });
                    }};
        }
        default: break;
        }
        // catching panics of the function it is given
        return {"std.catch_panic", [] {
                    return func(
                        [](const Args& a) -> Out {
                            if (a.empty()) return PANIC;
                            Out o = call(a[0], Args(a.begin() + 1, a.end()));
                            P r = mk(Res);
                            r->i = !o.panic;
                            r->v = {o.panic ? text(Exc, "<any>") : o.v};
                            return ok(r);
                        },
                        "std.catch_panic");
                }};
    }
    Made of(K k) {
        auto string = [&] {
            return t.pick(std::vector<std::string>{"", "a", "abc", "b", "size", "x y", "\xc3\xa4" "bc", "abcabc", "longer than the others \xe2\x82\xac"});
        };
        switch (k) {
        case Null: return {"null", [] { return null(); }};
        case Bool: {
            bool b = t.chance(1, 2);
            return {b ? "true" : "false", [b] { return boolean(b); }};
        }
        case Int: {
            i64 i = t.chance(1, 4) ? t.pick(std::vector<i64>{1ll << 62, INT64_MAX, -(1ll << 62), -(1ll << 62) - 1, 1ll << 61, INT64_MIN + 1, 255, 256, -1, 1000000007})
                                   : (i64) t.below(6);
            return {i < 0 ? sfmt("(%lld)", (long long) i) : sfmt("%lld", (long long) i), [i] { return integer(i); }};
        }
        case Flt: {
            double f = t.pick(std::vector<double>{0.5, 1.5, -2.25, 100.125, 0.0625});
            return {f < 0 ? sfmt("(%g)", f) : sfmt("%g", f), [f] { return flt(f); }};
        }
        case Str: {
            std::string s = string();
            return {quote(s), [s] { return text(Str, s); }};
        }
        case Slice: {
            std::string s = string();
            size_t b = t.below(s.size() + 1), n = t.below(s.size() + 1 - b);
            if (t.chance(1, 4)) b = 0, n = s.size();
            std::string r = s.substr(b, n);
            return {quote(s) + sfmt(".slice(%zu, %zu)", b, n), [r] { return text(Slice, r); }};
        }
        case Sym: {
            std::string s = t.pick(std::vector<std::string>{"a", "size", "abc", "error"});
            return {"#" + s, [s] { return text(Sym, s); }};
        }
        case Tup: return with_items(Tup, "(", ")", true);
        case Arr: return with_items(Arr, "[", "]", false);
        case Set: return with_items(Set, "(set{", "})", false);
        case Rec: {
            std::vector<std::pair<std::string, Made>> m;
            for (const char* n : {"b", "f", "a"})
                if (t.chance(1, 2)) {
                    Made v = n[0] == 'f' && t.chance(3, 4) ? function() : simple();
                    m.emplace_back(n, v);
                }
            // a field may have the name of a method
            if (t.chance(1, 3)) {
                Made v = t.chance(1, 2) ? function() : simple();
                m.emplace_back(t.pick(std::vector<std::string>{"size", "append", "name", "contains", "error"}), v);
            }
            std::string s = "(";
            if (m.empty()) s += ":";
            for (size_t i = 0; i < m.size(); ++i) s += (i ? ", " : "") + m[i].first + ": " + m[i].second.text;
            return {s + ")", [m] {
                        P p = mk(Rec);
                        for (auto& [n, v] : m) p->names.push_back(n), p->w.push_back(v.make());
                        return p;
                    }};
        }
        case Map: return map();
        case KeyView:
        case ValueView: {
            Made m = map();
            return {m.text + (k == KeyView ? ".keys()" : ".values()"), [m, k] {
                        P p = mk(k);
                        p->v = {m.make()};
                        return p;
                    }};
        }
        case Buf: {
            std::vector<i64> b;
            unsigned n = (unsigned) t.below(4);
            for (unsigned i = 0; i < n; ++i) b.push_back((i64) t.below(256));
            std::string s = "buffer([";
            for (auto x : b) s += sfmt("%lld,", (long long) x);
            return {s + "])", [b] {
                        P p = mk(Buf);
                        for (auto x : b) p->v.push_back(integer(x));
                        return p;
                    }};
        }
        case Builder: {
            std::string a = string(), b = string();
            return {"builder(" + quote(a) + ", " + quote(b) + ")", [a, b] { return text(Builder, a + b); }};
        }
        case Res: {
            bool good = t.chance(1, 2);
            Made x = simple();
            return {std::string(good ? "std.success(" : "std.error(") + x.text + ")", [good, x] {
                        P p = mk(Res);
                        p->i = good;
                        p->v = {x.make()};
                        return p;
                    }};
        }
        case Exc: {
            std::string s = string();
            return {"exception(" + quote(s) + ")", [s] { return text(Exc, s); }};
        }
        case Func: return function();
        case Coro:
            if (t.chance(1, 2)) return {"std.launch(func() = 1)", [] { return mk(Coro); }};
            return {"std.current_coroutine()", [] { return unique(Coro, "current"); }};
        case Token: return {"std.coroutine_token()", [] { return unique(Token, "current"); }};
        case Mod: return {"std", [] { return unique(Mod, "std"); }};
        case Type: {
            K of = (K) t.below(KINDS);
            return {std::string("std.") + type_name(of), [of] { return type(of); }};
        }
        case Schema: return {"std.schema_of((a: 1, b: 2))", [] { return unique(Schema, "a, b"); }};
        case Native: return {"host.object", [] { return unique(Native, "host.object"); }};
        default: return {"null", [] { return null(); }};
        }
    }
    Made any() { return of((K) t.below(KINDS)); }
    // a value that equals a key or an element of the container, often one of another type or made in another way
    std::optional<Made> alike(const P& container) {
        if ((container->k != Map && container->k != Set && container->k != Arr) || container->v.empty()) return {};
        P p = container->v[t.below(container->v.size())];
        bool other = t.chance(2, 3);
        switch (p->k) {
        case Str:
        case Slice: {
            std::string s = p->s;
            if (std::any_of(s.begin(), s.end(), [](char ch) { return (unsigned char) ch >= 128; })) return {}; // maybe a part of a character
            if ((p->k == Str) == other) return Made{quote("<" + s + ">") + sfmt(".slice(1, %zu)", s.size()), [s] { return text(Slice, s); }};
            return Made{quote(s), [s] { return text(Str, s); }};
        }
        case Int: {
            i64 i = p->i;
            if (other && i >= -1000 && i <= 1000) return Made{sfmt("(%lld.0)", (long long) i), [i] { return flt((double) i); }};
            return Made{sfmt("(%lld)", (long long) i), [i] { return integer(i); }};
        }
        case Flt: {
            double f = p->f;
            return Made{sfmt("(%g)", f), [f] { return flt(f); }};
        }
        case Sym: {
            std::string s = p->s;
            if (other) return Made{quote(s), [s] { return text(Str, s); }}; // never equal
            return Made{"#" + s, [s] { return text(Sym, s); }};
        }
        default: return {};
        }
    }
    Made argument(K receiver, const std::string& m, unsigned i) {
        if (m == "append" && receiver != Arr) return simple(); // the text of other values is not fixed
        if (t.chance(1, 8)) return any();
        if (m.rfind("slice", 0) == 0 || m == "append_byte") return of(Int);
        if (m == "contains" && (receiver == Str || receiver == Slice || receiver == Builder)) return t.chance(1, 2) ? of(Str) : of(Slice);
        (void) i;
        return simple();
    }
};

// ------------------------------------------------------------------------------------------------------- operations
struct Op {
    std::string what;                // label
    std::string expr;                // uses x, a0, a1, ...; an expression, or the statements of a function body
    bool body = false;               // expr is a body
    std::function<Out(const P& x, const Args& a)> model;
    bool only_kind = false;          // the result is not known exactly, only its type
    bool inlined = false;            // the value of x is created by the operation itself
};
struct Probe {
    Made x;
    std::vector<Made> args;
    Op op;
};

std::string arg_list(size_t n, size_t from = 0) {
    std::string s;
    for (size_t i = from; i < n; ++i) s += (i > from ? ", " : "") + sfmt("a%zu", i);
    return s;
}

// All ways to call the method m of the receiver; w in [0, WAYS)
const int WAYS = 13;
Op method_way(int w, const std::string& m, size_t n, K type_arg, const Made& x, K xk) {
    Op o;
    std::string A = arg_list(n), XA = n ? "x, " + A : "x";
    // what x.m(...) does
    auto direct = [m](const P& x, const Args& a) -> Out {
        if (x->k == Rec || x->k == Mod || x->k == Type) {
            Out f = get_member(x, m);
            return f.panic ? f : call(f.v, a);
        }
        auto f = method(x->k, m);
        if (!f) return PANIC;
        Args b{x};
        b.insert(b.end(), a.begin(), a.end());
        return apply_method(*f, b);
    };
    auto through_type = [m](std::optional<K> k) {
        return [m, k](const P& x, const Args& a) -> Out {
            auto f = method(k ? *k : x->k, m);
            if (!f) return PANIC;
            Args b{x};
            b.insert(b.end(), a.begin(), a.end());
            return apply_method(*f, b);
        };
    };
    o.model = direct;
    switch (w) {
    case 0: o.what = "x.m()", o.expr = "x." + m + "(" + A + ")"; break;
    case 1:
        o.what = "x?.m()", o.expr = "x?." + m + "(" + A + ")";
        o.model = [direct](const P& x, const Args& a) { return x->k == Null ? ok(null()) : direct(x, a); };
        break;
    case 2: o.what = "bound, then called", o.body = true, o.expr = "const f = x." + m + "; return f(" + A + ");"; break;
    case 3: o.what = "type_of(x).m(x)", o.expr = "std.type_of(x)." + m + "(" + XA + ")", o.model = through_type({}); break;
    case 4: o.what = "std.T.m(x)", o.expr = sfmt("std.%s.", type_name(type_arg)) + m + "(" + XA + ")", o.model = through_type(type_arg); break;
    case 5: o.what = "bound in a record", o.body = true, o.expr = "const r = (f: x." + m + "); return r.f(" + A + ");"; break;
    case 6: o.what = "bound in an array", o.expr = "[1, x." + m + "][1](" + A + ")"; break;
    case 7: o.what = "bound, then passed", o.expr = sfmt("call%zu(x.", n) + m + (n ? ", " + A : "") + ")"; break;
    case 8:
        o.what = "x?.m?()", o.expr = "x?." + m + "?(" + A + ")";
        // a record may hold null there
        o.model = [direct, m](const P& x, const Args& a) {
            if (x->k == Null) return ok(null());
            Out f = get_member(x, m);
            if (!f.panic && f.v->k == Null) return ok(null());
            return direct(x, a);
        };
        break;
    case 9: o.what = "function of the type, then called", o.body = true, o.expr = "const f = std.type_of(x)." + m + "; return f(" + XA + ");", o.model = through_type({}); break;
    case 10: o.what = "called in a closure", o.body = true, o.expr = "const f = func() = x." + m + "(" + A + "); return f();"; break;
    case 11: o.what = "called in a loop", o.body = true, o.expr = "var r = []; for e in [x] { r = [e." + m + "(" + A + ")]; } return r[0];"; break;
    default:
        if (xk == Mod || xk == Func) return method_way(0, m, n, type_arg, x, xk); // names are resolved, precedence
        o.what = "on the expression", o.inlined = true, o.expr = "(" + x.text + ")." + m + "(" + A + ")";
    }
    // names of coroutines are not fixed
    o.only_kind = m == "name" || m == "message";
    return o;
}

Op gen_op(Gen& g, Made& x, K xk, std::vector<Made>& args) {
    Tape& t = g.t;
    Op o;
    auto arg = [&](Made m) { args.push_back(std::move(m)); };
    static const std::vector<std::string> members{"a", "b", "f", "size", "append", "name", "error", "nope", "abs", "contains", "Array", "value"};
    switch (t.weighted({10, 3, 3, 3, 3, 2, 2, 2, 3, 3, 2, 3, 2, 2, 1, 2})) {
    case 0: {
        std::string m;
        if (t.chance(3, 4)) {
            std::vector<std::string> own;
            for (auto& d : methods())
                if (d.on == xk || (xk == Type && d.on == x.make()->i)) own.push_back(d.name);
            P first = x.make();
            if (xk == Rec)
                for (auto& n : first->names) own.push_back(n);
            if (!own.empty()) m = t.pick(own);
        }
        if (m.empty()) m = t.chance(1, 8) ? "nope" : t.pick(methods()).name;
        auto d = method(xk, m);
        if (!d)
            for (auto& e : methods())
                if (m == e.name) d = &e;
        unsigned n = d ? d->argc : 0;
        if (xk == Type && t.chance(3, 4)) {
            arg(t.chance(3, 4) ? g.of((K) x.make()->i) : g.any());
        } else if (t.chance(1, 8))
            n = (unsigned) t.below(3);
        if (d && d->on == Builder && m == "append") n = (unsigned) t.below(3);
        for (unsigned i = 0; i < n && args.size() < 2; ++i) {
            auto same = i == 0 && t.chance(1, 2) ? g.alike(x.make()) : std::nullopt;
            arg(same ? *same : g.argument(xk, m, i));
        }
        K ta = t.chance(3, 4) ? xk : (K) t.below(KINDS);
        if (t.chance(1, 4) && d) ta = d->on;
        return method_way((int) t.below(WAYS), m, args.size(), ta, x, xk);
    }
    case 1: {
        std::string m = t.pick(members);
        bool opt = t.chance(1, 3);
        o.what = opt ? "x?.m" : "x.m";
        o.expr = (opt ? "x?." : "x.") + m;
        o.model = [m, opt](const P& x, const Args&) { return opt && x->k == Null ? ok(null()) : get_member(x, m); };
        return o;
    }
    case 2: {
        std::string m = t.pick(members);
        arg(g.simple());
        o.what = "x.m = v";
        o.expr = "x." + m + " = a0";
        o.model = [m](const P& x, const Args& a) {
            if (x->k == Rec)
                for (size_t i = 0; i < x->names.size(); ++i)
                    if (x->names[i] == m) return x->w[i] = a[0], ok(a[0]);
            return PANIC;
        };
        return o;
    }
    case 3: {
        auto same = xk == Map && t.chance(1, 2) ? g.alike(x.make()) : std::nullopt;
        arg(same ? *same : t.chance(2, 3) ? g.of(Int) : t.chance(1, 2) ? g.simple() : g.any());
        bool opt = t.chance(1, 3);
        o.what = opt ? "x?[k]" : "x[k]";
        o.expr = opt ? "x?[a0]" : "x[a0]";
        o.model = [opt](const P& x, const Args& a) -> Out {
            if (opt && x->k == Null) return ok(null());
            if (x->k == Map) {
                int i = find(x->v, a[0]);
                return ok(i < 0 ? null() : x->w[(size_t) i]);
            }
            if (x->k != Arr && x->k != Tup && x->k != Buf) return PANIC;
            if (a[0]->k != Int || a[0]->i < 0 || (size_t) a[0]->i >= x->v.size()) return PANIC;
            return ok(x->v[(size_t) a[0]->i]);
        };
        return o;
    }
    case 4: {
        auto same = xk == Map && t.chance(1, 2) ? g.alike(x.make()) : std::nullopt;
        arg(same ? *same : t.chance(2, 3) ? g.of(Int) : t.chance(1, 2) ? g.simple() : g.any());
        arg(t.chance(1, 2) ? g.of(Int) : g.simple());
        o.what = "x[k] = v";
        o.expr = "x[a0] = a1";
        o.model = [](const P& x, const Args& a) -> Out {
            if (x->k == Map) {
                int i = find(x->v, a[0]);
                if (i < 0) x->v.push_back(a[0]), x->w.push_back(a[1]);
                else x->w[(size_t) i] = a[1];
                return ok(a[1]);
            }
            if (x->k != Arr && x->k != Tup && x->k != Buf) return PANIC;
            if (a[0]->k != Int || a[0]->i < 0 || (size_t) a[0]->i >= x->v.size()) return PANIC;
            if (x->k == Buf && (a[1]->k != Int || a[1]->i < 0 || a[1]->i > 255)) return PANIC;
            x->v[(size_t) a[0]->i] = a[1];
            return ok(a[1]);
        };
        return o;
    }
    case 5: {
        size_t i = t.below(4);
        bool opt = t.chance(1, 3);
        o.what = opt ? "x?.0" : "x.0";
        o.expr = sfmt(opt ? "x?.%zu" : "x.%zu", i);
        o.model = [i, opt](const P& x, const Args&) -> Out {
            if (opt && x->k == Null) return ok(null());
            return x->k == Tup && i < x->v.size() ? ok(x->v[i]) : PANIC;
        };
        return o;
    }
    case 6: {
        size_t i = t.below(4);
        arg(g.simple());
        o.what = "x.0 = v";
        o.expr = sfmt("x.%zu = a0", i);
        o.model = [i](const P& x, const Args& a) -> Out {
            if (x->k != Tup || i >= x->v.size()) return PANIC;
            x->v[i] = a[0];
            return ok(a[0]);
        };
        return o;
    }
    case 7: {
        o.what = "for in x";
        o.expr = "iterate(x)";
        o.model = [](const P& x, const Args&) -> Out {
            P r = mk(Arr);
            switch (x->k) {
            case Arr:
            case Tup:
            case Set: r->v = x->v; break;
            case KeyView: r->v = x->v[0]->v; break;
            case ValueView: r->v = x->v[0]->w; break;
            case Map:
                for (size_t i = 0; i < x->v.size(); ++i) {
                    P e = mk(Tup);
                    e->v = {x->v[i], x->w[i]};
                    r->v.push_back(e);
                }
                break;
            case Str:
            case Slice:
                for (char c : x->s) r->v.push_back(text(Str, std::string(1, c)));
                break;
            default: return PANIC;
            }
            return ok(r);
        };
        return o;
    }
    case 8: {
        unsigned n = (unsigned) t.below(4);
        for (unsigned i = 0; i < n; ++i) arg(t.chance(1, 2) ? g.simple() : g.any());
        bool opt = t.chance(1, 3);
        o.what = opt ? "x?()" : "x()";
        o.expr = std::string(opt ? "x?(" : "x(") + arg_list(n) + ")";
        o.only_kind = true; // messages and names
        o.model = [opt](const P& x, const Args& a) { return opt && x->k == Null ? ok(null()) : call(x, a); };
        return o;
    }
    case 9: {
        int w = (int) t.below(4);
        o.what = "unary operator";
        o.expr = std::string(1, "-+!~"[w]) + "x";
        o.model = [w](const P& x, const Args&) -> Out {
            if (w == 2) return ok(boolean(!truthy(x)));
            if (w == 3) return x->k == Int ? ok(integer(~x->i)) : PANIC;
            if (x->k == Flt) return ok(flt(w == 0 ? -x->f : x->f));
            if (x->k != Int) return PANIC;
            return w == 1 ? ok(x) : x->i == INT64_MIN ? PANIC : ok(integer(-x->i));
        };
        return o;
    }
    case 10: {
        arg(t.chance(1, 2) ? g.of(Int) : t.chance(1, 2) ? g.of(xk) : g.any());
        int w = (int) t.below(9); // without & | ^: known finding of C03
        static const char* ops[] = {"+", "-", "*", "<", "<=", ">", ">=", "==", "!="};
        o.what = "binary operator";
        bool flip = t.chance(1, 2);
        o.expr = (flip ? "a0 " : "x ") + std::string(ops[w]) + (flip ? " x" : " a0");
        o.model = [w, flip](const P& x, const Args& a) -> Out {
            const P &l = flip ? a[0] : x, &r = flip ? x : a[0];
            if (w >= 7) return ok(boolean(eq(l, r) == (w == 7)));
            if (w >= 3 && w <= 6) {
                int cmp;
                if (l->k == Null || r->k == Null) cmp = l->k == r->k ? 0 : l->k == Null ? -1 : 1;
                else if (!num(l) || !num(r)) return PANIC;
                else if (l->k == Int && r->k == Int) cmp = l->i < r->i ? -1 : l->i > r->i;
                else {
                    long double p = l->k == Int ? (long double) l->i : l->f, q = r->k == Int ? (long double) r->i : r->f;
                    cmp = p < q ? -1 : p > q;
                }
                return ok(boolean(w == 3 ? cmp < 0 : w == 4 ? cmp <= 0 : w == 5 ? cmp > 0 : cmp >= 0));
            }
            if (!num(l) || !num(r)) return PANIC;
            if (l->k == Int && r->k == Int) {
                i64 v;
                bool over = w == 0 ? __builtin_add_overflow(l->i, r->i, &v) : w == 1 ? __builtin_sub_overflow(l->i, r->i, &v) : __builtin_mul_overflow(l->i, r->i, &v);
                return over ? PANIC : ok(integer(v));
            }
            P v = flt(w == 0 ? as_f(l) + as_f(r) : w == 1 ? as_f(l) - as_f(r) : as_f(l) * as_f(r));
            return ok(v);
        };
        o.only_kind = w < 3; // the text of a float is the subject of C03
        return o;
    }
    case 11: {
        int w = (int) t.below(3);
        K k = t.chance(1, 2) ? xk : (K) t.below(KINDS);
        o.what = "type of x";
        o.expr = w == 0 ? "std.type_of(x)" : w == 1 ? "std.Type.name(std.type_of(x))" : sfmt("std.type_of(x) == std.%s", type_name(k));
        o.model = [w, k](const P& x, const Args&) { return w == 0 ? ok(type(x->k)) : w == 1 ? ok(text(Str, type_name(x->k))) : ok(boolean(x->k == k)); };
        return o;
    }
    case 12: {
        std::string n = t.pick(std::vector<std::string>{"abs", "success", "error", "to_utf8", "new_buffer", "schema_of", "panic"});
        if (n == "new_buffer" && xk == Int) n = "success"; // sizes are the subject of C18
        if (t.chance(1, 4)) arg(g.simple());               // ignored
        o.what = "function of std";
        o.expr = "std." + n + "(x" + (args.empty() ? "" : ", a0") + ")";
        o.only_kind = n == "abs";
        o.model = [n](const P& x, const Args&) { return call(std_function(n), {x}); };
        return o;
    }
    case 13: {
        int w = (int) t.below(5);
        arg(g.simple());
        static const char* e[] = {"if x { 1; } else { 2; }", "x ?? a0", "x && a0", "x || a0", "(func() { assert(x, \"m\"); return 1; })()"};
        o.what = "x as a condition";
        o.expr = e[w];
        o.model = [w](const P& x, const Args& a) -> Out {
            switch (w) {
            case 0: return ok(integer(truthy(x) ? 1 : 2));
            case 1: return ok(x->k == Null ? a[0] : x);
            case 2: return ok(truthy(x) ? a[0] : x);
            case 3: return ok(truthy(x) ? x : a[0]);
            default: return truthy(x) ? ok(integer(1)) : PANIC;
            }
        };
        return o;
    }
    case 14: {
        size_t n = 1 + t.below(3);
        o.what = "destructuring";
        o.body = true;
        o.expr = std::string("const (") + (n == 1 ? "p," : n == 2 ? "p, q" : "p, q, r") + ") = x; return " + (n == 1 ? "(p,)" : n == 2 ? "(q, p)" : "(r, p, q)") + ";";
        o.model = [n](const P& x, const Args&) -> Out {
            if (x->k != Tup || x->v.size() < n) return PANIC;
            P r = mk(Tup);
            if (n == 1) r->v = {x->v[0]};
            else if (n == 2) r->v = {x->v[1], x->v[0]};
            else r->v = {x->v[2], x->v[0], x->v[1]};
            return ok(r);
        };
        return o;
    }
    default: {
        // compound assignment to an element: reads, computes and writes, or does nothing
        arg(t.chance(2, 3) ? g.of(Int) : g.simple());
        bool member = t.chance(1, 3);
        o.what = "x[k] += 1";
        o.expr = member ? "x.a += 1" : "x[a0] += 1";
        o.only_kind = true;
        o.model = [member](const P& x, const Args& a) -> Out {
            P* slot = nullptr;
            int i;
            if (member) {
                if (x->k != Rec) return PANIC;
                for (size_t j = 0; j < x->names.size(); ++j)
                    if (x->names[j] == "a") slot = &x->w[j];
            } else if (x->k == Map) {
                i = find(x->v, a[0]);
                if (i >= 0) slot = &x->w[(size_t) i];
            } else if (x->k == Arr || x->k == Tup || x->k == Buf) {
                if (a[0]->k == Int && a[0]->i >= 0 && (size_t) a[0]->i < x->v.size()) slot = &x->v[(size_t) a[0]->i];
            }
            if (!slot || !num(*slot)) return PANIC;
            P r;
            if ((*slot)->k == Flt) r = flt((*slot)->f + 1);
            else if ((*slot)->i == INT64_MAX || (x->k == Buf && (*slot)->i == 255)) return PANIC;
            else r = integer((*slot)->i + 1);
            *slot = r;
            return ok(r);
        };
        return o;
    }
    }
}

std::string probe_text(const Probe& p, int i) {
    std::string s = sfmt("func probe%d() {\n", i);
    if (!p.op.inlined) s += "    const x = " + p.x.text + ";\n";
    for (size_t k = 0; k < p.args.size(); ++k) s += sfmt("    const a%zu = ", k) + p.args[k].text + ";\n";
    std::string body = p.op.body ? "{ " + p.op.expr + " }" : "{ return " + p.op.expr + "; }";
    s += "    const r = outcome(func() " + body + ");\n";
    s += "    return (r, ";
    s += p.op.inlined ? "\"\", " : "show(x, 0), ";
    s += "[";
    for (size_t k = 0; k < p.args.size(); ++k) s += sfmt("show(a%zu, 0), ", k);
    s += p.op.inlined ? "], null);\n}\n" : "], x);\n}\n";
    return s;
}
// equal up to the messages of exceptions that are not known
bool matches(const std::string& want, const std::string& got) {
    size_t a = want.find("<any>"), b = want.rfind("<any>");
    if (a == std::string::npos) return want == got;
    size_t tail = want.size() - b - 5;
    return got.size() >= a + tail && !got.compare(0, a, want, 0, a) && !got.compare(got.size() - tail, tail, want, b + 5, tail);
}
std::string expected(const Out& o) { return o.panic ? "panic" : show(o.v); }

// results of which only the type is fixed
std::string kind_text(const std::string& s) {
    if (s == "panic") return s;
    size_t i = 0;
    if (!s.empty() && (isdigit((unsigned char) s[0]) || s[0] == '-')) return "integer";
    if (s.size() > 1 && s[0] == 'f' && (isdigit((unsigned char) s[1]) || s[1] == '-')) return "float";
    while (i < s.size() && (isalpha((unsigned char) s[i]) || s[i] == '(' || s[i] == '[' || s[i] == '{' || s[i] == '\'' || s[i] == '#')) {
        if (!isalpha((unsigned char) s[i])) return s.substr(0, i + 1);
        ++i;
    }
    return s.substr(0, i);
}

const tiro_native_type_t native_type{{"c25", 3}, 1, nullptr};

struct World {
    Vm vm;
    std::optional<H> result;
    World()
        : vm(256u << 20) {
        H obj = vm.h();
        MUST(tiro_make_native(vm, &native_type, 8, obj, must));
        H id = vm.sync_function("identity",
            [](tiro_vm_t v, tiro_sync_frame_t f) {
                Err e;
                H a(v);
                tiro_sync_frame_arg(f, 0, a, e);
                tiro_sync_frame_return_value(f, a, e);
            },
            1);
        vm.load_native("host", {{"object", obj}, {"identity", id}});
    }
};

std::string source(const std::vector<Probe>& ps) {
    std::string s;
    for (size_t i = 0; i < ps.size(); ++i) s += probe_text(ps[i], (int) i);
    s += "export func main() = [\n";
    for (size_t i = 0; i < ps.size(); ++i) s += sfmt("    probe%zu(),\n", i);
    return s + "];\n";
}

// runs the probes; every result: outcome, x, arguments
struct Got {
    std::string outcome, x, args;
};
std::vector<Got> execute(Case& c, const std::vector<Probe>& ps, const std::vector<P>& finals) {
    std::string src = source(ps);
    c.add(src);
    Compiled m = compile("test", std::string(PRELUDE) + src);
    if (!m.ok()) {
        std::string d;
        for (auto& x : m.diags) d += sfmt("\n%d:%d: ", (int) x.line, (int) x.column) + x.text;
        c.fail("the program does not compile" + d);
    }
    World w;
    w.vm.load(m);
    CallResult r = w.vm.call("test", "main");
    if (r.kind == CallResult::error) c.fail("running the program failed: " + r.message);
    if (!r.ok()) c.fail("the program did not return: " + r.message);
    std::vector<Got> out;
    for (size_t i = 0; i < ps.size(); ++i) {
        H e = w.vm.h(), f = w.vm.h();
        MUST(tiro_array_get(w.vm, r.value, i, e, must));
        Got g;
        MUST(tiro_tuple_get(w.vm, e, 0, f, must));
        g.outcome = w.vm.text(f);
        MUST(tiro_tuple_get(w.vm, e, 1, f, must));
        g.x = w.vm.text(f);
        MUST(tiro_tuple_get(w.vm, e, 2, f, must));
        for (size_t k = 0, n = tiro_array_size(w.vm, f); k < n; ++k) {
            H s = w.vm.h();
            MUST(tiro_array_get(w.vm, f, k, s, must));
            g.args += w.vm.text(s) + "; ";
        }
        // the same type seen from the host
        if (!ps[i].op.inlined) {
            MUST(tiro_tuple_get(w.vm, e, 3, f, must));
            K k = finals[i]->k;
            int kind = tiro_value_kind(w.vm, f);
            if (kind != kind_of(k)) c.fail(sfmt("probe %zu: the kind of the value is %s, expected %s", i, tiro_kind_str((tiro_kind_t) kind), tiro_kind_str((tiro_kind_t) kind_of(k))));
            H ty = w.vm.h(), name = w.vm.h(), ty2 = w.vm.h();
            MUST(tiro_value_type(w.vm, f, ty, must));
            MUST(tiro_type_name(w.vm, ty, name, must));
            if (w.vm.text(name) != type_name(k)) c.fail(sfmt("probe %zu: the type of the value is %s, expected %s", i, w.vm.text(name).c_str(), type_name(k)));
            Err e2;
            tiro_kind_type(w.vm, (tiro_kind_t) kind, ty2, e2);
            if (kind_of(k) == TIRO_KIND_INTERNAL ? e2.ok() : !e2.ok()) c.fail(sfmt("probe %zu: tiro_kind_type: ", i) + e2.text());
            if (e2.ok() && !tiro_value_same(w.vm, ty, ty2)) c.fail(sfmt("probe %zu: the type of the value is not the type of its kind", i));
        }
        out.push_back(g);
    }
    return out;
}

void check_probe(Case& c, size_t i, const Probe& p, const P& x, const Args& args, const Out& o, const Got& g) {
    std::string want = expected(o);
    auto where = [&] { return sfmt("probe %zu, %s (x: %s): ", i, p.op.what.c_str(), p.x.text.c_str()); };
    bool same = p.op.only_kind ? kind_text(want) == kind_text(g.outcome) : matches(want, g.outcome);
    if (!same) c.fail(where() + "the outcome is " + g.outcome + ", expected " + want);
    if (!p.op.inlined && !matches(show(x), g.x)) c.fail(where() + "the value is " + g.x + " afterwards, expected " + show(x));
    std::string wa;
    for (auto& a : args) wa += show(a) + "; ";
    if (!matches(wa, g.args)) c.fail(where() + "the arguments are " + g.args + " afterwards, expected " + wa);
}

void operations(Case& c) {
    Gen g(c.t);
    std::vector<Probe> ps;
    unsigned n = 1 + (unsigned) c.t.below(12);
    for (unsigned i = 0; i < n; ++i) {
        K k = (K) c.t.below(KINDS);
        Probe p;
        p.x = g.of(k);
        p.op = gen_op(g, p.x, k, p.args);
        c.label(p.op.what);
        c.label(std::string("type ") + type_name(k));
        ps.push_back(std::move(p));
    }
    std::vector<P> xs;
    std::vector<Args> as;
    std::vector<Out> os;
    unsigned panics = 0, values = 0;
    for (auto& p : ps) {
        P x = p.x.make();
        Args a;
        for (auto& m : p.args) a.push_back(m.make());
        Out o = p.op.model(x, a);
        ++(o.panic ? panics : values);
        xs.push_back(x), as.push_back(a), os.push_back(o);
    }
    auto got = execute(c, ps, xs);
    for (size_t i = 0; i < ps.size(); ++i) check_probe(c, i, ps[i], xs[i], as[i], os[i], got[i]);
    c.count("operations that panic", panics);
    c.count("operations with a value", values);
    c.nontrivial = values > 0;
}

void agreement(Case& c) {
    Gen g(c.t);
    auto& m = c.t.pick(methods());
    K k = c.t.chance(7, 8) ? m.on : (K) c.t.below(KINDS);
    if (k == Rec || k == Type || k == Mod || k == Null) k = m.on == Type ? Arr : m.on; // a member is not a method there
    Made x = g.of(k);
    unsigned n = m.argc;
    if (m.on == Builder && !strcmp(m.name, "append")) n = (unsigned) c.t.below(3);
    else if (c.t.chance(1, 10)) n = (unsigned) c.t.below(3);
    std::vector<Made> args;
    for (unsigned i = 0; i < n; ++i) args.push_back(g.argument(k, m.name, i));
    std::vector<Probe> ps;
    std::vector<P> xs;
    for (int w = 0; w < WAYS; ++w) {
        Probe p{x, args, method_way(w, m.name, n, k, x, k)};
        xs.push_back(x.make());
        ps.push_back(p);
    }
    auto got = execute(c, ps, xs);
    bool value = false;
    for (size_t i = 0; i < ps.size(); ++i) {
        P y = x.make();
        Args a;
        for (auto& v : args) a.push_back(v.make());
        Out o = ps[i].op.model(y, a);
        check_probe(c, i, ps[i], y, a, o, got[i]);
        if (got[i].outcome != got[0].outcome) c.fail(sfmt("%s and %s do not agree: %s, %s", ps[0].op.what.c_str(), ps[i].op.what.c_str(), got[0].outcome.c_str(), got[i].outcome.c_str()));
        if (!ps[i].op.inlined && (got[i].x != got[0].x || got[i].args != got[0].args))
            c.fail(sfmt("%s and %s leave different values: ", ps[0].op.what.c_str(), ps[i].op.what.c_str()) + got[0].x + ", " + got[i].x);
        value = value || !o.panic;
    }
    c.label(sfmt("%s.%s", type_name(m.on), m.name));
    c.nontrivial = value;
}

} // namespace

int main(int argc, char** argv) {
    return pbt::Runner("C25",
        "operations: at least one operation that has a value; agreement: the operation has a value",
        {
            Suite{"operations", 5000, 400000, operations},
            Suite{"agreement", 1500, 100000, agreement},
        },
        {}, {})
        .main(argc, argv);
}
