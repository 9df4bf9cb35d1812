// C14: the C API. Random calls with random arguments (null handles, values of every type, numbers out of range) against a
// model that knows the documented error of every call; after every call all values are compared with the model, so a
// failed call must not have any effect. The error argument is a null pointer, an empty one or one that already holds an
// error, which must not change.
#include "pbt.hpp"
#include "tiro_util.hpp"
#include <fcntl.h>
#include <unistd.h>

#include <climits>
#include <cmath>
#include <set>

using namespace tu;
using pbt::Case;
using pbt::Suite;
using pbt::Tape;

namespace {

using Codes = std::set<tiro_errc_t>;
const Codes OK{TIRO_OK}, BAD_ARG{TIRO_ERROR_BAD_ARG}, BAD_TYPE{TIRO_ERROR_BAD_TYPE}, BAD_STATE{TIRO_ERROR_BAD_STATE},
    BOUNDS{TIRO_ERROR_OUT_OF_BOUNDS}, BAD_KEY{TIRO_ERROR_BAD_KEY}, ALLOC{TIRO_ERROR_ALLOC};
const Codes ANY_ERROR{TIRO_ERROR_BAD_STATE, TIRO_ERROR_BAD_ARG, TIRO_ERROR_BAD_SOURCE, TIRO_ERROR_BAD_TYPE, TIRO_ERROR_BAD_KEY,
    TIRO_ERROR_MODULE_EXISTS, TIRO_ERROR_MODULE_NOT_FOUND, TIRO_ERROR_EXPORT_NOT_FOUND, TIRO_ERROR_OUT_OF_BOUNDS, TIRO_ERROR_ALLOC,
    TIRO_ERROR_INTERNAL};

std::string names(const Codes& s) {
    std::string r;
    for (auto c : s) r += (r.empty() ? "" : " or ") + std::string(tiro_errc_name(c));
    return r;
}
// an error unlike those the calls under test report
tiro_error_t foreign_error() {
    tiro_error_t e = nullptr;
    tiro_compiler_run(nullptr, &e);
    return e;
}

// Calls f with one of the three kinds of error arguments and checks the outcome. Returns whether the call succeeded.
template<typename F>
bool check_call(Case& c, const std::string& what, const Codes& allowed, F&& f) {
    unsigned mode = (unsigned) c.t.weighted({6, 1, 1});
    bool ambiguous = allowed.count(TIRO_OK) && allowed.size() > 1;
    if (ambiguous) mode = 0;
    c.describe(what + (mode == 1 ? "  [no error argument]" : mode == 2 ? "  [error argument holds an error]" : "") + " -> " + names(allowed));
    bool ok = !!allowed.count(TIRO_OK);
    if (mode == 1) {
        f((tiro_error_t*) nullptr);
        c.count("null error argument", 1);
    } else if (mode == 2) {
        tiro_error_t e = foreign_error(), before = e;
        std::string details = tiro_error_details(e);
        f(&e);
        if (e != before) throw Fail{what + ": the error argument held an error already, it was overwritten"};
        if (tiro_error_errc(e) != TIRO_ERROR_BAD_ARG || details != tiro_error_details(e)) throw Fail{what + ": the error in the error argument was modified"};
        tiro_error_free(e);
        c.count("error argument in use", 1);
    } else {
        Err e;
        f(&e.e);
        if (!allowed.count(e.code())) throw Fail{what + ": reported " + (e.ok() ? "OK" : e.text()) + ", expected " + names(allowed)};
        if ((e.e == nullptr) != (e.code() == TIRO_OK)) throw Fail{what + ": an error with code OK"};
        if (e.e && (!tiro_error_details(e.e) || !*tiro_error_message(e.e))) throw Fail{what + ": error without description"};
        ok = e.ok();
    }
    c.count(ok ? "successful calls" : "failed calls", 1);
    if (!ok) c.count(std::string("error ") + tiro_errc_name(*allowed.begin()), 1);
    return ok;
}

// ------------------------------------------------------------------------------------------------ model
struct Obj;
using M = std::shared_ptr<Obj>;
struct Callback {
    int calls = 0, cleanups = 0;
    bool has_cleanup = false, fired = false, replaced = false;
    tiro_handle_t coro = nullptr;
    tiro_vm_t vm = nullptr;
    bool bad = false;
};
struct Obj {
    tiro_kind_t kind = TIRO_KIND_NULL;
    i64 i = 0;
    f64 d = 0;
    std::string s;           // string, name of a type, message of an exception, type name of internal values
    std::vector<M> items;    // tuple, array, result (one), record
    std::vector<std::string> keys; // record, schema
    bool success = false;
    std::map<std::string, M> exports;
    // function
    int fn = -1;
    size_t argc = 0;
    M closure;
    // coroutine
    enum { fresh, started, stuck, done } state = fresh;
    std::vector<M> args;
    M func, result;
    Callback* cb = nullptr;
    // native
    const tiro_native_type_t* type = nullptr;
    size_t size = 0;
};
M mk(tiro_kind_t k) {
    auto m = std::make_shared<Obj>();
    m->kind = k;
    return m;
}
M mk_int(i64 i) {
    auto m = mk(TIRO_KIND_INTEGER);
    m->i = i;
    return m;
}
M mk_str(std::string s) {
    auto m = mk(TIRO_KIND_STRING);
    m->s = std::move(s);
    return m;
}
M mk_seq(tiro_kind_t k, std::vector<M> v) {
    auto m = mk(k);
    m->items = std::move(v);
    return m;
}

enum Fn { f_id, f_zero, f_boom, f_pair, f_wait, f_native, f_native_async, f_size, f_contains, f_catch };

const struct {
    tiro_kind_t kind;
    const char* name;
} public_kinds[] = {{TIRO_KIND_NULL, "Null"}, {TIRO_KIND_BOOLEAN, "Boolean"}, {TIRO_KIND_INTEGER, "Integer"}, {TIRO_KIND_FLOAT, "Float"},
    {TIRO_KIND_STRING, "String"}, {TIRO_KIND_BUFFER, "Buffer"}, {TIRO_KIND_FUNCTION, "Function"}, {TIRO_KIND_TUPLE, "Tuple"},
    {TIRO_KIND_RECORD, "Record"}, {TIRO_KIND_RECORD_SCHEMA, "RecordSchema"}, {TIRO_KIND_ARRAY, "Array"}, {TIRO_KIND_RESULT, "Result"},
    {TIRO_KIND_EXCEPTION, "Exception"}, {TIRO_KIND_COROUTINE, "Coroutine"}, {TIRO_KIND_MODULE, "Module"}, {TIRO_KIND_TYPE, "Type"},
    {TIRO_KIND_NATIVE, "NativeObject"}};

const Compiled& prelude() {
    static Compiled m = compile("prelude", R"(
import std;
import host;
export func id(x) { return x; }
export func zero() { return 42; }
export func boom(x) { std.panic("boom"); }
export func pair(a, b) { return (a, b); }
export func wait() { return host.stop(); }
export const a_map = map { "a": 1 };
export const a_set = set { 1 };
export const a_symbol = #sym;
export const a_slice = "hello".slice(1, 2);
export const a_builder = std.new_string_builder();
export const an_exception = std.catch_panic(func() { std.panic("msg"); }).error();
export const a_record = (x: 1, y: "z");
export const a_method = "abc".size;
export const another_method = "abc".contains;
export const a_magic = std.catch_panic;
)");
    return m;
}
const Compiled& small_module(int i) {
    static Compiled m[3] = {compile("mod0", "export const v = 1; export func f() { return v; }\n"), compile("mod1", "const hidden = 1; export const v = \"x\";\n"),
        compile("mod2", "import unknown_module; export const v = 2;\n")};
    return m[i];
}

// the storage is aligned or the allocation fails
tiro_native_type_t aligned_types[] = {{{"a32", 3}, 32, nullptr}, {{"a64", 3}, 64, nullptr}, {{"a128", 4}, 128, nullptr}, {{"a4096", 5}, 4096, nullptr}};
tiro_native_type_t native_types[3] = {
    {{"first", 5}, 8, nullptr},
    {{"second", 6}, 1, [](void* d, size_t n) { memset(d, 0xee, n); }},
    {{nullptr, 0}, 16, nullptr}, // an empty name is a valid string
};
// answers with (closure, arguments...)
void native_echo(tiro_vm_t vm, tiro_sync_frame_t f) {
    size_t n = tiro_sync_frame_arg_count(f);
    H t(vm), x(vm);
    Err e;
    tiro_make_tuple(vm, n + 1, t, e);
    tiro_sync_frame_closure(f, x, e);
    tiro_tuple_set(vm, t, 0, x, e);
    for (size_t i = 0; i < n; ++i) {
        tiro_sync_frame_arg(f, i, x, e);
        tiro_tuple_set(vm, t, i + 1, x, e);
    }
    tiro_sync_frame_return_value(f, t, e);
}
void native_echo_async(tiro_vm_t vm, tiro_async_frame_t f) {
    size_t n = tiro_async_frame_arg_count(f);
    H t(vm), x(vm);
    Err e;
    tiro_make_tuple(vm, n + 1, t, e);
    tiro_async_frame_closure(f, x, e);
    tiro_tuple_set(vm, t, 0, x, e);
    for (size_t i = 0; i < n; ++i) {
        tiro_async_frame_arg(f, i, x, e);
        tiro_tuple_set(vm, t, i + 1, x, e);
    }
    tiro_async_frame_return_value(f, t, e);
}
void native_echo_resumable(tiro_vm_t vm, tiro_resumable_frame_t f) {
    size_t n = tiro_resumable_frame_arg_count(f);
    H t(vm), x(vm);
    Err e;
    tiro_make_tuple(vm, n + 1, t, e);
    tiro_resumable_frame_closure(f, x, e);
    tiro_tuple_set(vm, t, 0, x, e);
    for (size_t i = 0; i < n; ++i) {
        tiro_resumable_frame_arg(f, i, x, e);
        tiro_tuple_set(vm, t, i + 1, x, e);
    }
    tiro_resumable_frame_return_value(f, t, e);
}
void native_stop(tiro_vm_t, tiro_async_frame_t f) {
    Err e;
    tiro_async_frame_yield(f, e);
}

// ------------------------------------------------------------------------------------------------ values
class World {
public:
    enum { N = 12 };
    Case& c;
    Tape& t;
    std::vector<std::unique_ptr<Callback>> callbacks;
    Vm vm{16u << 20, 1u << 16};
    H h[N];
    M m[N];
    std::map<std::string, M> types;               // canonical
    std::map<std::string, std::map<std::string, M>> loaded; // registry
    std::map<std::string, bool> broken;           // modules whose imports cannot be resolved
    std::vector<std::shared_ptr<Obj>> ready;       // coroutines in the order they were started
    M null = mk(TIRO_KIND_NULL), yes = mk(TIRO_KIND_BOOLEAN), no = mk(TIRO_KIND_BOOLEAN);
    std::vector<std::pair<std::string, M>> given; // exports of the prelude

    explicit World(Case& c_)
        : c(c_)
        , t(c_.t) {
        yes->i = 1;
        for (int i = 0; i < N; ++i) h[i] = vm.h(), m[i] = null;
        {
            H name = vm.string("stop"), fn = vm.h();
            MUST(tiro_make_async_function(vm, name, native_stop, 0, nullptr, fn, must));
            vm.load_native("host", {{"stop", fn}});
        }
        vm.load(prelude());
        auto fn = [&](Fn f, size_t argc) {
            auto o = mk(TIRO_KIND_FUNCTION);
            o->fn = f;
            o->argc = argc;
            return o;
        };
        auto internal = [&](const char* type) {
            auto o = mk(TIRO_KIND_INTERNAL);
            o->s = type;
            return o;
        };
        auto ex = mk(TIRO_KIND_EXCEPTION);
        ex->s = "msg";
        auto rec = mk(TIRO_KIND_RECORD);
        rec->keys = {"x", "y"};
        rec->items = {mk_int(1), mk_str("z")};
        given = {{"id", fn(f_id, 1)}, {"zero", fn(f_zero, 0)}, {"boom", fn(f_boom, 1)}, {"pair", fn(f_pair, 2)}, {"wait", fn(f_wait, 0)},
            {"a_map", internal("Map")}, {"a_set", internal("Set")}, {"a_symbol", internal("Symbol")}, {"a_slice", internal("StringSlice")},
            {"a_builder", internal("StringBuilder")}, {"an_exception", ex}, {"a_record", rec}, {"a_method", fn(f_size, 0)}, {"another_method", fn(f_contains, 1)}, {"a_magic", fn(f_catch, 1)}};
        for (auto& g : given) loaded["prelude"][g.first] = g.second;
        loaded["host"];
        loaded["std"];
        for (int i = 0; i < N; ++i) seed(i);
    }
    ~World() {
        for (auto& x : h) x.free();
    }

    M type_named(const std::string& n) {
        auto& r = types[n];
        if (!r) {
            r = mk(TIRO_KIND_TYPE);
            r->s = n;
        }
        return r;
    }
    std::string type_name(const M& o) {
        if (o->kind == TIRO_KIND_INTERNAL) return o->s;
        for (auto& k : public_kinds)
            if (k.kind == o->kind) return k.name;
        return "?";
    }
    static i64 some_int(Tape& t) {
        switch (t.below(4)) {
        case 0: return t.range(-2, 9);
        case 1: return t.any_i64();
        case 2: return t.pick({i64(INT64_MIN), i64(INT64_MAX), (i64(1) << 62), -(i64(1) << 62) - 1, (i64(1) << 53) + 1});
        default: return t.range(-100000, 100000);
        }
    }
    static std::string bytes(Tape& t, size_t max) {
        std::string r;
        size_t n = t.below(max);
        for (size_t i = 0; i < n; ++i) r += t.chance(1, 8) ? (char) t.below(256) : (char) ('a' + t.below(4));
        return r;
    }
    size_t index_near(size_t n) {
        switch (t.weighted({5, 2, 1, 1})) {
        case 0: return n ? t.below(n) : 0;
        case 1: return n + t.below(2);
        case 2: return t.pick({SIZE_MAX, SIZE_MAX / 2, size_t(1) << 32, (size_t(1) << 32) + 1, size_t(1) << 63});
        default: return t.below(200);
        }
    }

    // the initial contents of a slot
    void seed(int i) {
        switch (i < 3 ? 0 : t.weighted({3, 3, 2, 2, 2, 1, 1})) {
        case 0: {
            auto& g = given[i < 2 ? t.below(5) : t.below(given.size())];
            MUST(tiro_vm_get_export(vm, ts("prelude"), ts(g.first), h[i], must));
            m[i] = g.second;
            break;
        }
        case 1: {
            m[i] = mk(TIRO_KIND_ARRAY);
            MUST(tiro_make_array(vm, 0, h[i], must));
            size_t n = t.below(4);
            for (size_t k = 0; k < n; ++k) {
                std::string key = t.pick({"x", "y", "zz"});
                H s = vm.string(key);
                MUST(tiro_array_push(vm, h[i], s, must));
                m[i]->items.push_back(mk_str(key));
            }
            break;
        }
        case 2: {
            size_t n = t.below(4);
            m[i] = mk_seq(TIRO_KIND_TUPLE, std::vector<M>(n, null));
            MUST(tiro_make_tuple(vm, n, h[i], must));
            for (size_t k = 0; k < n; ++k) {
                H x = vm.integer((i64) k);
                MUST(tiro_tuple_set(vm, h[i], k, x, must));
                m[i]->items[k] = mk_int((i64) k);
            }
            break;
        }
        case 3: {
            std::string key = t.pick({"x", "y", "zz"});
            m[i] = mk_str(key);
            MUST(tiro_make_string(vm, ts(key), h[i], must));
            break;
        }
        case 4: {
            m[i] = mk_int(some_int(t));
            MUST(tiro_make_integer(vm, m[i]->i, h[i], must));
            break;
        }
        case 5: {
            m[i] = mk(TIRO_KIND_FLOAT);
            m[i]->d = t.any_f64();
            MUST(tiro_make_float(vm, m[i]->d, h[i], must));
            break;
        }
        default: break;
        }
    }

    // ---- arguments
    int any() { return t.chance(1, 15) ? -1 : (int) t.below(N); }
    int target() { return t.chance(1, 20) ? -1 : t.chance(4, 5) ? 4 + (int) t.below(N - 4) : (int) t.below(N); } // for results
    int want(std::initializer_list<tiro_kind_t> kinds) { // mostly of one of these kinds
        if (t.chance(1, 6)) return any();
        std::vector<int> v;
        for (int i = 0; i < N; ++i)
            for (auto k : kinds)
                if (m[i]->kind == k) v.push_back(i);
        return v.empty() ? any() : v[t.below(v.size())];
    }
    tiro_handle_t H_(int i) { return i < 0 ? nullptr : (tiro_handle_t) h[i]; }
    M M_(int i) { return i < 0 ? nullptr : m[i]; }
    bool is(int i, tiro_kind_t k) { return i >= 0 && m[i]->kind == k; }
    tiro_vm_t the_vm() { return t.chance(1, 25) ? nullptr : (tiro_vm_t) vm; }
    std::string S(int i) { return i < 0 ? "NULL" : sfmt("#%d(%s)", i, tiro_kind_str(m[i]->kind)); }
    std::string V(tiro_vm_t v) { return v ? "" : "no vm, "; }
    struct Str {
        tiro_string_t s;
        bool valid, empty;
        std::string text;
    };
    Str name_arg(const std::vector<std::string>& pool) {
        if (t.chance(1, 12)) return {{nullptr, 1 + t.below(5)}, false, false, "<invalid>"};
        if (t.chance(1, 12)) return {t.chance(1, 2) ? tiro_string_t{nullptr, 0} : tiro_string_t{"x", 0}, true, true, ""};
        const std::string& p = pool[t.below(pool.size())];
        return {ts(p), true, false, p};
    }

    // ---- comparison of a handle with the model
    void compare(tiro_handle_t v, const M& o, int depth, const std::string& where) {
        tiro_kind_t k = tiro_value_kind(vm, v);
        auto bad = [&](const std::string& msg) { throw Fail{where + ": " + msg}; };
        if (k != o->kind) bad(sfmt("kind is %s, expected %s", tiro_kind_str(k), tiro_kind_str(o->kind)));
        // accessors for other kinds are neutral
        if (k != TIRO_KIND_TUPLE && tiro_tuple_size(vm, v) != 0) bad("not a tuple but has a tuple size");
        if (k != TIRO_KIND_ARRAY && tiro_array_size(vm, v) != 0) bad("not an array but has an array size");
        if (k != TIRO_KIND_BUFFER && (tiro_buffer_size(vm, v) != 0 || tiro_buffer_data(vm, v) || tiro_buffer_is_pinned(vm, v))) bad("not a buffer but has buffer data");
        if (k != TIRO_KIND_NATIVE && (tiro_native_size(vm, v) != 0 || tiro_native_data(vm, v) || tiro_native_type_descriptor(vm, v))) bad("not a native object but has native data");
        if (k != TIRO_KIND_RESULT && (tiro_result_is_success(vm, v) || tiro_result_is_error(vm, v))) bad("not a result but has a result state");
        if (k != TIRO_KIND_COROUTINE && (tiro_coroutine_started(vm, v) || tiro_coroutine_completed(vm, v))) bad("not a coroutine but has a coroutine state");
        if (k != TIRO_KIND_INTEGER && k != TIRO_KIND_FLOAT && (tiro_integer_value(vm, v) != 0 || tiro_float_value(vm, v) != 0)) bad("not a number but has a numeric value");
        bool truthy = k == TIRO_KIND_BOOLEAN ? o->i != 0 : k != TIRO_KIND_NULL;
        if (tiro_boolean_value(vm, v) != truthy) bad("wrong boolean value");
        auto items = [&](size_t n, auto get) {
            if (n != o->items.size()) bad(sfmt("has %zu elements, expected %zu", n, o->items.size()));
            if (depth >= 2) return;
            for (size_t i = 0; i < n; ++i) {
                H x = vm.h();
                get(i, x);
                compare(x, o->items[i], depth + 1, where + sfmt("[%zu]", i));
            }
        };
        switch (k) {
        case TIRO_KIND_INTEGER:
            if (tiro_integer_value(vm, v) != o->i) bad(sfmt("integer is %lld, expected %lld", (long long) tiro_integer_value(vm, v), (long long) o->i));
            if (tiro_float_value(vm, v) != (f64) o->i) bad("wrong float value of an integer");
            break;
        case TIRO_KIND_FLOAT: {
            f64 d = tiro_float_value(vm, v);
            if (!(std::isnan(d) && std::isnan(o->d)) && memcmp(&d, &o->d, 8)) bad(sfmt("float is %a, expected %a", d, o->d));
            if (o->d > -9.2e18 && o->d < 9.2e18 && tiro_integer_value(vm, v) != (i64) o->d) bad("float is not truncated to an integer");
            break;
        }
        case TIRO_KIND_STRING: {
            std::string s = vm.text(v);
            if (s != o->s) bad("string is \"" + s + "\", expected \"" + o->s + "\"");
            break;
        }
        case TIRO_KIND_TUPLE: items(tiro_tuple_size(vm, v), [&](size_t i, H& x) { MUST(tiro_tuple_get(vm, v, i, x, must)); }); break;
        case TIRO_KIND_ARRAY: items(tiro_array_size(vm, v), [&](size_t i, H& x) { MUST(tiro_array_get(vm, v, i, x, must)); }); break;
        case TIRO_KIND_RECORD: {
            H keys = vm.h();
            MUST(tiro_record_keys(vm, v, keys, must));
            std::multiset<std::string> got;
            for (size_t i = 0, n = tiro_array_size(vm, keys); i < n; ++i) {
                H x = vm.h();
                MUST(tiro_array_get(vm, keys, i, x, must));
                got.insert(vm.text(x));
            }
            if (got != std::multiset<std::string>(o->keys.begin(), o->keys.end())) bad("wrong keys");
            items(got.size(), [&](size_t i, H& x) {
                H k = vm.string(o->keys[i]);
                MUST(tiro_record_get(vm, v, k, x, must));
            });
            break;
        }
        case TIRO_KIND_RESULT: {
            if (tiro_result_is_success(vm, v) != o->success || tiro_result_is_error(vm, v) != !o->success) bad(sfmt("%s result, expected a %s", o->success ? "error" : "successful", o->success ? "successful" : "error"));
            H x = vm.h();
            if (o->success) MUST(tiro_result_value(vm, v, x, must));
            else MUST(tiro_result_error(vm, v, x, must));
            if (depth < 2) compare(x, o->items[0], depth + 1, where + ".result");
            break;
        }
        case TIRO_KIND_EXCEPTION: {
            H x = vm.h();
            MUST(tiro_exception_message(vm, v, x, must));
            if (!o->s.empty() && vm.text(x) != o->s) bad("message is \"" + vm.text(x) + "\", expected \"" + o->s + "\"");
            break;
        }
        case TIRO_KIND_COROUTINE:
            if (tiro_coroutine_started(vm, v) != (o->state != Obj::fresh)) bad("wrong started state");
            if (tiro_coroutine_completed(vm, v) != (o->state == Obj::done)) bad("wrong completed state");
            if (o->state == Obj::done && depth < 2) {
                H x = vm.h();
                MUST(tiro_coroutine_result(vm, v, x, must));
                compare(x, o->result, depth + 1, where + ".coroutine result");
            }
            break;
        case TIRO_KIND_BUFFER: {
            if (tiro_buffer_size(vm, v) != o->s.size()) bad("wrong buffer size");
            if (!tiro_buffer_is_pinned(vm, v)) bad("buffer is not pinned");
            if (o->s.size() && memcmp(tiro_buffer_data(vm, v), o->s.data(), o->s.size())) bad("wrong buffer contents");
            break;
        }
        case TIRO_KIND_NATIVE: {
            if (tiro_native_size(vm, v) != o->s.size() || tiro_native_type_descriptor(vm, v) != o->type) bad("wrong size or type of a native object");
            auto* d = tiro_native_data(vm, v);
            if (((uintptr_t) d) % o->type->alignment) bad("native object is not aligned");
            if (memcmp(d, o->s.data(), o->s.size())) bad("wrong contents of a native object");
            break;
        }
        case TIRO_KIND_MODULE:
            for (auto& [n, x] : o->exports) {
                H r = vm.h();
                MUST(tiro_module_get_export(vm, v, ts(n), r, must));
                if (depth < 2) compare(r, x, depth + 1, where + "." + n);
            }
            break;
        case TIRO_KIND_TYPE: {
            H x = vm.h();
            MUST(tiro_type_name(vm, v, x, must));
            if (vm.text(x) != o->s) bad("type name is " + vm.text(x) + ", expected " + o->s);
            break;
        }
        default: break;
        }
    }
    void check_all(const std::string& after) {
        for (int i = 0; i < N; ++i) compare(h[i], m[i], 0, after + ": handle " + sfmt("#%d", i));
        for (int i = 0; i < N; ++i)
            for (int k = i; k < N; ++k) {
                bool same = tiro_value_same(vm, h[i], h[k]);
                if (m[i] == m[k] && !same) throw Fail{after + sfmt(": #%d and #%d hold the same value but are not the same", i, k)};
                if (m[i] == m[k] || !same) continue;
                auto a = m[i]->kind;
                bool maybe = a == m[k]->kind
                    && ((a == TIRO_KIND_INTEGER && m[i]->i == m[k]->i) || (a == TIRO_KIND_STRING && m[i]->s == m[k]->s) || a == TIRO_KIND_RECORD_SCHEMA || a == TIRO_KIND_FLOAT
                        || (a == TIRO_KIND_EXCEPTION));
                if (!maybe) throw Fail{after + sfmt(": #%d and #%d hold different values but are the same", i, k)};
            }
        if (tiro_vm_has_ready(vm) != !ready.empty()) throw Fail{after + ": has_ready is wrong"};
    }

    // result of running a coroutine, null pointer: it waits forever
    M run_function(const Obj& f, const std::vector<M>& args) {
        auto wrap = [&](M v) {
            auto r = mk_seq(TIRO_KIND_RESULT, {v});
            r->success = true;
            return r;
        };
        auto boom = [&](const char* msg) {
            auto e = mk(TIRO_KIND_EXCEPTION);
            e->s = msg;
            return mk_seq(TIRO_KIND_RESULT, {e});
        };
        bool native = f.fn >= f_native;
        if (native ? args.size() < f.argc : args.size() != f.argc) return boom(""); // message not modelled
        switch (f.fn) {
        case f_id: return wrap(args[0]);
        case f_zero: return wrap(mk_int(42));
        case f_boom: return boom("boom");
        case f_pair: return wrap(mk_seq(TIRO_KIND_TUPLE, args));
        case f_wait: return nullptr;
        case f_size: return wrap(mk_int(3));
        case f_contains: {
            if (args[0]->kind != TIRO_KIND_STRING && !(args[0]->kind == TIRO_KIND_INTERNAL && args[0]->s == "StringSlice")) return boom("");
            auto b = mk(TIRO_KIND_BOOLEAN);
            b->i = args[0]->kind == TIRO_KIND_STRING && std::string("abc").find(args[0]->s) != std::string::npos;
            return wrap(b);
        }
        case f_catch: {
            if (args[0]->kind != TIRO_KIND_FUNCTION) return wrap(boom(""));
            M x = run_function(*args[0], {});
            if (!x) return nullptr;
            return wrap(x);
        }
        default: {
            auto v = args;
            v.insert(v.begin(), f.closure ? f.closure : null);
            return wrap(mk_seq(TIRO_KIND_TUPLE, v));
        }
        }
    }

    void step();
    void values();
    void containers();
    void results();
    void functions();
    void coroutines();
    void modules();
    void neutral();
    void finish();
};

void World::values() {
    auto v = the_vm();
    int r = target();
    switch (t.below(15)) {
    case 0: {
        i64 x = some_int(t);
        if (check_call(c, sfmt("make_integer(%s%lld, %s)", V(v).c_str(), (long long) x, S(r).c_str()), v && r >= 0 ? OK : BAD_ARG, [&](auto e) { tiro_make_integer(v, x, H_(r), e); })) m[r] = mk_int(x);
        break;
    }
    case 1: {
        f64 x = t.any_f64();
        if (check_call(c, sfmt("make_float(%s%g, %s)", V(v).c_str(), x, S(r).c_str()), v && r >= 0 ? OK : BAD_ARG, [&](auto e) { tiro_make_float(v, x, H_(r), e); })) {
            m[r] = mk(TIRO_KIND_FLOAT);
            m[r]->d = x;
        }
        break;
    }
    case 2: {
        bool x = t.below(2);
        if (check_call(c, sfmt("make_boolean(%s%d, %s)", V(v).c_str(), x, S(r).c_str()), v && r >= 0 ? OK : BAD_ARG, [&](auto e) { tiro_make_boolean(v, x, H_(r), e); })) m[r] = x ? yes : no;
        break;
    }
    case 3:
        c.describe("make_null(" + V(v) + S(r) + ")");
        tiro_make_null(v, H_(r));
        if (v && r >= 0) m[r] = null;
        break;
    case 4: {
        bool invalid = t.chance(1, 8);
        std::string s = t.chance(1, 3) ? t.pick({"x", "y", "zz"}) : bytes(t, 12);
        tiro_string_t arg = invalid ? tiro_string_t{nullptr, 1 + s.size()} : s.empty() && t.chance(1, 2) ? tiro_string_t{nullptr, 0} : ts(s);
        if (check_call(c, sfmt("make_string(%s%zu bytes%s, %s)", V(v).c_str(), s.size(), invalid ? " invalid" : "", S(r).c_str()), v && r >= 0 && !invalid ? OK : BAD_ARG,
                [&](auto e) { tiro_make_string(v, arg, H_(r), e); }))
            m[r] = mk_str(s);
        break;
    }
    case 5: {
        int a = want({TIRO_KIND_STRING});
        tiro_string_t out{"sentinel", 8};
        bool null_out = t.chance(1, 10);
        Codes ex = !v || a < 0 || null_out ? BAD_ARG : !is(a, TIRO_KIND_STRING) ? BAD_TYPE : OK;
        if (check_call(c, "string_value(" + V(v) + S(a) + (null_out ? ", NULL)" : ")"), ex, [&](auto e) { tiro_string_value(v, H_(a), null_out ? nullptr : &out, e); })) {
            if (str(out) != m[a]->s) throw Fail{"string_value: wrong contents"};
        } else if (str(out) != "sentinel")
            throw Fail{"string_value failed but assigned to the result"};
        break;
    }
    case 6: {
        int a = want({TIRO_KIND_STRING});
        char sentinel = 0, *out = &sentinel;
        bool null_out = t.chance(1, 10);
        Codes ex = !v || a < 0 || null_out ? BAD_ARG : !is(a, TIRO_KIND_STRING) ? BAD_TYPE : OK;
        if (check_call(c, "string_cstr(" + V(v) + S(a) + (null_out ? ", NULL)" : ")"), ex, [&](auto e) { tiro_string_cstr(v, H_(a), null_out ? nullptr : &out, e); })) {
            if (memcmp(out, m[a]->s.c_str(), m[a]->s.size() + 1)) throw Fail{"string_cstr: wrong contents or not terminated"};
            free(out);
        } else if (out != &sentinel)
            throw Fail{"string_cstr failed but assigned to the result"};
        break;
    }
    case 7: {
        size_t n = t.chance(1, 12) ? t.pick({SIZE_MAX, SIZE_MAX - 8, size_t(1) << 40, size_t(1) << 32}) : t.below(40);
        bool big = n > (16u << 20);
        if (check_call(c, sfmt("make_buffer(%s%zu, %s)", V(v).c_str(), n, S(r).c_str()), !v || r < 0 ? BAD_ARG : big ? ALLOC : OK, [&](auto e) { tiro_make_buffer(v, n, H_(r), e); })) {
            m[r] = mk(TIRO_KIND_BUFFER);
            m[r]->s = std::string(n, '\0');
            compare(h[r], m[r], 0, "new buffer");
            for (size_t i = 0; i < n; ++i) m[r]->s[i] = (char) t.below(256);
            if (n) memcpy(tiro_buffer_data(vm, h[r]), m[r]->s.data(), n);
        }
        break;
    }
    case 8: {
        tiro_native_type_t bad_name{{nullptr, 3}, 8, nullptr}, bad_align{{"n", 1}, t.pick({size_t(0), size_t(3), size_t(24)}), nullptr}, big_align{{"n", 1}, size_t(1) << 20, nullptr};
        int which = (int) t.weighted({6, 1, 1, 1, 1, 1});
        const tiro_native_type_t* d = which == 0 ? &native_types[t.below(3)] : which == 1 ? &bad_name : which == 2 ? &bad_align : which == 3 ? &big_align : which == 5 ? &aligned_types[t.below(4)] : nullptr;
        size_t n = t.chance(1, 8) ? 0 : t.chance(1, 10) ? SIZE_MAX : 1 + t.below(40);
        Codes ex = !v || r < 0 || !n || which == 1 || which == 2 || which == 4 ? BAD_ARG : which == 3 || n == SIZE_MAX ? ALLOC : which == 5 ? Codes{TIRO_OK, TIRO_ERROR_ALLOC} : OK;
        if (check_call(c, sfmt("make_native(%stype %d, %zu, %s)", V(v).c_str(), which, n, S(r).c_str()), ex, [&](auto e) { tiro_make_native(v, d, n, H_(r), e); })) {
            m[r] = mk(TIRO_KIND_NATIVE);
            m[r]->type = d;
            m[r]->s = std::string(n, '\0');
            for (size_t i = 0; i < n; ++i) m[r]->s[i] = (char) t.below(256);
            memcpy(tiro_native_data(vm, h[r]), m[r]->s.data(), n);
        }
        break;
    }
    case 9: {
        int a = any();
        if (check_call(c, "value_copy(" + V(v) + S(a) + ", " + S(r) + ")", !v || a < 0 || r < 0 ? BAD_ARG : OK, [&](auto e) { tiro_value_copy(v, H_(a), H_(r), e); })) m[r] = m[a];
        break;
    }
    case 10: {
        int a = any();
        if (check_call(c, "value_type(" + V(v) + S(a) + ", " + S(r) + ")", !v || a < 0 || r < 0 ? BAD_ARG : OK, [&](auto e) { tiro_value_type(v, H_(a), H_(r), e); })) m[r] = type_named(type_name(m[a]));
        break;
    }
    case 11: {
        int a = any();
        M before = M_(a);
        if (check_call(c, "value_to_string(" + V(v) + S(a) + ", " + S(r) + ")", !v || a < 0 || r < 0 ? BAD_ARG : OK, [&](auto e) { tiro_value_to_string(v, H_(a), H_(r), e); })) {
            if (tiro_value_kind(vm, h[r]) != TIRO_KIND_STRING) throw Fail{"value_to_string: the result is not a string"};
            std::string s = vm.text(h[r]);
            m[r] = mk_str(s);
            std::string ex = before->kind == TIRO_KIND_NULL ? "null" : before == yes ? "true" : before == no ? "false" : before->kind == TIRO_KIND_INTEGER ? sfmt("%lld", (long long) before->i)
                : before->kind == TIRO_KIND_STRING ? before->s : s;
            if (s != ex) throw Fail{"value_to_string: \"" + s + "\", expected \"" + ex + "\""};
        }
        break;
    }
    case 12: {
        int k = t.chance(3, 4) ? (int) public_kinds[t.below(std::size(public_kinds))].kind : (int) t.pick({1000, 1001, 17, 18, 999, 1002, 100});
        const char* name = nullptr;
        for (auto& p : public_kinds)
            if ((int) p.kind == k) name = p.name;
        if (check_call(c, sfmt("kind_type(%s%d, %s)", V(v).c_str(), k, S(r).c_str()), !v || r < 0 || !name ? BAD_ARG : OK, [&](auto e) { tiro_kind_type(v, (tiro_kind_t) k, H_(r), e); })) m[r] = type_named(name);
        break;
    }
    case 13: {
        int a = want({TIRO_KIND_TYPE});
        Codes ex = !v || a < 0 || r < 0 ? BAD_ARG : !is(a, TIRO_KIND_TYPE) ? BAD_TYPE : OK;
        if (check_call(c, "type_name(" + V(v) + S(a) + ", " + S(r) + ")", ex, [&](auto e) { tiro_type_name(v, H_(a), H_(r), e); })) m[r] = mk_str(m[a]->s);
        break;
    }
    default: {
        tiro_handle_t g = nullptr;
        if (check_call(c, "global_new(" + V(v) + ")", v ? OK : BAD_ARG, [&](auto e) { g = tiro_global_new(v, e); })) {
            if (!g) throw Fail{"global_new returned NULL"};
            if (tiro_value_kind(vm, g) != TIRO_KIND_NULL) throw Fail{"a new global is not null"};
            if (tiro_global_get_vm(g) != (tiro_vm_t) vm) throw Fail{"wrong vm of a global"};
            if (t.chance(1, 2)) tiro_global_free(g); // others are freed with the vm
        } else if (g)
            throw Fail{"global_new failed but returned a handle"};
        tiro_global_free(nullptr);
        if (tiro_global_get_vm(nullptr)) throw Fail{"global_get_vm(NULL)"};
    }
    }
}

void World::containers() {
    auto v = the_vm();
    int r = target();
    switch (t.below(14)) {
    case 0: {
        size_t n = t.chance(1, 12) ? t.pick({SIZE_MAX, SIZE_MAX / 8, size_t(1) << 40, size_t(1) << 32}) : t.below(6);
        if (check_call(c, sfmt("make_tuple(%s%zu, %s)", V(v).c_str(), n, S(r).c_str()), !v || r < 0 ? BAD_ARG : n > 100 ? ALLOC : OK, [&](auto e) { tiro_make_tuple(v, n, H_(r), e); }))
            m[r] = mk_seq(TIRO_KIND_TUPLE, std::vector<M>(n, null));
        break;
    }
    case 1: {
        size_t n = t.chance(1, 12) ? t.pick({SIZE_MAX, SIZE_MAX / 8, size_t(1) << 40, size_t(1) << 32}) : t.below(6);
        if (check_call(c, sfmt("make_array(%s%zu, %s)", V(v).c_str(), n, S(r).c_str()), !v || r < 0 ? BAD_ARG : n > 100 ? ALLOC : OK, [&](auto e) { tiro_make_array(v, n, H_(r), e); })) m[r] = mk(TIRO_KIND_ARRAY);
        break;
    }
    case 2:
    case 3: {
        bool tuple = t.chance(1, 2);
        auto k = tuple ? TIRO_KIND_TUPLE : TIRO_KIND_ARRAY;
        int a = want({k});
        size_t i = index_near(a < 0 ? 0 : m[a]->items.size());
        Codes ex = !v || a < 0 || r < 0 ? BAD_ARG : !is(a, k) ? BAD_TYPE : i >= m[a]->items.size() ? BOUNDS : OK;
        if (check_call(c, sfmt("%s_get(%s%s, %zu, %s)", tuple ? "tuple" : "array", V(v).c_str(), S(a).c_str(), i, S(r).c_str()), ex,
                [&](auto e) { tuple ? tiro_tuple_get(v, H_(a), i, H_(r), e) : tiro_array_get(v, H_(a), i, H_(r), e); }))
            m[r] = m[a]->items[i];
        break;
    }
    case 4:
    case 5: {
        bool tuple = t.chance(1, 2);
        auto k = tuple ? TIRO_KIND_TUPLE : TIRO_KIND_ARRAY;
        int a = want({k}), x = any();
        size_t i = index_near(a < 0 ? 0 : m[a]->items.size());
        Codes ex = !v || a < 0 || x < 0 ? BAD_ARG : !is(a, k) ? BAD_TYPE : i >= m[a]->items.size() ? BOUNDS : OK;
        if (check_call(c, sfmt("%s_set(%s%s, %zu, %s)", tuple ? "tuple" : "array", V(v).c_str(), S(a).c_str(), i, S(x).c_str()), ex,
                [&](auto e) { tuple ? tiro_tuple_set(v, H_(a), i, H_(x), e) : tiro_array_set(v, H_(a), i, H_(x), e); }))
            m[a]->items[i] = m[x];
        break;
    }
    case 6: {
        int a = want({TIRO_KIND_ARRAY}), x = t.chance(1, 2) ? want({TIRO_KIND_STRING}) : any();
        if (is(a, TIRO_KIND_ARRAY) && m[a]->items.size() > 8) break;
        Codes ex = !v || a < 0 || x < 0 ? BAD_ARG : !is(a, TIRO_KIND_ARRAY) ? BAD_TYPE : OK;
        if (check_call(c, "array_push(" + V(v) + S(a) + ", " + S(x) + ")", ex, [&](auto e) { tiro_array_push(v, H_(a), H_(x), e); })) m[a]->items.push_back(m[x]);
        break;
    }
    case 7: {
        int a = want({TIRO_KIND_ARRAY});
        Codes ex = !v || a < 0 ? BAD_ARG : !is(a, TIRO_KIND_ARRAY) ? BAD_TYPE : m[a]->items.empty() ? BOUNDS : OK;
        if (check_call(c, "array_pop(" + V(v) + S(a) + ")", ex, [&](auto e) { tiro_array_pop(v, H_(a), e); })) m[a]->items.pop_back();
        break;
    }
    case 8: {
        int a = want({TIRO_KIND_ARRAY});
        Codes ex = !v || a < 0 ? BAD_ARG : !is(a, TIRO_KIND_ARRAY) ? BAD_TYPE : OK;
        if (check_call(c, "array_clear(" + V(v) + S(a) + ")", ex, [&](auto e) { tiro_array_clear(v, H_(a), e); })) m[a]->items.clear();
        break;
    }
    case 9: {
        int a = want({TIRO_KIND_ARRAY});
        Codes ex = OK;
        std::vector<std::string> keys;
        if (!v || a < 0 || r < 0) ex = BAD_ARG;
        else if (!is(a, TIRO_KIND_ARRAY)) ex = BAD_TYPE;
        else {
            std::set<std::string> seen;
            bool dup = false;
            for (auto& x : m[a]->items) {
                if (x->kind != TIRO_KIND_STRING) {
                    ex = BAD_TYPE;
                    break;
                }
                dup |= !seen.insert(x->s).second;
                keys.push_back(x->s);
            }
            if (ex == OK && dup) ex = ANY_ERROR; // duplicate keys are an error, the documentation does not say which
        }
        if (check_call(c, "make_record_schema(" + V(v) + S(a) + ", " + S(r) + ")", ex, [&](auto e) { tiro_make_record_schema(v, H_(a), H_(r), e); })) {
            m[r] = mk(TIRO_KIND_RECORD_SCHEMA);
            m[r]->keys = keys;
        }
        break;
    }
    case 10: {
        int a = want({TIRO_KIND_RECORD_SCHEMA});
        Codes ex = !v || a < 0 || r < 0 ? BAD_ARG : !is(a, TIRO_KIND_RECORD_SCHEMA) ? BAD_TYPE : OK;
        if (check_call(c, "make_record(" + V(v) + S(a) + ", " + S(r) + ")", ex, [&](auto e) { tiro_make_record(v, H_(a), H_(r), e); })) {
            auto rec = mk(TIRO_KIND_RECORD);
            rec->keys = m[a]->keys;
            rec->items.assign(rec->keys.size(), null);
            m[r] = rec;
        }
        break;
    }
    case 11: {
        int a = want({TIRO_KIND_RECORD});
        Codes ex = !v || a < 0 || r < 0 ? BAD_ARG : !is(a, TIRO_KIND_RECORD) ? BAD_TYPE : OK;
        if (check_call(c, "record_keys(" + V(v) + S(a) + ", " + S(r) + ")", ex, [&](auto e) { tiro_record_keys(v, H_(a), H_(r), e); })) {
            auto keys = m[a]->keys;
            m[r] = mk(TIRO_KIND_ARRAY);
            // the order is not specified
            std::multiset<std::string> left(keys.begin(), keys.end());
            for (size_t i = 0, n = tiro_array_size(vm, h[r]); i < n; ++i) {
                H x = vm.h();
                MUST(tiro_array_get(vm, h[r], i, x, must));
                std::string s = vm.text(x);
                if (!left.count(s)) throw Fail{"record_keys: unexpected key"};
                left.erase(left.find(s));
                m[r]->items.push_back(mk_str(s));
            }
            if (!left.empty()) throw Fail{"record_keys: keys are missing"};
        }
        break;
    }
    default: {
        bool get = t.chance(1, 2);
        int a = want({TIRO_KIND_RECORD}), k = want({TIRO_KIND_STRING}), x = any();
        size_t at = SIZE_MAX;
        if (is(a, TIRO_KIND_RECORD) && is(k, TIRO_KIND_STRING))
            for (size_t i = 0; i < m[a]->keys.size(); ++i)
                if (m[a]->keys[i] == m[k]->s) at = i;
        Codes ex = !v || a < 0 || k < 0 || x < 0 ? BAD_ARG : !is(a, TIRO_KIND_RECORD) || !is(k, TIRO_KIND_STRING) ? BAD_TYPE : at == SIZE_MAX ? BAD_KEY : OK;
        if (check_call(c, sfmt("record_%s(%s%s, %s, %s)", get ? "get" : "set", V(v).c_str(), S(a).c_str(), S(k).c_str(), S(x).c_str()), ex,
                [&](auto e) { get ? tiro_record_get(v, H_(a), H_(k), H_(x), e) : tiro_record_set(v, H_(a), H_(k), H_(x), e); })) {
            if (get) m[x] = m[a]->items[at];
            else m[a]->items[at] = m[x];
        }
    }
    }
}

void World::results() {
    auto v = the_vm();
    int r = target(), a;
    switch (t.below(4)) {
    case 0: {
        bool s = t.below(2);
        a = any();
        if (check_call(c, sfmt("make_%s(%s%s, %s)", s ? "success" : "error", V(v).c_str(), S(a).c_str(), S(r).c_str()), !v || a < 0 || r < 0 ? BAD_ARG : OK,
                [&](auto e) { s ? tiro_make_success(v, H_(a), H_(r), e) : tiro_make_error(v, H_(a), H_(r), e); })) {
            m[r] = mk_seq(TIRO_KIND_RESULT, {m[a]});
            m[r]->success = s;
        }
        break;
    }
    case 1:
    case 2: {
        bool s = t.below(2);
        a = want({TIRO_KIND_RESULT});
        Codes ex = !v || a < 0 || r < 0 ? BAD_ARG : !is(a, TIRO_KIND_RESULT) ? BAD_TYPE : m[a]->success != s ? BAD_STATE : OK;
        if (check_call(c, sfmt("result_%s(%s%s, %s)", s ? "value" : "error", V(v).c_str(), S(a).c_str(), S(r).c_str()), ex,
                [&](auto e) { s ? tiro_result_value(v, H_(a), H_(r), e) : tiro_result_error(v, H_(a), H_(r), e); }))
            m[r] = m[a]->items[0];
        break;
    }
    default: {
        bool msg = t.below(2);
        a = want({TIRO_KIND_EXCEPTION});
        Codes ex = !v || a < 0 || r < 0 ? BAD_ARG : !is(a, TIRO_KIND_EXCEPTION) ? BAD_TYPE : OK;
        if (check_call(c, sfmt("exception_%s(%s%s, %s)", msg ? "message" : "trace", V(v).c_str(), S(a).c_str(), S(r).c_str()), ex,
                [&](auto e) { msg ? tiro_exception_message(v, H_(a), H_(r), e) : tiro_exception_trace(v, H_(a), H_(r), e); })) {
            if (msg) {
                M o = m[a];
                m[r] = mk_str(o->s.empty() ? vm.text(h[r]) : o->s);
            } else
                m[r] = null; // traces are disabled
        }
    }
    }
}

void World::functions() {
    auto v = the_vm();
    int name = want({TIRO_KIND_STRING}), closure = any(), r = target();
    size_t argc = t.chance(1, 8) ? t.pick({size_t(1024), size_t(1025), SIZE_MAX, size_t(1) << 32}) : t.below(3);
    unsigned kind = (unsigned) t.below(3);
    bool no_fn = t.chance(1, 12);
    size_t locals = kind == 2 && t.chance(1, 6) ? t.pick({size_t(1) << 14, (size_t(1) << 14) + 1, SIZE_MAX, size_t(1) << 32}) : t.below(4);
    bool no_desc = kind == 2 && t.chance(1, 12);
    tiro_resumable_frame_desc_t d{};
    d.name = H_(name);
    d.arg_count = argc;
    d.local_count = locals;
    d.func = no_fn ? nullptr : native_echo_resumable;
    d.closure = H_(closure);
    // if several arguments are wrong then any of their errors will do
    Codes ex;
    if (!v || name < 0 || r < 0 || no_fn || no_desc || argc > 1024) ex = BAD_ARG;
    if (kind == 2 && locals > (size_t(1) << 14)) ex = BAD_ARG;
    bool null_arg = !v || name < 0 || r < 0 || no_fn || no_desc;
    if (!null_arg && !is(name, TIRO_KIND_STRING)) ex.insert(TIRO_ERROR_BAD_TYPE);
    if (ex.empty()) ex = OK;
    const char* names[] = {"sync", "async", "resumable"};
    std::string what = sfmt("make_%s_function(%sname %s, %zu parameters, closure %s, %s%s)", names[kind], V(v).c_str(), S(name).c_str(), argc, S(closure).c_str(), S(r).c_str(), no_fn ? ", no function" : "");
    if (check_call(c, what, ex, [&](auto e) {
            if (kind == 0) tiro_make_sync_function(v, H_(name), no_fn ? nullptr : native_echo, argc, H_(closure), H_(r), e);
            if (kind == 1) tiro_make_async_function(v, H_(name), no_fn ? nullptr : native_echo_async, argc, H_(closure), H_(r), e);
            if (kind == 2) tiro_make_resumable_function(v, no_desc ? nullptr : &d, H_(r), e);
        })) {
        auto o = mk(TIRO_KIND_FUNCTION);
        o->fn = kind == 1 ? f_native_async : f_native;
        o->argc = argc;
        o->closure = closure < 0 ? null : m[closure];
        m[r] = o;
    }
}

void World::coroutines() {
    auto v = the_vm();
    int r = target();
    switch (t.weighted({4, 4, 2, 3, 3})) {
    case 0: {
        int f = want({TIRO_KIND_FUNCTION}), a = want({TIRO_KIND_TUPLE, TIRO_KIND_NULL});
        if (is(f, TIRO_KIND_FUNCTION) && t.chance(2, 3)) // the right number of arguments
            for (int i = 0; i < N; ++i)
                if ((is(i, TIRO_KIND_TUPLE) && m[i]->items.size() == m[f]->argc) || (is(i, TIRO_KIND_NULL) && !m[f]->argc)) a = i;
        Codes ex = !v || f < 0 || r < 0 ? BAD_ARG : !is(f, TIRO_KIND_FUNCTION) || (a >= 0 && !is(a, TIRO_KIND_NULL) && !is(a, TIRO_KIND_TUPLE)) ? BAD_TYPE : OK;
        if (check_call(c, "make_coroutine(" + V(v) + S(f) + ", " + S(a) + ", " + S(r) + ")", ex, [&](auto e) { tiro_make_coroutine(v, H_(f), H_(a), H_(r), e); })) {
            auto o = mk(TIRO_KIND_COROUTINE);
            o->func = m[f];
            // the tuple is read when the coroutine starts
            o->closure = is(a, TIRO_KIND_TUPLE) ? m[a] : nullptr;
            m[r] = o;
        }
        break;
    }
    case 1: {
        int a = want({TIRO_KIND_COROUTINE});
        Codes ex = !v || a < 0 ? BAD_ARG : !is(a, TIRO_KIND_COROUTINE) ? BAD_TYPE : m[a]->state != Obj::fresh ? BAD_STATE : OK;
        if (check_call(c, "coroutine_start(" + V(v) + S(a) + ")", ex, [&](auto e) { tiro_coroutine_start(v, H_(a), e); })) {
            m[a]->state = Obj::started;
            ready.push_back(m[a]);
        }
        break;
    }
    case 2: {
        int a = want({TIRO_KIND_COROUTINE});
        Codes ex = !v || a < 0 || r < 0 ? BAD_ARG : !is(a, TIRO_KIND_COROUTINE) ? BAD_TYPE : m[a]->state != Obj::done ? BAD_STATE : OK;
        if (check_call(c, "coroutine_result(" + V(v) + S(a) + ", " + S(r) + ")", ex, [&](auto e) { tiro_coroutine_result(v, H_(a), H_(r), e); })) m[r] = m[a]->result;
        break;
    }
    case 3: {
        int a = want({TIRO_KIND_COROUTINE});
        bool no_cb = t.chance(1, 8), no_cleanup = t.chance(1, 4);
        Codes ex = !v || a < 0 || no_cb ? BAD_ARG : !is(a, TIRO_KIND_COROUTINE) ? BAD_TYPE : OK;
        callbacks.push_back(std::make_unique<Callback>());
        Callback* cb = callbacks.back().get();
        cb->has_cleanup = !no_cleanup;
        cb->vm = vm;
        bool ok = check_call(c, "coroutine_set_callback(" + V(v) + S(a) + (no_cb ? ", no callback" : "") + (no_cleanup ? ", no cleanup)" : ")"), ex, [&](auto e) {
            tiro_coroutine_set_callback(
                v, H_(a), no_cb ? nullptr : [](tiro_vm_t vm2, tiro_handle_t co, void* u) {
                    auto* x = (Callback*) u;
                    x->calls++;
                    if (x->cleanups || vm2 != x->vm || !tiro_coroutine_completed(vm2, co)) x->bad = true;
                },
                no_cleanup ? nullptr : [](void* u) { ((Callback*) u)->cleanups++; }, cb, e);
        });
        if (ok) {
            if (cb->cleanups || cb->calls) throw Fail{"set_callback invoked the callback or the cleanup function"};
            if (m[a]->cb) m[a]->cb->replaced = true;
            m[a]->cb = cb;
            if (m[a]->state == Obj::done) cb->replaced = true; // completed already
        } else {
            if (cb->has_cleanup && cb->cleanups != 1) throw Fail{sfmt("set_callback failed, the cleanup function ran %d times", cb->cleanups)};
            if (cb->calls) throw Fail{"set_callback failed and invoked the callback"};
            callbacks.pop_back();
        }
        break;
    }
    default: {
        Codes ex = !v ? BAD_ARG : OK;
        auto snapshot = ready;
        if (check_call(c, "run_ready(" + V(v) + ")", ex, [&](auto e) { tiro_vm_run_ready(v, e); })) {
            ready.clear();
            for (auto& o : snapshot) {
                auto args = o->closure ? o->closure->items : std::vector<M>{};
                M res = run_function(*o->func, args);
                if (!res) {
                    o->state = Obj::stuck;
                    continue;
                }
                o->state = Obj::done;
                o->result = res;
                if (o->cb) {
                    o->cb->fired = true;
                    c.count("callbacks", 1);
                }
                c.count(res->success ? "coroutine results" : "coroutine panics", 1);
            }
            for (auto& o : snapshot) { std::string a; for (auto& x : o->closure ? o->closure->items : std::vector<M>{}) a += " " + type_name(x) + " " + x->s; c.add(sfmt("function %d (%zu parameters) with%s\n", o->func->fn, o->func->argc, a.c_str())); }
            c.count("coroutines run", (i64) snapshot.size());
            if (!snapshot.empty()) c.label("coroutines ran");
            for (auto& cb : callbacks) {
                if (cb->bad) throw Fail{"a completion callback saw an incomplete coroutine, another vm or ran after its cleanup"};
                if (cb->calls != (cb->fired ? 1 : 0)) throw Fail{sfmt("a completion callback ran %d times", cb->calls)};
                if (cb->fired && cb->has_cleanup && cb->cleanups != 1) throw Fail{"the cleanup function did not run after the callback"};
                if (!cb->fired && !cb->replaced && cb->cleanups) {
                    // unreachable coroutines may have been collected
                }
            }
        }
    }
    }
}

void World::modules() {
    auto v = the_vm();
    int r = target();
    static const std::vector<std::string> mods{"m0", "m1", "mod0", "mod1", "mod2", "prelude", "std", "nowhere"}, members{"x", "y", "v", "id", "hidden", "f"};
    switch (t.below(6)) {
    case 0: {
        Str name = name_arg(mods);
        size_t n = t.below(4);
        std::vector<tiro_module_member_t> mem(n);
        std::vector<Str> ns(n);
        std::vector<int> vals(n);
        bool no_members = t.chance(1, 12), bad = false;
        std::set<std::string> seen;
        std::map<std::string, M> exports;
        bool dup = false;
        for (size_t i = 0; i < n; ++i) {
            ns[i] = t.chance(3, 4) ? Str{ts(members[i]), true, false, members[i]} : name_arg(members);
            vals[i] = t.chance(3, 4) ? (int) t.below(N) : any();
            mem[i] = {ns[i].s, H_(vals[i])};
            if (!ns[i].valid || ns[i].empty || vals[i] < 0) bad = true;
            else {
                dup |= !seen.insert(ns[i].text).second;
                exports[ns[i].text] = m[vals[i]];
            }
        }
        Codes ex = !v || !name.valid || name.empty || r < 0 || bad || (no_members && n) ? BAD_ARG : OK;
        if (dup && ex == OK) break; // not specified
        if (check_call(c, sfmt("make_module(%s%s, %zu members%s, %s)", V(v).c_str(), name.text.c_str(), n, no_members ? " NULL" : "", S(r).c_str()), ex,
                [&](auto e) { tiro_make_module(v, name.s, no_members ? nullptr : mem.data(), n, H_(r), e); })) {
            m[r] = mk(TIRO_KIND_MODULE);
            m[r]->s = name.text;
            m[r]->exports = exports;
        }
        break;
    }
    case 1: {
        int a = want({TIRO_KIND_MODULE});
        Codes ex = !v || a < 0 ? BAD_ARG : !is(a, TIRO_KIND_MODULE) ? BAD_TYPE : loaded.count(m[a]->s) ? Codes{TIRO_ERROR_MODULE_EXISTS} : OK;
        if (check_call(c, "load_module(" + V(v) + S(a) + ")", ex, [&](auto e) { tiro_vm_load_module(v, H_(a), e); })) loaded[m[a]->s] = m[a]->exports;
        break;
    }
    case 2: {
        Codes ex = !v ? BAD_ARG : Codes{TIRO_ERROR_MODULE_EXISTS};
        check_call(c, "load_std(" + V(v) + ")", ex, [&](auto e) { tiro_vm_load_std(v, e); });
        break;
    }
    case 3: {
        int k = (int) t.below(4);
        tiro_module_t mod = k == 3 ? nullptr : small_module(k).module;
        std::string name = sfmt("mod%d", k);
        Codes ex = !v || !mod ? BAD_ARG : loaded.count(name) ? Codes{TIRO_ERROR_MODULE_EXISTS} : OK;
        if (check_call(c, "load_bytecode(" + V(v) + (mod ? name : "NULL") + ")", ex, [&](auto e) { tiro_vm_load_bytecode(v, mod, e); })) {
            auto& x = loaded[name];
            if (k == 0) {
                x["v"] = mk_int(1);
                auto f = mk(TIRO_KIND_FUNCTION);
                f->fn = -2;
                x["f"] = f;
            } else if (k == 1)
                x["v"] = mk_str("x");
            else
                broken[name] = true;
        }
        break;
    }
    case 4: {
        Str name = name_arg(mods), exp = name_arg(members);
        Codes ex;
        M val;
        if (!v || r < 0 || !name.valid || name.empty || !exp.valid || exp.empty) ex = BAD_ARG;
        else if (!loaded.count(name.text)) ex = {TIRO_ERROR_MODULE_NOT_FOUND};
        else if (broken.count(name.text)) ex = ANY_ERROR; // an imported module is missing
        else if (name.text == "std" || !loaded[name.text].count(exp.text)) ex = {TIRO_ERROR_EXPORT_NOT_FOUND};
        else {
            val = loaded[name.text][exp.text];
            ex = OK;
        }
        if (ex == OK && val->fn == -2) break;
        if (check_call(c, "vm_get_export(" + V(v) + name.text + ", " + exp.text + ", " + S(r) + ")", ex, [&](auto e) { tiro_vm_get_export(v, name.s, exp.s, H_(r), e); })) m[r] = val;
        break;
    }
    default: {
        int a = want({TIRO_KIND_MODULE});
        Str exp = name_arg(members);
        Codes ex = !v || a < 0 || r < 0 || !exp.valid || exp.empty ? BAD_ARG
            : !is(a, TIRO_KIND_MODULE)                              ? BAD_TYPE
            : !m[a]->exports.count(exp.text)                        ? Codes{TIRO_ERROR_EXPORT_NOT_FOUND}
                                                                    : OK;
        if (check_call(c, "module_get_export(" + V(v) + S(a) + ", " + exp.text + ", " + S(r) + ")", ex, [&](auto e) { tiro_module_get_export(v, H_(a), exp.s, H_(r), e); })) m[r] = M(m[a]->exports[exp.text]);
        break;
    }
    }
}

// functions without an error argument
void World::neutral() {
    int a = any();
    auto v = (tiro_vm_t) vm;
    if (t.chance(1, 2)) v = nullptr;
    else a = -1;
    c.describe(v ? "accessors without a handle" : "accessors without a vm");
    auto h_ = H_(a);
    auto bad = [&](const char* what) { throw Fail{sfmt("%s is not neutral for invalid arguments", what)}; };
    if (tiro_value_kind(v, h_) != TIRO_KIND_INVALID) bad("value_kind");
    if (tiro_integer_value(v, h_) != 0) bad("integer_value");
    if (tiro_float_value(v, h_) != 0) bad("float_value");
    if (tiro_boolean_value(v, h_)) bad("boolean_value");
    if (tiro_buffer_is_pinned(v, h_)) bad("buffer_is_pinned");
    if (tiro_buffer_size(v, h_)) bad("buffer_size");
    if (tiro_buffer_data(v, h_)) bad("buffer_data");
    if (tiro_tuple_size(v, h_)) bad("tuple_size");
    if (tiro_array_size(v, h_)) bad("array_size");
    if (tiro_result_is_success(v, h_)) bad("result_is_success");
    if (tiro_result_is_error(v, h_)) bad("result_is_error");
    if (tiro_coroutine_started(v, h_)) bad("coroutine_started");
    if (tiro_coroutine_completed(v, h_)) bad("coroutine_completed");
    if (tiro_native_type_descriptor(v, h_)) bad("native_type_descriptor");
    if (tiro_native_data(v, h_)) bad("native_data");
    if (tiro_native_size(v, h_)) bad("native_size");
    if (tiro_vm_userdata(nullptr) || tiro_vm_page_size(nullptr) || tiro_vm_max_heap_size(nullptr) || tiro_vm_has_ready(nullptr)) bad("vm accessor");
    tiro_vm_settings_init(nullptr);
    tiro_vm_free(nullptr);
    tiro_module_free(nullptr);
    tiro_compiler_free(nullptr);
    tiro_error_free(nullptr);
    tiro_async_token_free(nullptr);
    if (tiro_error_errc(nullptr) != TIRO_OK || *tiro_error_details(nullptr) || strcmp(tiro_error_name(nullptr), tiro_errc_name(TIRO_OK))) bad("error accessor");
    if (!tiro_value_same(vm, nullptr, nullptr) || tiro_value_same(vm, nullptr, h[0]) || tiro_value_same(vm, h[0], nullptr)) bad("value_same");
    if (tiro_sync_frame_arg_count(nullptr) || tiro_async_frame_arg_count(nullptr) || tiro_resumable_frame_arg_count(nullptr) || tiro_resumable_frame_local_count(nullptr) || tiro_resumable_frame_state(nullptr))
        bad("frame accessor");
    // frames and tokens
    int r = target();
    auto x = H_(r);
    auto chk = [&](const char* what, auto f) { check_call(c, std::string(what) + "(NULL)", BAD_ARG, f); };
    switch (t.below(6)) {
    case 0:
        chk("sync_frame_arg", [&](auto e) { tiro_sync_frame_arg(nullptr, 0, x, e); });
        chk("sync_frame_closure", [&](auto e) { tiro_sync_frame_closure(nullptr, x, e); });
        chk("sync_frame_return_value", [&](auto e) { tiro_sync_frame_return_value(nullptr, x, e); });
        chk("sync_frame_panic_msg", [&](auto e) { tiro_sync_frame_panic_msg(nullptr, ts("x"), e); });
        break;
    case 1:
        chk("async_frame_arg", [&](auto e) { tiro_async_frame_arg(nullptr, 0, x, e); });
        chk("async_frame_closure", [&](auto e) { tiro_async_frame_closure(nullptr, x, e); });
        chk("async_frame_return_value", [&](auto e) { tiro_async_frame_return_value(nullptr, x, e); });
        chk("async_frame_panic_msg", [&](auto e) { tiro_async_frame_panic_msg(nullptr, ts("x"), e); });
        chk("async_frame_yield", [&](auto e) { tiro_async_frame_yield(nullptr, e); });
        break;
    case 2:
        chk("async_frame_token", [&](auto e) { if (tiro_async_frame_token(nullptr, e)) throw Fail{"token without a frame"}; });
        chk("async_token_return_value", [&](auto e) { tiro_async_token_return_value(nullptr, x, e); });
        chk("async_token_panic_msg", [&](auto e) { tiro_async_token_panic_msg(nullptr, ts("x"), e); });
        break;
    case 3:
        chk("resumable_frame_arg", [&](auto e) { tiro_resumable_frame_arg(nullptr, 0, x, e); });
        chk("resumable_frame_local", [&](auto e) { tiro_resumable_frame_local(nullptr, 0, x, e); });
        chk("resumable_frame_set_local", [&](auto e) { tiro_resumable_frame_set_local(nullptr, 0, x, e); });
        chk("resumable_frame_closure", [&](auto e) { tiro_resumable_frame_closure(nullptr, x, e); });
        break;
    case 4:
        chk("resumable_frame_set_state", [&](auto e) { tiro_resumable_frame_set_state(nullptr, 1, e); });
        chk("resumable_frame_invoke", [&](auto e) { tiro_resumable_frame_invoke(nullptr, 1, x, nullptr, e); });
        chk("resumable_frame_invoke_return", [&](auto e) { tiro_resumable_frame_invoke_return(nullptr, x, e); });
        break;
    default:
        chk("resumable_frame_return_value", [&](auto e) { tiro_resumable_frame_return_value(nullptr, x, e); });
        chk("resumable_frame_panic_msg", [&](auto e) { tiro_resumable_frame_panic_msg(nullptr, ts("x"), e); });
    }
}

void World::step() {
    switch (t.weighted({6, 7, 2, 2, 6, 3, 1})) {
    case 0: values(); break;
    case 1: containers(); break;
    case 2: results(); break;
    case 3: functions(); break;
    case 4: coroutines(); break;
    case 5: modules(); break;
    default: neutral();
    }
}

void World::finish() {
    // the machine is still usable
    Err e;
    vm.run(e);
    if (!e.ok()) throw Fail{"run_ready failed at the end: " + e.text()};
    H a = vm.integer(7), b = vm.string("x");
    CallResult r = vm.call("prelude", "pair", {a, b});
    if (!r.ok() || vm.show(r.value) != "(7, \"x\")") throw Fail{"the machine does not work any more: " + r.message};
    for (auto& x : h) x.free();
    r.value.free();
    a.free();
    b.free();
    vm.close();
    for (auto& cb : callbacks) {
        if (cb->has_cleanup && cb->cleanups != 1) throw Fail{sfmt("a cleanup function ran %d times", cb->cleanups)};
        if (cb->replaced && !cb->fired && cb->calls) throw Fail{"a replaced callback was invoked"};
    }
}

void s_values(Case& c) {
    World w(c);
    size_t n = 15 + c.t.size(300);
    i64 before = 0;
    (void) before;
    size_t done = 0;
    for (size_t i = 0; i < n; ++i) {
        w.step();
        w.check_all(sfmt("after step %zu", i + 1));
        ++done;
    }
    w.finish();
    c.count("steps", (i64) done);
    c.nontrivial = done >= 10;
}

// ------------------------------------------------------------------------------------------------ frames
// A native function performs a list of calls on its frame, with good and bad arguments. Only successful calls count.
struct FrameOp {
    enum Kind { arg, closure, ret, panic, local, set_local, bad_token, state, invoke_ret } kind = arg;
    size_t index = 0;
    bool null_result = false, null_value = false, bad_string = false;
    int value = 0;
};
struct Expect { // what the coroutine has to end with
    bool panic = false;
    std::string text = "null";
};
struct FrameCase {
    Case& c;
    Vm& vm;
    int kind; // sync, async, async that yields, resumable
    size_t argc, params, locals;
    std::vector<std::vector<FrameOp>> rounds;
    std::vector<std::string> args;
    std::string closure;
    std::vector<std::string> model_locals;
    Expect expect;
    std::string failure;
    size_t round = 0;
    tiro_async_token_t token = nullptr;
    bool yielded = false;
    size_t invoked = 0;
};
FrameCase* current_frame = nullptr;

template<typename F, typename Arg, typename Argc, typename Closure, typename Ret, typename Panic>
void do_frame(FrameCase& fc, F frame, Arg arg, Argc argc, Closure closure, Ret ret, Panic panic) {
    Case& c = fc.c;
    Vm& vm = fc.vm;
    if (argc(frame) != fc.argc) throw Fail{sfmt("argument count %zu, expected %zu", argc(frame), fc.argc)};
    H r = vm.string("untouched");
    auto untouched = [&] {
        if (vm.show(r) != "\"untouched\"") throw Fail{"a failed call assigned to its result"};
    };
    auto reset = [&] { MUST(tiro_make_string(vm, ts("untouched"), r, must)); };
    auto rf = (tiro_resumable_frame_t) frame; // only used if the function is resumable
    for (auto& op : fc.rounds[fc.round]) {
        reset();
        tiro_handle_t result = op.null_result ? nullptr : (tiro_handle_t) r;
        switch (op.kind) {
        case FrameOp::arg:
            if (check_call(c, sfmt("frame_arg(%zu of %zu)", op.index, fc.argc), op.null_result ? BAD_ARG : op.index >= fc.argc ? BOUNDS : OK, [&](auto e) { arg(frame, op.index, result, e); })) {
                if (vm.show(r) != fc.args[op.index]) throw Fail{"argument is " + vm.show(r) + ", expected " + fc.args[op.index]};
            } else
                untouched();
            break;
        case FrameOp::closure:
            if (check_call(c, "frame_closure", op.null_result ? BAD_ARG : OK, [&](auto e) { closure(frame, result, e); })) {
                if (vm.show(r) != fc.closure) throw Fail{"closure is " + vm.show(r) + ", expected " + fc.closure};
            } else
                untouched();
            break;
        case FrameOp::ret: {
            H v = vm.integer(op.value);
            if (check_call(c, sfmt("frame_return_value(%s)", op.null_value ? "NULL" : sfmt("%d", op.value).c_str()), op.null_value ? BAD_ARG : OK,
                    [&](auto e) { ret(frame, op.null_value ? nullptr : (tiro_handle_t) v, e); }))
                fc.expect = {false, sfmt("%d", op.value)};
            break;
        }
        case FrameOp::panic: {
            std::string text = sfmt("p%d", op.value);
            if (check_call(c, "frame_panic_msg(" + (op.bad_string ? "invalid" : text) + ")", op.bad_string ? BAD_ARG : OK,
                    [&](auto e) { panic(frame, op.bad_string ? tiro_string_t{nullptr, 2} : ts(text), e); }))
                fc.expect = {true, text};
            break;
        }
        case FrameOp::local:
            if (check_call(c, sfmt("frame_local(%zu of %zu)", op.index, fc.locals), op.null_result ? BAD_ARG : op.index >= fc.locals ? BOUNDS : OK,
                    [&](auto e) { tiro_resumable_frame_local(rf, op.index, result, e); })) {
                if (vm.show(r) != fc.model_locals[op.index]) throw Fail{"local is " + vm.show(r) + ", expected " + fc.model_locals[op.index]};
            } else
                untouched();
            break;
        case FrameOp::set_local: {
            H v = vm.integer(op.value);
            if (check_call(c, sfmt("frame_set_local(%zu of %zu)", op.index, fc.locals), op.null_value ? BAD_ARG : op.index >= fc.locals ? BOUNDS : OK,
                    [&](auto e) { tiro_resumable_frame_set_local(rf, op.index, op.null_value ? nullptr : (tiro_handle_t) v, e); }))
                fc.model_locals[op.index] = sfmt("%d", op.value);
            break;
        }
        case FrameOp::state: {
            bool ended = fc.expect.panic || fc.expect.text != "null";
            int want = ended ? (int) TIRO_RESUMABLE_STATE_END : (int) fc.round;
            if (tiro_resumable_frame_state(rf) != want) throw Fail{sfmt("state is %d, expected %d", tiro_resumable_frame_state(rf), want)};
            if (tiro_resumable_frame_local_count(rf) != fc.locals) throw Fail{"wrong local count"};
            break;
        }
        case FrameOp::bad_token: { // invoking something that is no function
            H f = op.index % 2 ? vm.string("no function") : vm.null(), t = vm.tuple({}), bad = vm.string("no tuple");
            bool null_f = op.index % 3 == 0;
            check_call(c, "frame_invoke(no function)", null_f ? BAD_ARG : BAD_TYPE, [&](auto e) { tiro_resumable_frame_invoke(rf, 77, null_f ? nullptr : (tiro_handle_t) f, t, e); });
            H fn = vm.get_export("prelude", "zero");
            check_call(c, "frame_invoke(arguments are no tuple)", BAD_TYPE, [&](auto e) { tiro_resumable_frame_invoke(rf, 77, fn, bad, e); });
            H none = vm.h(), wrong[] = {vm.integer(1), vm.h(), vm.h(), vm.h(), vm.h()};
            MUST(tiro_make_array(vm, 0, wrong[1], must));
            MUST(tiro_make_buffer(vm, 4, wrong[2], must));
            MUST(tiro_make_success(vm, none, wrong[3], must));
            MUST(tiro_kind_type(vm, TIRO_KIND_TUPLE, wrong[4], must));
            for (int i = 0; i < 5; ++i)
                check_call(c, sfmt("frame_invoke(arguments are no tuple, %d)", i), BAD_TYPE, [&](auto e) { tiro_resumable_frame_invoke(rf, 77, fn, wrong[i], e); });
            for (int i = 0; i < 5; ++i)
                check_call(c, sfmt("frame_invoke(no function, %d)", i), BAD_TYPE, [&](auto e) { tiro_resumable_frame_invoke(rf, 77, wrong[i], t, e); });
            break;
        }
        case FrameOp::invoke_ret: {
            bool after = fc.round > 0;
            if (check_call(c, "frame_invoke_return", op.null_result ? BAD_ARG : OK, [&](auto e) { tiro_resumable_frame_invoke_return(rf, result, e); })) {
                std::string want = after ? "42" : "null";
                if (vm.show(r) != want) throw Fail{"invoke_return is " + vm.show(r) + ", expected " + want};
            } else
                untouched();
            break;
        }
        }
    }
}
template<typename F>
void guarded(F&& f) { // failures must not pass through the machine
    try {
        f();
    } catch (const Fail& x) {
        if (current_frame->failure.empty()) current_frame->failure = x.msg;
    } catch (const pbt::Discard&) {
        current_frame->failure = "";
    }
}

void frames(Case& c) {
    Tape& t = c.t;
    Vm vm(16u << 20, 1u << 16);
    {
        H name = vm.string("stop"), fn = vm.h();
        MUST(tiro_make_async_function(vm, name, native_stop, 0, nullptr, fn, must));
        vm.load_native("host", {{"stop", fn}});
    }
    vm.load(prelude());
    vm.get_export("prelude", "zero"); // modules cannot be initialised from within native functions
    FrameCase fc{c, vm, (int) t.below(4), 0, 0, 0, {}, {}, "", {}, {}, "", 0, nullptr, false, 0};
    fc.params = t.below(4);
    fc.argc = fc.params + (t.chance(1, 3) ? t.below(3) : 0); // more arguments than parameters are fine
    fc.locals = fc.kind == 3 ? t.below(4) : 0;
    fc.model_locals.assign(fc.locals, "null");
    size_t rounds = fc.kind == 3 ? 1 + t.below(3) : 1;
    const char* kinds[] = {"synchronous", "asynchronous", "asynchronous with yield", "resumable"};
    c.describe(sfmt("%s function, %zu parameters, %zu arguments, %zu locals, %zu rounds", kinds[fc.kind], fc.params, fc.argc, fc.locals, rounds));
    size_t n_ops = 0;
    for (size_t r = 0; r < rounds; ++r) {
        std::vector<FrameOp> ops;
        size_t n = t.below(10);
        n_ops += n;
        bool last = r + 1 == rounds;
        for (size_t i = 0; i < n; ++i) {
            FrameOp op;
            if (fc.kind == 3) op.kind = (FrameOp::Kind) t.weighted({4, 1, 1, 1, 3, 4, 2, 1, 1});
            else op.kind = (FrameOp::Kind) t.weighted({4, 2, 2, 2});
            op.index = t.chance(1, 10) ? t.pick({SIZE_MAX, size_t(1) << 32, size_t(1) << 31}) : t.below(6);
            op.null_result = t.chance(1, 8);
            op.null_value = t.chance(1, 4);
            op.bad_string = t.chance(1, 3);
            op.value = (int) t.below(100);
            // a function that yields or continues in another round must not return before; attempts that fail are fine
            if (fc.kind == 2 || !last) {
                op.null_value = op.null_value || op.kind == FrameOp::ret;
                op.bad_string = true;
            }
            ops.push_back(op);
        }
        fc.rounds.push_back(ops);
    }
    std::vector<H> hs;
    std::vector<tiro_handle_t> raw;
    for (size_t i = 0; i < fc.argc; ++i) {
        hs.push_back(t.chance(1, 2) ? vm.integer((i64) t.below(1000)) : vm.string(sfmt("s%d", (int) t.below(10))));
        raw.push_back(hs.back());
        fc.args.push_back(vm.show(hs.back()));
    }
    bool has_closure = t.chance(2, 3);
    H closure = vm.string("the closure"), name = vm.string("f"), fn = vm.h();
    fc.closure = has_closure ? "\"the closure\"" : "null";
    tiro_handle_t cl = has_closure ? (tiro_handle_t) closure : nullptr;
    current_frame = &fc;
    if (fc.kind == 0) {
        MUST(tiro_make_sync_function(
            vm, name, [](tiro_vm_t, tiro_sync_frame_t f) {
                guarded([&] { do_frame(*current_frame, f, tiro_sync_frame_arg, tiro_sync_frame_arg_count, tiro_sync_frame_closure, tiro_sync_frame_return_value, tiro_sync_frame_panic_msg); });
            },
            fc.params, cl, fn, must));
    } else if (fc.kind <= 2) {
        MUST(tiro_make_async_function(
            vm, name, [](tiro_vm_t, tiro_async_frame_t f) {
                guarded([&] {
                    do_frame(*current_frame, f, tiro_async_frame_arg, tiro_async_frame_arg_count, tiro_async_frame_closure, tiro_async_frame_return_value, tiro_async_frame_panic_msg);
                    if (current_frame->kind == 2) {
                        MUST(current_frame->token = tiro_async_frame_token(f, must));
                        // not paused yet
                        H v = current_frame->vm.integer(1);
                        check_call(current_frame->c, "async_token_return_value before yield", ANY_ERROR, [&](auto e) { tiro_async_token_return_value(current_frame->token, v, e); });
                        MUST(tiro_async_frame_yield(f, must));
                        current_frame->yielded = true;
                    }
                });
            },
            fc.params, cl, fn, must));
    } else {
        tiro_resumable_frame_desc_t d{};
        d.name = name;
        d.arg_count = fc.params;
        d.local_count = fc.locals;
        d.closure = cl;
        d.func = [](tiro_vm_t, tiro_resumable_frame_t f) {
            guarded([&] {
                FrameCase& fc = *current_frame;
                if (fc.round >= fc.rounds.size()) throw Fail{"the function was called again after its end"};
                do_frame(fc, f, tiro_resumable_frame_arg, tiro_resumable_frame_arg_count, tiro_resumable_frame_closure, tiro_resumable_frame_return_value, tiro_resumable_frame_panic_msg);
                bool last = ++fc.round == fc.rounds.size();
                if (!last) {
                    H z = fc.vm.get_export("prelude", "zero");
                    MUST(tiro_resumable_frame_invoke(f, (int) fc.round, z, nullptr, must));
                } else if (fc.expect.text == "null" && !fc.expect.panic)
                    MUST(tiro_resumable_frame_set_state(f, TIRO_RESUMABLE_STATE_END, must));
            });
        };
        MUST(tiro_make_resumable_function(vm, &d, fn, must));
    }
    CallResult r = vm.call(fn, raw);
    if (!fc.failure.empty()) throw Fail{fc.failure};
    if (fc.kind == 2) {
        if (!fc.yielded || r.kind != CallResult::not_completed) throw Fail{"the coroutine did not wait"};
        H v = vm.integer(5);
        bool fail = t.chance(1, 3);
        size_t bad = t.below(3);
        for (size_t i = 0; i < bad; ++i) {
            if (t.chance(1, 2)) check_call(c, "async_token_return_value(NULL)", BAD_ARG, [&](auto e) { tiro_async_token_return_value(fc.token, nullptr, e); });
            else check_call(c, "async_token_panic_msg(invalid)", BAD_ARG, [&](auto e) { tiro_async_token_panic_msg(fc.token, {nullptr, 4}, e); });
        }
        if (tiro_vm_has_ready(vm)) throw Fail{"failed calls resumed the coroutine"};
        if (t.chance(1, 8)) {
            c.label("abandoned");
            if (t.chance(1, 2)) tiro_async_token_free(fc.token);
        } else {
            if (fail) check_call(c, "async_token_panic_msg", OK, [&](auto e) { tiro_async_token_panic_msg(fc.token, ts("late"), e); });
            else check_call(c, "async_token_return_value", OK, [&](auto e) { tiro_async_token_return_value(fc.token, v, e); });
            size_t again = t.below(3);
            for (size_t i = 0; i < again; ++i) {
                check_call(c, "async_token_return_value again", ANY_ERROR, [&](auto e) { tiro_async_token_return_value(fc.token, v, e); });
                if (t.chance(1, 2)) {
                    Err e;
                    vm.run(e);
                    if (!e.ok()) throw Fail{"run_ready failed: " + e.text()};
                }
            }
            Err e;
            vm.run(e);
            if (!e.ok()) throw Fail{"run_ready failed: " + e.text()};
            tiro_async_token_free(fc.token);
        }
    } else {
        if (r.kind != CallResult::success && r.kind != CallResult::panic) throw Fail{"the call did not complete: " + r.message};
        std::string got = r.kind == CallResult::panic ? r.message : vm.show(r.value);
        if ((r.kind == CallResult::panic) != fc.expect.panic || got != fc.expect.text)
            throw Fail{sfmt("the call ended with %s%s, expected %s%s", r.kind == CallResult::panic ? "panic " : "", got.c_str(), fc.expect.panic ? "panic " : "", fc.expect.text.c_str())};
        if (fc.kind == 3 && fc.round != rounds) throw Fail{"the function was not called in every round"};
        c.label(fc.expect.panic ? "panic" : fc.expect.text == "null" ? "null result" : "result");
    }
    H a = vm.integer(7);
    CallResult s = vm.call("prelude", "id", {a});
    if (!s.ok() || vm.show(s.value) != "7") throw Fail{"the machine does not work any more: " + s.message};
    c.nontrivial = n_ops >= 3;
}

// ------------------------------------------------------------------------------------------------ compilers
struct Quiet { // discards the standard output
    int old[2] = {-1, -1};
    explicit Quiet(bool active) {
        if (!active) return;
        fflush(stdout), fflush(stderr);
        int null = open("/dev/null", O_WRONLY);
        for (int i = 0; i < 2; ++i) old[i] = dup(i + 1), dup2(null, i + 1);
        close(null);
    }
    void restore() {
        if (old[0] < 0) return;
        fflush(stdout), fflush(stderr);
        for (int i = 0; i < 2; ++i) dup2(old[i], i + 1), close(old[i]), old[i] = -1;
    }
    ~Quiet() { restore(); }
};
struct Comp {
    tiro_compiler_t comp = nullptr;
    std::vector<Source> files;
    std::set<int> requested;
    bool ran = false, ok = false, taken = false, callback = true, unknown = false;
    std::vector<Diag> diags;
    bool stop = false; // the callback answers false
    bool stopped = false;
};
void compilers(Case& c) {
    Tape& t = c.t;
    static const std::vector<std::string> good{"export const a = 1;\n", "export func f() { return 1; }\n", "func g() { return 2; }\n", ""},
        bad{"export func broken( { }\n", "const x = undefined_name;\n", "const a = 1; const a = 2;\n"}, warn{"export func w() { return 1 + null; }\n"};
    std::vector<std::unique_ptr<Comp>> all;
    size_t n = 5 + t.size(35);
    bool ran = false;
    auto pick = [&]() -> Comp* { return all.empty() || t.chance(1, 15) ? nullptr : all[t.below(all.size())].get(); };
    auto id = [&](Comp* x) -> std::string {
        for (size_t i = 0; i < all.size(); ++i)
            if (all[i].get() == x) return sfmt("#%zu", i);
        return "NULL";
    };
    auto raw = [](Comp* x) { return x ? x->comp : nullptr; };
    struct Cleanup {
        std::vector<std::unique_ptr<Comp>>& all;
        ~Cleanup() {
            for (auto& x : all) tiro_compiler_free(x->comp);
        }
    } cleanup{all};
    for (size_t i = 0; i < n; ++i) {
        switch (t.weighted({all.empty() ? 30u : 2u, 4, 1, 3, 3, 2, 2, 4, 1})) {
        case 0: {
            int k = (int) t.weighted({6, 1, 1});
            tiro_string_t name = k == 0 ? ts("m") : k == 1 ? tiro_string_t{nullptr, 3} : t.chance(1, 2) ? tiro_string_t{nullptr, 0} : tiro_string_t{"m", 0};
            tiro_compiler_t p = nullptr;
            if (check_call(c, sfmt("compiler_new(%s)", k == 0 ? "m" : k == 1 ? "invalid" : "empty"), k ? BAD_ARG : OK, [&](auto e) { p = tiro_compiler_new(name, e); })) {
                if (!p) throw Fail{"compiler_new returned NULL"};
                all.push_back(std::make_unique<Comp>());
                all.back()->comp = p;
                MUST(tiro_compiler_set_message_callback(
                    p, [](const tiro_compiler_message_t* m, void* u) {
                        auto* x = (Comp*) u;
                        x->diags.push_back({(int) m->severity, str(m->file), m->line, m->column, str(m->text)});
                        if (x->stop) x->stopped = true;
                        return !x->stop;
                    },
                    all.back().get(), must));
            } else if (p)
                throw Fail{"compiler_new failed and returned a compiler"};
            break;
        }
        case 1: {
            Comp* x = pick();
            int kind = (int) t.weighted({5, 2, 1});
            const auto& pool = kind == 0 ? good : kind == 1 ? bad : warn;
            std::string text = pool[t.below(pool.size())];
            int k = (int) t.weighted({12, 1, 1, 1});
            std::string name = sfmt("f%zu", x ? x->files.size() : 0);
            tiro_string_t nm = k == 1 ? tiro_string_t{nullptr, 2} : k == 2 ? tiro_string_t{"f", 0} : ts(name), tx = k == 3 ? tiro_string_t{nullptr, 7} : text.empty() ? tiro_string_t{nullptr, 0} : ts(text);
            Codes ex;
            if (!x || k) ex.insert(TIRO_ERROR_BAD_ARG);
            if (x && x->ran) ex.insert(TIRO_ERROR_BAD_STATE);
            if (ex.empty()) ex = OK;
            if (check_call(c, "compiler_add_file(" + id(x) + sfmt(", variant %d)", k), ex, [&](auto e) { tiro_compiler_add_file(raw(x), nm, tx, e); })) x->files.push_back({name, text});
            break;
        }
        case 2: {
            Comp* x = pick();
            if (x && !t.chance(1, 3)) {
                x->stop = t.chance(1, 2);
                break;
            }
            if (t.chance(1, 3)) { // the default again
                if (check_call(c, "compiler_set_message_callback(" + id(x) + ", no callback)", x ? OK : BAD_ARG, [&](auto e) { tiro_compiler_set_message_callback(raw(x), nullptr, x, e); })) x->callback = false;
                break;
            }
            check_call(c, "compiler_set_message_callback(" + id(x) + ")", x ? OK : BAD_ARG, [&](auto e) {
                tiro_compiler_set_message_callback(
                    raw(x), [](const tiro_compiler_message_t* m, void* u) {
                        auto* x = (Comp*) u;
                        x->diags.push_back({(int) m->severity, str(m->file), m->line, m->column, str(m->text)});
                        if (x->stop) x->stopped = true;
                        return !x->stop;
                    },
                    x, e);
            });
            if (x) x->callback = true;
            break;
        }
        case 3: {
            Comp* x = pick();
            int a = t.chance(3, 4) ? 1 + (int) t.below(4) : (int) t.pick({0, 5, -1, 100});
            bool valid = a >= 1 && a <= 4;
            Codes ex;
            if (!x || !valid) ex.insert(TIRO_ERROR_BAD_ARG);
            if (x && x->ran) ex.insert(TIRO_ERROR_BAD_STATE);
            if (ex.empty()) ex = OK;
            if (check_call(c, sfmt("compiler_request_attachment(%s, %d)", id(x).c_str(), a), ex, [&](auto e) { tiro_compiler_request_attachment(raw(x), (tiro_attachment_t) a, e); })) x->requested.insert(a);
            break;
        }
        case 4: {
            Comp* x = pick();
            Codes ex;
            bool expect_ok = false;
            if (!x) ex = BAD_ARG;
            else if (x->ran) ex = BAD_STATE;
            else {
                // whether these sources compile is decided with a separate compiler
                Compiled r = x->files.empty() ? Compiled() : compile("m", x->files);
                bool reports = !r.diags.empty();
                if (x->files.empty()) { // at least one file is required; what happens without is not specified
                    ex = ANY_ERROR;
                    ex.insert(TIRO_OK);
                    expect_ok = true;
                }
                else if (x->callback && x->stop && reports) ex = Codes{TIRO_ERROR_BAD_STATE, TIRO_ERROR_BAD_SOURCE};
                else ex = r.ok() ? OK : Codes{TIRO_ERROR_BAD_SOURCE};
                expect_ok = expect_ok || r.ok();
                size_t before = x->diags.size();
                if (before) throw Fail{"messages before the compiler ran"};
                x->unknown = x->callback && x->stop && reports;
                bool empty = x->files.empty();
                Quiet quiet(!x->callback && reports); // the default callback prints
                bool ok = check_call(c, "compiler_run(" + id(x) + ")", ex, [&](auto e) { tiro_compiler_run(raw(x), e); });
                quiet.restore();
                if (!x->callback && !x->diags.empty()) throw Fail{"a callback that was removed received a message"};
                x->ran = true;
                ran = true;
                x->ok = ok && expect_ok;
                if (!empty && !x->stop && x->callback) {
                    if (x->diags.size() != r.diags.size()) throw Fail{"another compiler reported other messages"};
                    for (size_t k = 0; k < r.diags.size(); ++k)
                        if (x->diags[k].text != r.diags[k].text || x->diags[k].line != r.diags[k].line || x->diags[k].file != r.diags[k].file) throw Fail{"another compiler reported other messages"};
                }
                if (x->stop && x->diags.size() > 1) throw Fail{"the callback answered false and was invoked again"};
                c.label(x->ok ? "compiled" : "not compiled");
                break;
            }
            check_call(c, "compiler_run(" + id(x) + ")", ex, [&](auto e) { tiro_compiler_run(raw(x), e); });
            break;
        }
        case 5: {
            Comp* x = pick();
            bool want = x && x->ok && !x->taken;
            if (x && x->unknown) break;
            c.describe("compiler_has_module(" + id(x) + ")");
            if (tiro_compiler_has_module(raw(x)) != want) throw Fail{"compiler_has_module(" + id(x) + ") is wrong"};
            break;
        }
        case 6: {
            Comp* x = pick();
            bool null_out = t.chance(1, 10);
            tiro_module_t sentinel = (tiro_module_t) &c, out = sentinel;
            bool has = tiro_compiler_has_module(raw(x));
            if (x && !x->unknown && has != (x->ok && !x->taken)) throw Fail{"compiler_has_module(" + id(x) + ") is wrong"};
            Codes ex = !x || null_out ? BAD_ARG : !has ? BAD_STATE : OK;
            if (check_call(c, "compiler_take_module(" + id(x) + ")", ex, [&](auto e) { tiro_compiler_take_module(raw(x), null_out ? nullptr : &out, e); })) {
                x->taken = true;
                x->ok = true;
                Vm vm(16u << 20, 1u << 16, false, false);
                Err e;
                tiro_vm_load_bytecode(vm, out, e);
                bool loaded = e.ok();
                tiro_module_free(out);
                if (!loaded) throw Fail{"the module cannot be loaded: " + e.text()};
                c.label("module taken");
            } else if (out != sentinel)
                throw Fail{"take_module failed but assigned to the result"};
            break;
        }
        case 7: {
            Comp* x = pick();
            int a = t.chance(5, 6) ? 1 + (int) t.below(4) : (int) t.pick({0, 5, -1});
            bool valid = a >= 1 && a <= 4, null_out = t.chance(1, 12);
            char sentinel = 0, *out = &sentinel;
            Codes ex;
            if (!x || null_out) ex = BAD_ARG;
            else {
                if (!valid) ex.insert(TIRO_ERROR_BAD_ARG);
                if (!x->ran) ex.insert(TIRO_ERROR_BAD_STATE);
                if (ex.empty()) {
                    if (!x->requested.count(a)) ex = BAD_STATE;
                    else if (x->ok) ex = OK;
                    else ex = {TIRO_OK, TIRO_ERROR_BAD_STATE}; // may be unavailable
                }
            }
            if (check_call(c, sfmt("compiler_get_attachment(%s, %d)", id(x).c_str(), a), ex, [&](auto e) { tiro_compiler_get_attachment(raw(x), (tiro_attachment_t) a, null_out ? nullptr : &out, e); })) {
                if (!out || out == &sentinel) throw Fail{"no attachment"};
                c.count("attachments", 1);
                free(out);
            } else if (out != &sentinel)
                throw Fail{"get_attachment failed but assigned to the result"};
            break;
        }
        default:
            if (!all.empty() && t.chance(1, 3)) {
                size_t k = t.below(all.size());
                c.describe(sfmt("compiler_free(#%zu)", k));
                tiro_compiler_free(all[k]->comp);
                all.erase(all.begin() + (long) k);
            }
        }
    }
    c.nontrivial = ran;
}

// ------------------------------------------------------------------------------------------------ machines
void machines(Case& c) {
    Tape& t = c.t;
    tiro_vm_settings_t s;
    memset(&s, 0xab, sizeof s);
    tiro_vm_settings_init(&s);
    if (s.page_size || s.max_heap_size || s.userdata || s.print_stdout || s.enable_panic_stack_trace) throw Fail{"default settings are not as documented"};
    switch (t.below(5)) {
    case 0: break;
    case 1: s.page_size = size_t(1) << t.below(30); break;
    case 2: s.page_size = t.pick({size_t(1), size_t(65535), size_t(65537), (size_t(1) << 24) + 1, SIZE_MAX, size_t(3) << 16, size_t(1) << 63, size_t(1) << 32}); break;
    default: s.page_size = size_t(1) << (16 + t.below(9));
    }
    bool page_ok = s.page_size == 0 || ((s.page_size & (s.page_size - 1)) == 0 && s.page_size >= (1u << 16) && s.page_size <= (1u << 24));
    s.max_heap_size = t.pick({size_t(0), size_t(SIZE_MAX), size_t(256) << 20, size_t(100) << 20, size_t(64) << 20});
    s.userdata = &s;
    bool no_settings = t.chance(1, 10);
    if (no_settings) page_ok = true;
    c.label(page_ok ? "valid page size" : "invalid page size");
    tiro_vm_t vm = nullptr;
    if (!check_call(c, sfmt("vm_new(page size %zu, heap size %zu%s)", s.page_size, s.max_heap_size, no_settings ? ", NULL" : ""), page_ok ? OK : ANY_ERROR, [&](auto e) { vm = tiro_vm_new(no_settings ? nullptr : &s, e); })) {
        if (vm) throw Fail{"vm_new failed and returned a machine"};
        c.nontrivial = true;
        return;
    }
    struct G {
        tiro_vm_t vm;
        ~G() { tiro_vm_free(vm); }
    } g{vm};
    if (!vm) throw Fail{"vm_new returned NULL"};
    if (tiro_vm_userdata(vm) != (no_settings ? nullptr : &s)) throw Fail{"wrong userdata"};
    if (!no_settings && s.page_size && tiro_vm_page_size(vm) != s.page_size) throw Fail{"wrong page size"};
    if (!no_settings && s.max_heap_size && tiro_vm_max_heap_size(vm) != s.max_heap_size) throw Fail{"wrong heap size"};
    if (!tiro_vm_page_size(vm) || !tiro_vm_max_heap_size(vm)) throw Fail{"no page size or heap size"};
    MUST(tiro_vm_load_std(vm, must));
    if (tiro_vm_has_ready(vm)) throw Fail{"a new machine has coroutines"};
    MUST(tiro_vm_run_ready(vm, must));
    H h(vm);
    MUST(tiro_vm_get_export(vm, ts("std"), ts("print"), h, must));
    if (tiro_value_kind(vm, h) != TIRO_KIND_FUNCTION) throw Fail{"std.print is not a function"};
    std::string big(t.below(1u << 18), 'x');
    MUST(tiro_make_string(vm, ts(big), h, must));
    tiro_string_t v{};
    MUST(tiro_string_value(vm, h, &v, must));
    if (str(v) != big) throw Fail{"string does not survive"};
    c.nontrivial = true;
}

// ------------------------------------------------------------------------------------------------ strings of codes
void codes(Case& c) {
    int x = c.t.chance(1, 2) ? (int) c.t.range(-5, 20) : c.t.chance(1, 2) ? (int) c.t.range(990, 1010) : (int) (unsigned) c.t.raw();
    c.describe(sfmt("code %d", x));
    static const std::map<int, const char*> errs{{0, "OK"}, {1, "ERROR_BAD_STATE"}, {2, "ERROR_BAD_ARG"}, {3, "ERROR_BAD_SOURCE"}, {4, "ERROR_BAD_TYPE"}, {5, "ERROR_BAD_KEY"}, {6, "ERROR_MODULE_EXISTS"},
        {7, "ERROR_MODULE_NOT_FOUND"}, {8, "ERROR_EXPORT_NOT_FOUND"}, {9, "ERROR_OUT_OF_BOUNDS"}, {10, "ERROR_ALLOC"}, {1000, "ERROR_INTERNAL"}};
    const char* n = tiro_errc_name((tiro_errc_t) x);
    const char* m = tiro_errc_message((tiro_errc_t) x);
    if (!n || !*n || !m || !*m) throw Fail{"no name or message"};
    auto it = errs.find(x);
    std::string name = n;
    if (it != errs.end() && name != it->second && name != std::string("TIRO_") + it->second) throw Fail{"name is " + name + ", expected " + it->second};
    if (it == errs.end())
        for (auto& [k, v] : errs)
            if (name == v) throw Fail{"unknown code has the name of another one"};
    for (auto& [k, v] : errs)
        if (k != x && errs.count(x) && std::string(m) == tiro_errc_message((tiro_errc_t) k)) throw Fail{"two codes have the same message"};
    const char* s = tiro_severity_str((tiro_severity_t) x);
    if (!s || !*s) throw Fail{"no severity"};
    const char* k = tiro_kind_str((tiro_kind_t) x);
    if (!k || !*k) throw Fail{"no kind"};
    static const char* kinds[] = {"NULL", "BOOLEAN", "INTEGER", "FLOAT", "STRING", "BUFFER", "FUNCTION", "TUPLE", "RECORD", "RECORD_SCHEMA", "ARRAY", "RESULT", "EXCEPTION", "COROUTINE", "MODULE", "TYPE", "NATIVE"};
    if (x >= 0 && x < (int) std::size(kinds) && strcmp(k, kinds[x])) throw Fail{sfmt("kind is %s, expected %s", k, kinds[x])};
    if (tiro_version_number() == 0 || !*tiro_version() || !*tiro_full_version() || !tiro_source_id()) throw Fail{"no version"};
    c.nontrivial = errs.count(x) || (x >= 0 && x < 20);
}

} // namespace

int main(int argc, char** argv) {
    pbt::Runner r("C14", "values: at least ten calls with all handles compared after each; frames: at least three calls on the frame; compilers: at least one run; machines: all; codes: known codes", {
        Suite{"values", 9000, 300000, s_values},
        Suite{"frames", 5000, 250000, frames},
        Suite{"compilers", 3000, 100000, compilers},
        Suite{"machines", 800, 20000, machines},
        Suite{"codes", 3000, 100000, codes},
    });
    return r.main(argc, argv);
}
