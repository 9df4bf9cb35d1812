// C22: the C++ interface (tiropp) reports what the C interface reports and releases everything it owns exactly once.
//
//  values     random histories on handles: every operation of the C++ interface on one machine, the C calls on another one
//  functions  native functions of all kinds that return, throw, suspend and call; compared with a model
//  ownership  callbacks, native objects, moved and copied handles under injected allocation failures; counting
//  machines   handles of several machines that are copied, moved, swapped and kept in containers, against a model
//  owners     tokens, compilers, modules and types that are moved over each other; native objects against every type
//  settings   machines with all kinds of settings against the C interface; printing, traces, resumable frames
//  compiler   tiro::compiler against the C functions, message callbacks that throw
#ifndef TIRO_HANDLE_CHECKS
#define TIRO_HANDLE_CHECKS
#endif
#include "tiro_util.hpp"
#include "tiropp/api.hpp"
#include <map>
#include <memory>
#include <optional>
#include <sanitizer/allocator_interface.h>
#include <sys/mman.h>
#include <unistd.h>

// c22_hook.cpp
extern unsigned long long verif_fail_countdown;
void verif_install_hook();
unsigned long long verif_used_handles(tiro_vm_t vm);

using pbt::Case;
using pbt::Suite;
using pbt::Tape;
using tu::Err;
using tu::H;
using tu::sfmt;
using tu::ts;
using u32 = uint32_t;
using u64 = uint64_t;
using i64 = int64_t;

namespace {

std::string described(const char* name, const char* message, const char* details) {
    // the details name the source line of the C function: the same for both
    return std::string(name) + "|" + message + "|" + details;
}
std::string described(Err& e) { return e.ok() ? "ok" : "error " + described(tiro_error_name(e.e), tiro_error_message(e.e), tiro_error_details(e.e)); }

// Runs an operation of the C++ interface
template<typename F>
std::string attempt(F&& f) {
    try {
        f();
        return "ok";
    } catch (const tiro::bad_handle_cast& e) {
        return std::string("cast ") + e.details();
    } catch (const tiro::bad_handle_check& e) {
        return std::string("check ") + e.message();
    } catch (const tiro::api_error& e) {
        if ((int) e.code() != (int) tiro_error_errc(e.raw_error())) return "wrong code";
        std::string d = described(e.name(), e.message(), e.details());
        for (auto part : {e.name(), e.message(), e.details()}) // documented parts of what()
            if (std::string(e.what()).find(part) == std::string::npos) return "what() does not contain " + std::string(part);
        if (std::string(tiro::name(e.code())) != e.name() || std::string(tiro::message(e.code())) != e.message()) return "name or message of the code";
        return "error " + d;
    } catch (const tiro::generic_error& e) {
        return std::string("generic ") + e.message();
    }
}

struct Counts {
    i64 constructed = 0, destroyed = 0, live = 0;
    bool twice = false;
};
// an object whose lifetime is counted
struct Tracked {
    Counts* n;
    i64 value;
    Tracked(Counts* n_, i64 v)
        : n(n_)
        , value(v) {
        ++n->constructed, ++n->live;
    }
    Tracked(Tracked&& o) noexcept
        : n(o.n)
        , value(o.value) {
        ++n->constructed, ++n->live;
        o.value = -1;
    }
    Tracked(const Tracked& o)
        : n(o.n)
        , value(o.value) {
        ++n->constructed, ++n->live;
    }
    Tracked& operator=(const Tracked&) = delete;
    ~Tracked() {
        if (value == -2) n->twice = true;
        ++n->destroyed, --n->live;
        value = -2;
    }
};

// ------------------------------------------------------------------------------------------------ values

constexpr size_t slot_count = 7;

tiro::handle identity(tiro::vm& v, tiro::sync_frame& f) { return f.arg_count() ? f.arg(0) : tiro::make_null(v); }

struct Slots { // the C side; an empty handle stands for a moved-from one
    std::vector<std::optional<H>> h;
};

void values(Case& c) {
    Tape& t = c.t;
    Counts counts;
    std::string d;
    u64 ops = 0, errors = 0, moved = 0, casts = 0;
    {
        tiro::native_type<Tracked> type("tracked");
        std::string out;
        tiro::vm_settings st;
        st.print_stdout = [&](std::string_view m) { out += m; };
        st.max_heap_size = 16 << 20;
        st.enable_panic_stack_traces = t.below(2);
        tu::Vm b(16 << 20, 0, st.enable_panic_stack_traces);
        tiro::vm v(st);
        v.load_std();
        if (v.page_size() != tiro_vm_page_size(b) || v.max_heap_size() != tiro_vm_max_heap_size(b)) c.fail("settings");
        const char* script = R"(
import std;
export func add(a, b) { return a + b; }
export func fail(a, b) { std.print("failing", a); return std.panic("no"); }
export func make(a, b) { return [(a: a, b: b), map{a: b}, #sym, "text"]; }
export func get(a, b) { return a[b]; }
export func result(a, b) { return if (b == 1) { std.success(a); } else { std.error(a); }; }
export func caught(a, b) { const r = std.catch_panic(func() = a + b); return if (r.is_error()) { r.error(); } else { r.value(); }; }
export func types(a, b) { return std.type_of(a); }
export func schema(a, b) { return std.schema_of((a: 1, b: 2)); }
export const constant = 42;
)";
        {
            tiro::compiler comp("script");
            comp.add_file("main", script);
            comp.run();
            if (!comp.has_module()) c.fail("no module");
            auto m = comp.take_module();
            v.load(m);
            if (comp.has_module()) c.fail("a module that was taken remains");
        }
        auto compiled = tu::compile("script", script);
        b.load(compiled);
        static const char* names[] = {"add", "fail", "make", "get", "result", "caught", "types", "schema", "constant", "nothing"};

        std::vector<tiro::handle> a;
        Slots s;
        for (size_t i = 0; i < slot_count; ++i) a.push_back(tiro::make_null(v)), s.h.emplace_back(b.null());
        const std::string invalid = "check Invalid handle";

        auto show_a = [&](size_t i) -> std::string { // through the C functions, which suite values does not judge
            if (!a[i].valid()) return "moved";
            struct Borrow {
                tiro_vm_t v;
            };
            std::function<std::string(tiro_vm_t, tiro_handle_t, int)> show = [&](tiro_vm_t m, tiro_handle_t h, int depth) -> std::string {
                auto k = tiro_value_kind(m, h);
                std::string r = tiro_kind_str(k);
                if (depth > 6) return r;
                H x(m);
                Err e;
                switch (k) {
                case TIRO_KIND_INTEGER: return r + sfmt(" %lld", (long long) tiro_integer_value(m, h));
                case TIRO_KIND_FLOAT: return r + sfmt(" %a", tiro_float_value(m, h));
                case TIRO_KIND_BOOLEAN: return r + sfmt(" %d", tiro_boolean_value(m, h));
                case TIRO_KIND_STRING: {
                    tiro_string_t str{};
                    tiro_string_value(m, h, &str, e);
                    return r + " " + tu::str(str);
                }
                case TIRO_KIND_TUPLE:
                    for (size_t k = 0; k < tiro_tuple_size(m, h); ++k) tiro_tuple_get(m, h, k, x, e), r += "," + show(m, x, depth + 1);
                    return r;
                case TIRO_KIND_ARRAY:
                    for (size_t k = 0; k < tiro_array_size(m, h); ++k) tiro_array_get(m, h, k, x, e), r += "," + show(m, x, depth + 1);
                    return r;
                case TIRO_KIND_RECORD: {
                    H key(m);
                    for (auto n : {"a", "b"}) {
                        tiro_make_string(m, ts(n), key, e);
                        tiro_record_get(m, h, key, x, e);
                        r += e.ok() ? "," + show(m, x, depth + 1) : ",-";
                        e.reset();
                    }
                    return r;
                }
                case TIRO_KIND_RESULT:
                    if (tiro_result_is_success(m, h)) tiro_result_value(m, h, x, e);
                    else tiro_result_error(m, h, x, e);
                    return r + sfmt(" %d ", tiro_result_is_success(m, h)) + show(m, x, depth + 1);
                case TIRO_KIND_EXCEPTION: tiro_exception_message(m, h, x, e); return r + " " + show(m, x, depth + 1);
                case TIRO_KIND_BUFFER: return r + sfmt(" %zu", tiro_buffer_size(m, h));
                case TIRO_KIND_COROUTINE: return r + sfmt(" %d%d", tiro_coroutine_started(m, h), tiro_coroutine_completed(m, h));
                case TIRO_KIND_TYPE: tiro_type_name(m, h, x, e); return r + " " + show(m, x, depth + 1);
                default: return r;
                }
            };
            std::string sa = show(v.raw_vm(), a[i].raw_handle(), 0);
            if (!s.h[i]) return sa + " but must be moved-from";
            std::string sb = show(b, *s.h[i], 0);
            return sa == sb ? "" : sa + " but expected " + sb;
        };
        auto slot = [&] { return (size_t) t.below(slot_count); };
        // the kind of slot i on the C side, as the wrapper sees it: a cast fails first
        auto cast_error = [&](size_t i, tiro_kind_t want) -> std::string {
            if (!s.h[i]) return invalid;
            auto k = tiro_value_kind(b, *s.h[i]);
            if (k == want) return "";
            return std::string("cast expected a value of kind ") + tiro_kind_str(want) + " but encountered a " + tiro_kind_str(k);
        };

        u64 rounds = 4 + t.size(60);
        for (u64 r = 0; r < rounds; ++r) {
            size_t i = slot(), j = slot(), k = slot();
            std::string got, want;
            std::vector<size_t> touched{i};
            Err e;
            H tmp(b);
            auto store = [&](size_t to) { // successful result
                if (e.ok()) s.h[to].emplace(std::move(tmp));
            };
            // T: type of the receiver in slot j
            auto on = [&](size_t from, tiro_kind_t kind, auto&& cpp, auto&& raw) {
                got = attempt([&] { cpp(); });
                want = cast_error(from, kind);
                if (want.empty()) {
                    raw();
                    want = described(e);
                } else if (want[1] == 'a') ++casts;
            };
            u64 op = t.below(37);
            switch (op) {
            case 0: got = attempt([&] { a[i] = tiro::make_integer(v, (i64) r); }); tiro_make_integer(b, (i64) r, tmp, e), want = described(e), store(i); break;
            case 1: {
                std::string str = sfmt("s%llu", (unsigned long long) r);
                if (t.chance(1, 3)) str += std::string("\0z", 2); // strings may contain zeros
                if (t.chance(1, 10)) str.clear();
                got = attempt([&] { a[i] = tiro::make_string(v, str); });
                tiro_make_string(b, ts(str), tmp, e), want = described(e), store(i);
                break;
            }
            case 2: got = attempt([&] { a[i] = tiro::make_array(v, r % 5); }); tiro_make_array(b, r % 5, tmp, e), want = described(e), store(i); break;
            case 3: got = attempt([&] { a[i] = tiro::make_tuple(v, r % 4); }); tiro_make_tuple(b, r % 4, tmp, e), want = described(e), store(i); break;
            case 4: got = attempt([&] { a[i] = tiro::make_buffer(v, r * 7); }); tiro_make_buffer(b, r * 7, tmp, e), want = described(e), store(i); break;
            case 5: got = attempt([&] { a[i] = tiro::make_boolean(v, r & 1); }); tiro_make_boolean(b, r & 1, tmp, e), want = described(e), store(i); break;
            case 6: got = attempt([&] { a[i] = tiro::make_float(v, 0.5 * (double) r); }); tiro_make_float(b, 0.5 * (double) r, tmp, e), want = described(e), store(i); break;
            case 7:
            case 8: { // exports
                const char* n = t.pick({names[0], names[1], names[2], names[3], names[4], names[5], names[6], names[7], names[8], names[9]});
                const char* m = t.chance(1, 10) ? "missing" : "script";
                got = attempt([&] { a[i] = tiro::get_export(v, m, n); });
                tiro_vm_get_export(b, ts(m), ts(n), tmp, e), want = described(e), store(i);
                break;
            }
            case 9: { // copies
                a[i] = a[j];
                if (i != j) {
                    if (!s.h[j]) s.h[i].reset();
                    else {
                        tiro_value_copy(b, *s.h[j], tmp, e);
                        s.h[i].emplace(std::move(tmp));
                    }
                }
                break;
            }
            case 10: { // moves
                if (i == j) {
                    auto& self = a[i];
                    a[i] = std::move(self); // nothing happens
                    break;
                }
                if (t.chance(2, 3)) break;
                a[i] = std::move(a[j]);
                if (s.h[j]) {
                    s.h[i].emplace(std::move(*s.h[j]));
                    s.h[j].reset();
                } else
                    s.h[i].reset();
                touched.push_back(j);
                ++moved;
                break;
            }
            case 11: { // construction from others
                tiro::handle x(a[j]);
                if (x.valid() != a[j].valid()) c.fail("a copy of a handle");
                if (x.valid() && x.raw_handle() == a[j].raw_handle()) c.fail("a copy shares the handle");
                tiro::handle y(std::move(x));
                if (x.valid()) c.fail("a moved-from handle is valid");
                std::swap(y, a[i]);
                std::swap(y, a[i]);
                break;
            }
            case 12: on(j, TIRO_KIND_TUPLE, [&] { a[i] = a[j].as<tiro::tuple>().get(r % 5); }, [&] { tiro_tuple_get(b, *s.h[j], r % 5, tmp, e), store(i); }); break;
            case 13: on(i, TIRO_KIND_TUPLE, [&] { a[i].as<tiro::tuple>().set(r % 5, a[j]); }, [&] {
                if (!s.h[j]) return;
                tiro_tuple_set(b, *s.h[i], r % 5, *s.h[j], e);
            });
                if (want == "ok" && !s.h[j]) want = invalid;
                break;
            case 14: on(j, TIRO_KIND_ARRAY, [&] { a[i] = a[j].as<tiro::array>().get(r % 4); }, [&] { tiro_array_get(b, *s.h[j], r % 4, tmp, e), store(i); }); break;
            case 15: on(i, TIRO_KIND_ARRAY, [&] { a[i].as<tiro::array>().set(r % 4, a[j]); }, [&] { if (s.h[j]) tiro_array_set(b, *s.h[i], r % 4, *s.h[j], e); });
                if (want == "ok" && !s.h[j]) want = invalid;
                break;
            case 16:
            case 17: on(i, TIRO_KIND_ARRAY, [&] { a[i].as<tiro::array>().push(a[j]); }, [&] { if (s.h[j]) tiro_array_push(b, *s.h[i], *s.h[j], e); });
                if (want == "ok" && !s.h[j]) want = invalid;
                break;
            case 18: on(i, TIRO_KIND_ARRAY, [&] { a[i].as<tiro::array>().pop(); }, [&] { tiro_array_pop(b, *s.h[i], e); }); break;
            case 19: {
                size_t n = 0, m = 0;
                on(i, TIRO_KIND_ARRAY, [&] { auto x = a[i].as<tiro::array>(); if (r % 3 == 0) x.clear(); n = x.size(); }, [&] { if (r % 3 == 0) tiro_array_clear(b, *s.h[i], e); m = tiro_array_size(b, *s.h[i]); });
                if (n != m) c.fail("size of an array");
                break;
            }
            case 20: {
                bool ok = t.below(2);
                got = attempt([&] { if (ok) a[i] = tiro::make_success(v, a[j]); else a[i] = tiro::make_error(v, a[j]); });
                if (!s.h[j]) want = invalid;
                else {
                    ok ? tiro_make_success(b, *s.h[j], tmp, e) : tiro_make_error(b, *s.h[j], tmp, e);
                    want = described(e), store(i);
                }
                break;
            }
            case 21: on(j, TIRO_KIND_RESULT, [&] { a[i] = a[j].as<tiro::result>().value(); }, [&] { tiro_result_value(b, *s.h[j], tmp, e), store(i); }); break;
            case 22: on(j, TIRO_KIND_RESULT, [&] { a[i] = a[j].as<tiro::result>().error(); }, [&] { tiro_result_error(b, *s.h[j], tmp, e), store(i); }); break;
            case 23: {
                int x = 0, y = 0;
                on(j, TIRO_KIND_RESULT, [&] { auto q = a[j].as<tiro::result>(); x = q.is_success() + 2 * q.is_error(); }, [&] { y = tiro_result_is_success(b, *s.h[j]) + 2 * tiro_result_is_error(b, *s.h[j]); });
                if (x != y) c.fail("is_success or is_error");
                break;
            }
            case 24: on(j, TIRO_KIND_EXCEPTION, [&] { a[i] = a[j].as<tiro::exception>().message(); }, [&] { tiro_exception_message(b, *s.h[j], tmp, e), store(i); }); break;
            case 25: on(j, TIRO_KIND_EXCEPTION, [&] { a[i] = a[j].as<tiro::exception>().trace(); }, [&] { tiro_exception_trace(b, *s.h[j], tmp, e), store(i); }); break;
            case 26: { // coroutines
                bool args = s.h[k] && t.below(2);
                got = attempt([&] {
                    auto f = a[j].as<tiro::function>();
                    a[i] = args ? tiro::make_coroutine(v, f, a[k]) : tiro::make_coroutine(v, f);
                });
                want = cast_error(j, TIRO_KIND_FUNCTION);
                if (want.empty()) tiro_make_coroutine(b, *s.h[j], args ? (tiro_handle_t) *s.h[k] : nullptr, tmp, e), want = described(e), store(i);
                break;
            }
            case 27: on(i, TIRO_KIND_COROUTINE, [&] { a[i].as<tiro::coroutine>().start(); }, [&] { tiro_coroutine_start(b, *s.h[i], e); }); break;
            case 28: on(j, TIRO_KIND_COROUTINE, [&] { a[i] = a[j].as<tiro::coroutine>().result(); }, [&] { tiro_coroutine_result(b, *s.h[j], tmp, e), store(i); }); break;
            case 29: {
                if (v.has_ready() != tiro_vm_has_ready(b)) c.fail("has_ready");
                got = attempt([&] { v.run_ready(); });
                tiro_vm_run_ready(b, e), want = described(e);
                for (size_t q = 0; q < slot_count; ++q) touched.push_back(q);
                break;
            }
            case 30: { // call a function with two arguments
                if (!s.h[j] || !s.h[k] || tiro_value_kind(b, *s.h[j]) != TIRO_KIND_FUNCTION) break;
                std::string done_a, done_b;
                got = attempt([&] {
                    auto args = tiro::make_tuple(v, 2);
                    args.set(0, a[k]), args.set(1, a[i].valid() ? a[i] : a[k]);
                    auto f = a[j].as<tiro::function>();
                    tiro::run_async(v, f, args, [&](tiro::vm& vm, const tiro::coroutine& co) {
                        if (&vm != &v || !co.completed() || !co.started()) c.fail("arguments of a callback");
                        done_a = co.result().is_success() ? "success" : "error";
                        a[i] = co.result();
                    });
                    while (v.has_ready()) v.run_ready();
                });
                H f(b);
                tiro_value_copy(b, *s.h[j], f, e);
                auto res = b.call(f, {*s.h[k], s.h[i] ? *s.h[i] : *s.h[k]});
                if (res.kind == tu::CallResult::error) c.fail("the call cannot be performed: " + res.message);
                done_b = res.kind == tu::CallResult::success ? "success" : "error";
                res.kind == tu::CallResult::success ? tiro_make_success(b, res.value, tmp, e) : tiro_make_error(b, res.value, tmp, e);
                store(i);
                want = "ok";
                if (done_a != done_b) c.fail("result of a call: " + done_a + ", expected " + done_b);
                for (size_t q = 0; q < slot_count; ++q) touched.push_back(q);
                break;
            }
            case 31: on(j, TIRO_KIND_ARRAY, [&] { a[i] = tiro::make_record_schema(v, a[j].as<tiro::array>()); }, [&] { tiro_make_record_schema(b, *s.h[j], tmp, e), store(i); }); break;
            case 32: on(j, TIRO_KIND_RECORD_SCHEMA, [&] { a[i] = tiro::make_record(v, a[j].as<tiro::record_schema>()); }, [&] { tiro_make_record(b, *s.h[j], tmp, e), store(i); }); break;
            case 33: {
                bool set = s.h[k] && t.below(2);
                const char* key = t.pick({"a", "b", "c"});
                H kb = b.string(key);
                auto ka = tiro::make_string(v, key);
                if (set) {
                    touched = {j};
                    on(j, TIRO_KIND_RECORD, [&] { a[j].as<tiro::record>().set(ka, a[k]); }, [&] { tiro_record_set(b, *s.h[j], kb, *s.h[k], e); });
                } else
                    on(j, TIRO_KIND_RECORD, [&] { a[i] = a[j].as<tiro::record>().get(ka); }, [&] { tiro_record_get(b, *s.h[j], kb, tmp, e), store(i); });
                break;
            }
            case 34: { // types and strings
                if (t.below(2)) {
                    got = attempt([&] { a[i] = a[j].type_of(); });
                    if (!s.h[j]) want = "generic"; // see below
                    else tiro_value_type(b, *s.h[j], tmp, e), want = described(e), store(i);
                    if (!s.h[j]) got = got == invalid ? "generic" : got;
                } else {
                    std::string x, y;
                    on(j, TIRO_KIND_STRING, [&] { auto q = a[j].as<tiro::string>(); x = q.value(); if (q.view() != x) x = "view"; }, [&] { y = b.text(*s.h[j]); });
                    if (x != y) c.fail("contents of a string: " + x);
                    if (s.h[j] && a[j].is<tiro::string>() != (want == "ok")) c.fail("is<string>");
                }
                break;
            }
            case 35: { // scalars
                if (!s.h[j]) break;
                auto kd = tiro_value_kind(b, *s.h[j]);
                if ((int) a[j].kind() != (int) kd || std::string(to_string(a[j].kind())) != tiro_kind_str(kd)) c.fail("kind");
                if (kd == TIRO_KIND_INTEGER && a[j].as<tiro::integer>().value() != tiro_integer_value(b, *s.h[j])) c.fail("value of an integer");
                if (kd == TIRO_KIND_BOOLEAN && a[j].as<tiro::boolean>().value() != tiro_boolean_value(b, *s.h[j])) c.fail("value of a boolean");
                if (kd == TIRO_KIND_FLOAT && a[j].as<tiro::float_>().value() != tiro_float_value(b, *s.h[j])) c.fail("value of a float");
                if (kd == TIRO_KIND_TUPLE && a[j].as<tiro::tuple>().size() != tiro_tuple_size(b, *s.h[j])) c.fail("size of a tuple");
                if (kd == TIRO_KIND_BUFFER && (a[j].as<tiro::buffer>().size() != tiro_buffer_size(b, *s.h[j]) || a[j].as<tiro::buffer>().is_pinned() != tiro_buffer_is_pinned(b, *s.h[j]))) c.fail("a buffer");
                if (kd == TIRO_KIND_TYPE && a[j].as<tiro::type>().name().value().empty()) c.fail("name of a type");
                if (kd == TIRO_KIND_COROUTINE && (a[j].as<tiro::coroutine>().started() != tiro_coroutine_started(b, *s.h[j]) || a[j].as<tiro::coroutine>().completed() != tiro_coroutine_completed(b, *s.h[j]))) c.fail("state of a coroutine");
                break;
            }
            default: { // modules
                std::string n = sfmt("m%llu", (unsigned long long) t.below(3));
                if (!s.h[j]) break;
                // names may contain zeros and any number of exports is allowed
                std::vector<std::pair<std::string, tiro::handle>> exports{{"x", a[j]}, {std::string("x\0y", 3), tiro::make_integer(v, 1)}};
                for (u64 q = 0, m = t.below(12); q < m; ++q) exports.emplace_back(sfmt("e%llu", (unsigned long long) q), tiro::make_integer(v, (i64) (100 + q)));
                if (t.chance(1, 10)) exports.emplace_back(t.below(2) ? "x" : "", tiro::make_integer(v, 1));
                std::string wanted = r % 5 == 4 ? "z" : exports[r % exports.size()].first;
                got = attempt([&] {
                    auto m = tiro::make_module(v, n, exports);
                    a[i] = m.get_export(wanted);
                });
                std::vector<H> vals;
                std::vector<tiro_module_member_t> mem;
                for (auto& [name, value] : exports) {
                    if (&name == &exports[0].first) vals.emplace_back(b), tiro_value_copy(b, *s.h[j], vals.back(), e);
                    else vals.push_back(b.integer(tiro_integer_value(v.raw_vm(), value.raw_handle())));
                    mem.push_back({ts(name), vals.back()});
                }
                H mb(b);
                tiro_make_module(b, ts(n), mem.data(), mem.size(), mb, e);
                if (e.ok()) tiro_module_get_export(b, mb, ts(wanted), tmp, e);
                want = described(e), store(i);
            }
            }
            d += sfmt("%llu(%zu,%zu,%zu) ", (unsigned long long) op, i, j, k) + got.substr(0, 120) + "\n";
            c.describe(d);
            ++ops;
            errors += got.rfind("error", 0) == 0;
            if (got != want) c.fail("the C++ interface: " + got + "\n  the C interface: " + want);
            for (size_t q : touched) {
                std::string x = show_a(q);
                if (!x.empty() && !(x == "moved" && !s.h[q])) c.fail(sfmt("slot %zu: ", q) + x);
            }
        }
        for (std::string* s : {&out, &b.out}) // addresses
            for (size_t p = 0; (p = s->find("@0x", p)) != std::string::npos; ++p) {
                size_t e = p + 3;
                while (e < s->size() && isxdigit((unsigned char) (*s)[e])) ++e;
                s->replace(p, e - p, "@");
            }
        if (out != b.out) c.fail("print: " + out + "\n  expected: " + b.out);
    }
    c.count("operations", ops);
    c.count("operations that fail", errors);
    c.count("moves of handles", moved);
    c.count("casts that fail", casts);
    c.nontrivial = ops >= 15;
}

// ------------------------------------------------------------------------------------------------ functions

struct Oops {};

// what the current native function does; arguments come from the script side
struct Behaviour {
    u64 kind = 0;   // 0 return the argument, 1 return the closure, 2 throw, 3 throw something else, 4 api error, 5 cast error, 6 argument out of range
    u64 suspend = 0; // async: 1 token completed later with a value, 2 with a panic
    u64 steps = 0;  // resumable: number of calls before it returns
    std::string text;
};
Behaviour behaviour;
std::vector<tiro::async_token> tokens;

tiro::handle behave(tiro::vm& v, std::function<tiro::handle(size_t)> arg, std::function<tiro::handle()> closure) {
    switch (behaviour.kind) {
    case 0: return arg(0);
    case 1: return closure();
    case 2: throw std::runtime_error(behaviour.text);
    case 3: throw Oops();
    case 4: return tiro::get_export(v, "missing", "x");
    case 5: return tiro::make_string(v, "x").as<tiro::tuple>();
    default: return arg(100);
    }
}
tiro::handle f_sync(tiro::vm& v, tiro::sync_frame& f) {
    return behave(v, [&](size_t i) { return f.arg(i); }, [&] { return f.closure(); });
}
void f_async(tiro::vm& v, tiro::async_frame& f) {
    if (behaviour.suspend) {
        tokens.push_back(f.token());
        f.yield();
        return;
    }
    f.return_value(behave(v, [&](size_t i) { return f.arg(i); }, [&] { return f.closure(); }));
}
void f_resumable(tiro::vm& v, tiro::resumable_frame& f) {
    if (f.state() == tiro::resumable_frame::end) return;
    if (f.state() == tiro::resumable_frame::start) {
        f.set_local(0, tiro::make_integer(v, 0));
        f.set_local(1, tiro::make_array(v, 0));
    } else {
        f.local(1).as<tiro::array>().push(f.invoke_return());
    }
    i64 n = f.local(0).as<tiro::integer>().value();
    if ((u64) n < behaviour.steps) {
        f.set_local(0, tiro::make_integer(v, n + 1));
        auto args = tiro::make_tuple(v, 2);
        args.set(0, tiro::make_integer(v, n));
        args.set(1, tiro::make_integer(v, 100));
        f.invoke(1 + (int) n, tiro::get_export(v, "script", "add").as<tiro::function>(), args);
        return;
    }
    if (behaviour.kind == 0) f.return_value(f.local(1));
    else f.return_value(behave(v, [&](size_t i) { return f.arg(i); }, [&] { return f.closure(); }));
}

void functions(Case& c) {
    Tape& t = c.t;
    std::string d;
    u64 calls = 0, panics = 0;
    tokens.clear();
    {
        tiro::vm v;
        v.load_std();
        {
            tiro::compiler comp("script");
            comp.add_file("main", "import std; export func add(a, b) { return a + b; } export func guarded(f, x) { const r = std.catch_panic(func() = f(x)); "
                                  "return if (r.is_error()) { \"caught \" ; } else { r.value(); }; }");
            comp.run();
            v.load(comp.take_module());
        }
        u64 rounds = 1 + t.size(16);
        for (u64 r = 0; r < rounds; ++r) {
            behaviour = Behaviour();
            u64 kind = t.below(3);
            behaviour.kind = t.below(7);
            behaviour.text = t.pick({"", "some text", "text with \" quotes and \n a line", "ünïcode"});
            behaviour.suspend = kind == 1 ? t.below(4) : 0;
            behaviour.steps = kind == 2 ? t.below(6) : 0;
            i64 value = t.any_i64();
            auto name = tiro::make_string(v, "native");
            auto closure = tiro::make_string(v, sfmt("closure %llu", (unsigned long long) r));
            tiro::function f = kind == 0 ? tiro::make_sync_function<&f_sync>(v, name, 1, closure)
                               : kind == 1 ? tiro::make_async_function<&f_async>(v, name, 1, closure)
                                           : tiro::make_resumable_function<&f_resumable>(v, name, 1, 2, closure);
            auto args = tiro::make_tuple(v, 1);
            args.set(0, tiro::make_integer(v, value));
            d += sfmt("kind %llu behaviour %llu suspend %llu steps %llu value %lld\n", (unsigned long long) kind, (unsigned long long) behaviour.kind, (unsigned long long) behaviour.suspend, (unsigned long long) behaviour.steps, (long long) value);
            c.describe(d);
            std::string got = "nothing";
            int called = 0;
            bool script = kind == 0 && t.chance(1, 3);
            auto on_done = [&](tiro::vm&, const tiro::coroutine& co) {
                ++called;
                auto res = co.result();
                if (res.is_success()) {
                    auto x = res.value();
                    got = "value " + (x.is<tiro::string>() ? x.as<tiro::string>().value() : x.is<tiro::integer>() ? sfmt("%lld", (long long) x.as<tiro::integer>().value())
                                                                                  : x.is<tiro::array>() ? sfmt("array %zu", x.as<tiro::array>().size()) : to_string(x.kind()));
                    if (x.is<tiro::array>()) {
                        auto arr = x.as<tiro::array>();
                        for (size_t q = 0; q < arr.size(); ++q) got += sfmt(" %lld", (long long) arr.get(q).as<tiro::integer>().value());
                    }
                } else
                    got = "panic " + res.error().as<tiro::exception>().message().value();
            };
            if (script) {
                auto two = tiro::make_tuple(v, 2);
                two.set(0, f), two.set(1, tiro::make_integer(v, value));
                tiro::run_async(v, tiro::get_export(v, "script", "guarded").as<tiro::function>(), two, on_done);
            } else
                tiro::run_async(v, f, args, on_done);
            while (v.has_ready()) v.run_ready();
            if (behaviour.suspend) {
                if (called || tokens.size() != 1) c.fail("a suspended function");
                if (t.below(2)) { // tokens can be moved
                    tiro::async_token moved = std::move(tokens[0]);
                    tokens.clear();
                    tokens.push_back(std::move(moved));
                }
                if (behaviour.suspend == 1) tokens[0].return_value(tiro::make_string(v, "later"));
                else if (behaviour.suspend == 2) tokens[0].panic_msg("later panic");
                else tokens.clear(); // the coroutine is never resumed
                std::string again = tokens.empty() ? "" : attempt([&] { tokens[0].return_value(tiro::make_null(v)); });
                if (again == "ok") c.fail("a token was used twice");
                tokens.clear();
                while (v.has_ready()) v.run_ready();
            }
            std::string want;
            auto behaved = [&]() -> std::string {
                switch (behaviour.kind) {
                case 0: return sfmt("value %lld", (long long) value);
                case 1: return sfmt("value closure %llu", (unsigned long long) r);
                case 2: return "panic " + behaviour.text;
                case 3: return "panic unknown exception";
                case 4: return "panic tiro::error: ERROR_MODULE_NOT_FOUND";
                case 5: return "panic Bad handle cast (expected a value of kind TUPLE but encountered a STRING)";
                default: return "panic tiro::error: ERROR_OUT_OF_BOUNDS";
                }
            };
            want = behaved();
            if (kind == 1 && behaviour.suspend == 1) want = "value later";
            if (kind == 1 && behaviour.suspend == 2) want = "panic later panic";
            if (kind == 1 && behaviour.suspend == 3) want = "nothing";
            if (kind == 2 && behaviour.kind == 0) {
                want = sfmt("value array %llu", (unsigned long long) behaviour.steps);
                for (u64 q = 0; q < behaviour.steps; ++q) want += sfmt(" %llu", (unsigned long long) (100 + q));
            }
            if (script && want.rfind("panic", 0) == 0) want = "value caught ";
            bool same = (behaviour.kind == 4 || behaviour.kind == 5 || behaviour.kind == 6) && want.rfind("panic", 0) == 0 ? got.substr(0, std::min(got.size(), want.find(" (") == std::string::npos ? want.size() : want.find(" ("))) == want.substr(0, want.find(" (") == std::string::npos ? want.size() : want.find(" (")) : got == want;
            if (!same || called != (want == "nothing" ? 0 : 1)) c.fail("got " + got + sfmt(" (%d calls of the callback)\n  expected ", called) + want);
            ++calls;
            panics += want.rfind("panic", 0) == 0;
        }
    }
    tokens.clear();
    c.count("calls of native functions", calls);
    c.count("exceptions thrown by native functions", panics);
    c.nontrivial = calls >= 3;
}

// ------------------------------------------------------------------------------------------------ ownership

struct Waiting {
    std::vector<tiro::async_token> tokens;
};
void f_wait(tiro::vm& v, tiro::async_frame& f) {
    auto& w = *std::any_cast<Waiting*>(v.userdata());
    w.tokens.push_back(f.token());
    f.yield();
}

u64 ownership_run(Case& c, const std::vector<u64>& plan, Counts& callbacks, Counts& natives, u64& invoked, std::string& d) {
    u64 failures = 0;
    tiro::native_type<Tracked> type("tracked");
    Waiting waiting;
    {
        tiro::vm v;
        v.userdata() = &waiting;
        v.load_std();
        auto null = tiro::make_null(v);
        auto f_id = tiro::make_sync_function<&identity>(v, tiro::make_string(v, "id"), 1, null);
        auto f_w = tiro::make_async_function<&f_wait>(v, tiro::make_string(v, "wait"), 0, null);
        auto one = tiro::make_tuple(v, 1);
        std::vector<tiro::native> objects;
        std::vector<tiro::coroutine> cos;
        std::vector<tiro::handle> handles;
        for (size_t p = 0; p + 2 < plan.size(); p += 3) {
            u64 op = plan[p], x = plan[p + 1];
            verif_fail_countdown = plan[p + 2];
            std::string got = attempt([&] {
                switch (op) {
                case 0:
                case 1: { // a callback that owns something
                    Tracked tr(&callbacks, (i64) x);
                    tiro::handle captured = tiro::make_integer(v, (i64) x);
                    auto cb = [tr, captured, &invoked, &c](tiro::vm&, const tiro::coroutine& co) {
                        if (tr.value < 0 || captured.as<tiro::integer>().value() != tr.value) c.fail("the state of a callback");
                        if (!co.completed()) c.fail("a callback of a coroutine that is not completed");
                        ++invoked;
                    };
                    if (op == 0) tiro::run_async(v, f_id, one, std::move(cb));
                    else tiro::run_async(v, f_w, cb);
                    break;
                }
                case 2: v.run_ready(); break;
                case 3: {
                    objects.push_back(type.make(v, Tracked(&natives, (i64) x)));
                    if (type.access(objects.back())->value != (i64) x || !type.is_instance(objects.back())) c.fail("the contents of a native object");
                    break;
                }
                case 4:
                    if (!objects.empty()) {
                        auto& o = objects[x % objects.size()];
                        if (!type.is_destroyed(o)) type.destroy(o);
                        else {
                            std::string r = attempt([&] { (void) type.access(o); });
                            if (r != "generic The object was already destroyed.") c.fail("access to a destroyed object: " + r);
                        }
                    }
                    break;
                case 5:
                    if (!objects.empty()) objects.erase(objects.begin() + (long) (x % objects.size()));
                    break;
                case 6: // replace the callback of a coroutine
                    cos.push_back(tiro::make_coroutine(v, f_id, one));
                    for (u64 k = 0; k < 1 + x % 3; ++k) {
                        Tracked tr(&callbacks, (i64) k);
                        cos.back().set_callback([tr, &invoked](tiro::vm&, const tiro::coroutine&) { ++invoked; });
                    }
                    if (x & 8) cos.back().start();
                    break;
                case 7:
                    if (!waiting.tokens.empty()) {
                        size_t i = x % waiting.tokens.size();
                        if (x & 16) waiting.tokens[i].return_value(tiro::make_string(v, "x"));
                        else waiting.tokens[i].panic_msg("x");
                        waiting.tokens.erase(waiting.tokens.begin() + (long) i);
                    }
                    break;
                case 8: // copies of handles may fail
                    for (u64 k = 0; k < x % 5; ++k) {
                        handles.push_back(one);
                        handles.push_back(f_id);
                    }
                    break;
                case 9: handles.clear(); break;
                default: { // garbage
                    for (u64 k = 0; k < x % 40; ++k) (void) tiro::make_buffer(v, 30000);
                }
                }
            });
            verif_fail_countdown = 0;
            if (got != "ok") ++failures;
            d += sfmt("%llu(%llu,%llu): %s\n", (unsigned long long) op, (unsigned long long) x, (unsigned long long) plan[p + 2], got.substr(0, 60).c_str());
            c.describe(d);
            if (got != "ok" && got.find("ERROR_ALLOC") == std::string::npos) c.fail("unexpected error: " + got);
        }
        waiting.tokens.clear();
    }
    return failures;
}

void ownership(Case& c) {
    Tape& t = c.t;
    std::vector<u64> plan;
    u64 n = 3 + t.size(30);
    for (u64 i = 0; i < n; ++i) {
        plan.push_back(t.below(11));
        plan.push_back(t.below(64));
        plan.push_back(t.chance(1, 4) ? 1 + t.below(8) : 0);
    }
    Counts callbacks, natives;
    u64 invoked = 0, failures = 0;
    verif_install_hook();
    for (int round = 0; round < 2; ++round) {
        std::string d;
        if (round == 1) d.reserve(1 << 16);
        size_t before = __sanitizer_get_current_allocated_bytes();
        failures += ownership_run(c, plan, callbacks, natives, invoked, d);
        std::string().swap(d);
        if (callbacks.live) c.fail(sfmt("%lld callbacks were not destroyed or destroyed twice", (long long) callbacks.live));
        if (natives.live) c.fail(sfmt("%lld native objects were not destroyed or destroyed twice", (long long) natives.live));
        if (callbacks.twice || natives.twice) c.fail("an object was destroyed twice");
        std::string().swap(c.desc);
        size_t after = __sanitizer_get_current_allocated_bytes();
        // The first round pays for everything that is allocated once.
        if (round == 1 && after > before) c.fail(sfmt("%lld bytes were not released", (long long) (after - before)));
    }
    c.count("callbacks invoked", invoked);
    c.count("callbacks created", (u64) callbacks.constructed);
    c.count("native objects created", (u64) natives.constructed);
    c.count("operations that fail for lack of memory", failures);
    std::string d;
    for (auto x : plan) d += sfmt("%llu ", (unsigned long long) x);
    c.describe(d);
    c.nontrivial = callbacks.constructed >= 2 && natives.constructed >= 2;
}

// ------------------------------------------------------------------------------------------------ machines

// A handle as the model sees it
struct Ref {
    int vm = -1; // -1: moved-from
    std::string value;
    bool operator==(const Ref& o) const { return vm == o.vm && value == o.value; }
};

void machines(Case& c) {
    Tape& t = c.t;
    size_t count = 1 + t.below(3);
    std::vector<std::unique_ptr<tiro::vm>> vms;
    std::vector<u64> base;
    for (size_t i = 0; i < count; ++i) vms.push_back(std::make_unique<tiro::vm>()), base.push_back(verif_used_handles(vms[i]->raw_vm()));
    std::string d;
    u64 ops = 0, crossed = 0, refused = 0;
    auto machine = [&] { return t.below(count); };
    auto text = [&]() -> std::string {
        std::string s = sfmt("%llu", (unsigned long long) ops);
        if (t.chance(1, 3)) s += std::string("\0x", 2) + "tail", s += '\0';
        return s;
    };
    {
        std::vector<tiro::handle> a;
        std::vector<Ref> m;
        auto fresh = [&](Ref& r) {
            r.vm = (int) machine();
            r.value = text();
            return tiro::handle(tiro::make_string(*vms[r.vm], r.value));
        };
        for (size_t i = 0; i < 5; ++i) {
            Ref r;
            a.push_back(fresh(r));
            m.push_back(r);
        }
        u64 rounds = 4 + t.size(50);
        for (; ops < rounds; ++ops) {
            size_t i = t.below(a.size()), j = t.below(a.size());
            u64 op = t.below(16);
            bool cross = m[i].vm >= 0 && m[j].vm >= 0 && m[i].vm != m[j].vm;
            std::string got = "ok", want = "ok";
            switch (op) {
            case 0: a[i] = fresh(m[i]); break;
            case 1:
            case 2:
            case 3: a[i] = a[j], m[i] = m[j], crossed += cross; break; // copy
            case 4:
                if (i == j) break;
                a[i] = std::move(a[j]), m[i] = m[j], m[j] = Ref(), crossed += cross;
                break;
            case 5: std::swap(a[i], a[j]), std::swap(m[i], m[j]), crossed += cross; break;
            case 6: { // containers
                if (a.size() > 40) break;
                a.insert(a.begin() + (long) i, a[j]); // a copy, although elements move
                Ref r = m[j];
                m.insert(m.begin() + (long) i, r);
                break;
            }
            case 7:
                if (a.size() <= 2) break;
                a.erase(a.begin() + (long) i), m.erase(m.begin() + (long) i);
                break;
            case 8: { // typed handles convert back and forth
                got = attempt([&] {
                    tiro::string s = a[i].as<tiro::string>();
                    tiro::string s2 = s;
                    s = s2;
                    tiro::string s3 = std::move(s2);
                    if (s2.valid()) c.fail("a moved-from string is valid");
                    s2 = s3;
                    if (s2.value() != m[i].value) c.fail("a copied string");
                    a[i] = s2;
                });
                if (m[i].vm < 0) want = "check Invalid handle";
                break;
            }
            case 9: { // assignment of typed handles of different machines
                got = attempt([&] {
                    tiro::string s = a[i].as<tiro::string>(), s2 = a[j].as<tiro::string>();
                    s = s2;
                    if (s.raw_vm() != s2.raw_vm() || s.value() != m[j].value) c.fail("an assigned string");
                    a[i] = std::move(s);
                });
                if (m[i].vm < 0 || m[j].vm < 0) want = "check Invalid handle";
                else m[i] = m[j], crossed += cross;
                break;
            }
            case 10: { // values of different machines do not mix
                size_t k = t.below(a.size());
                if (m[i].vm < 0) break;
                auto& v = *vms[m[i].vm];
                auto tup = tiro::make_tuple(v, 2);
                bool bad = m[j].vm < 0 || m[j].vm != m[i].vm;
                want = m[j].vm >= 0 && m[j].vm != m[i].vm ? "check Handles that belong to different virtual machines must not be mixed" : m[j].vm < 0 ? "" : "ok";
                u64 which = t.below(8);
                got = attempt([&] {
                    switch (which) {
                    case 0: tup.set(1, a[j]); break;
                    case 1: tiro::make_array(v).push(a[j]); break;
                    case 2: tiro::make_success(v, a[j]); break;
                    case 3: tiro::same(v, a[i], a[j]); break;
                    case 4: tiro::make_module(v, "m", {{"x", a[i]}, {"y", a[j]}}); break;
                    case 5: tiro::make_sync_function<&identity>(v, tiro::make_string(v, "f"), 0, a[j]); break;
                    case 6: tiro::make_error(v, a[j]); break;
                    default: {
                        auto f = tiro::make_sync_function<&identity>(v, tiro::make_string(v, "f"), 1, tiro::make_null(v));
                        if (m[j].vm >= 0 && m[j].vm == m[i].vm) { // arguments must be a tuple
                            tup.set(0, a[j]);
                            tiro::make_coroutine(v, f, tup);
                        } else
                            tiro::make_coroutine(v, f, a[j]);
                    }
                    }
                });
                if (bad) {
                    ++refused;
                    if (got.rfind("check ", 0) != 0) c.fail(sfmt("a handle of the wrong machine, or an invalid one, was accepted (%llu): ", (unsigned long long) which) + got);
                    if (want.empty()) want = got; // an invalid handle; the machine it once belonged to may differ as well
                }
                if (tup.size() != 2 || tup.get(1).kind() != (which == 0 && !bad ? tiro::value_kind::string : tiro::value_kind::null)) c.fail("the tuple after a refused operation");
                (void) k;
                break;
            }
            case 11: { // copies of the raw value
                if (m[i].vm < 0) break;
                a[j] = tiro::make_copy(*vms[m[i].vm], a[i].raw_handle());
                m[j] = m[i];
                break;
            }
            case 12: { // an exception while handles are alive
                std::string s = attempt([&] {
                    tiro::handle x(a[i]), y(std::move(x));
                    std::vector<tiro::handle> many(3, y);
                    (void) many[1].as<tiro::tuple>();
                });
                if (s.rfind("cast ", 0) != 0 && s.rfind("check ", 0) != 0) c.fail("cast of a string to a tuple: " + s);
                break;
            }
            case 13: { // move assignment of typed handles
                if (m[i].vm < 0 || m[j].vm < 0 || i == j) break;
                tiro::string s = std::move(a[i]).as<tiro::string>();
                if (a[i].valid()) c.fail("as() && leaves a valid handle");
                s = std::move(a[j]).as<tiro::string>();
                a[i] = std::move(s);
                m[i] = m[j], m[j] = Ref();
                break;
            }
            case 14: { // self assignments
                auto& self = a[i];
                a[i] = self;
                a[i] = std::move(self);
                break;
            }
            default: { // functions that take and return handles
                auto pass = [](tiro::handle h) { return h; };
                a[i] = pass(a[j]);
                m[i] = m[j];
                a[j] = pass(pass(std::move(a[j])));
            }
            }
            d += sfmt("%llu(%zu,%zu) %s\n", (unsigned long long) op, i, j, got.c_str());
            c.describe(d);
            if (got != want) c.fail("got " + got + ", expected " + want);
            for (size_t q = 0; q < a.size(); ++q) {
                if (a[q].valid() != (m[q].vm >= 0)) c.fail(sfmt("handle %zu is ", q) + (a[q].valid() ? "valid" : "not valid"));
                if (m[q].vm < 0) continue;
                if (a[q].raw_vm() != vms[m[q].vm]->raw_vm()) c.fail(sfmt("handle %zu belongs to the wrong machine", q));
                if (!a[q].is<tiro::string>() || a[q].as<tiro::string>().value() != m[q].value || a[q].to_string().view() != m[q].value) c.fail(sfmt("handle %zu has the wrong value", q));
                for (size_t p = 0; p < q; ++p)
                    if (a[p].valid() && a[p].raw_handle() == a[q].raw_handle()) c.fail(sfmt("handles %zu and %zu share their slot", p, q));
            }
            for (size_t v = 0; v < count; ++v) {
                u64 expect = base[v], used = verif_used_handles(vms[v]->raw_vm());
                for (auto& r : m) expect += r.vm == (int) v;
                if (used != expect) c.fail(sfmt("machine %zu has %llu handles in use, expected %llu", v, (unsigned long long) used, (unsigned long long) expect));
            }
        }
    }
    for (size_t v = 0; v < count; ++v)
        if (verif_used_handles(vms[v]->raw_vm()) != base[v]) c.fail("handles were not released");
    c.count("operations on handles of several machines", ops);
    c.count("handles assigned across machines", crossed);
    c.count("handles refused", refused);
    c.nontrivial = ops >= 10;
}

// ------------------------------------------------------------------------------------------------ owners

// tokens, compilers, modules and types that are moved around: every one keeps its identity and is released once
struct Tiny { // smaller than a pointer
    static inline i64 live = 0;
    unsigned char x;
    explicit Tiny(unsigned char v)
        : x(v) {
        ++live;
    }
    Tiny(Tiny&& o) noexcept
        : x(o.x) {
        ++live;
    }
    ~Tiny() { --live; }
};
struct alignas(16) Wide {
    static inline i64 live = 0;
    i64 x[6];
    explicit Wide(i64 v) {
        for (auto& y : x) y = v++;
        ++live;
    }
    Wide(Wide&& o) noexcept {
        for (int i = 0; i < 6; ++i) x[i] = o.x[i];
        ++live;
    }
    ~Wide() { --live; }
};

u64 owners_run(Case& c, const std::vector<u64>& plan, i64& counted) {
    // types first: they must outlive the objects
    std::vector<tiro::native_type<Tiny>> tiny;
    std::vector<tiro::native_type<Wide>> wide;
    tiny.emplace_back("same"), tiny.emplace_back("same"), tiny.emplace_back(std::string("n\0ul", 5));
    wide.emplace_back("same"), wide.emplace_back(""), wide.emplace_back("a name that is long enough to be allocated separately");
    const std::string names[] = {"same", "same", std::string("n\0ul", 5), "same", "", "a name that is long enough to be allocated separately"};
    Waiting waiting;
    u64 ops = 0;
    {
        tiro::vm v;
        v.userdata() = &waiting;
        auto f_w = tiro::make_async_function<&f_wait>(v, tiro::make_string(v, "wait"), 0, tiro::make_null(v));
        struct Object {
            tiro::native h;
            int type; // 0..2 tiny, 3..5 wide
            i64 value;
            bool destroyed;
        };
        std::vector<Object> objects;
        std::vector<std::optional<tiro::compiler>> comps(3);
        std::vector<i64> comp_id(3, -1); // -1: none or moved from
        std::vector<std::optional<tiro::compiled_module>> mods(3);
        std::vector<i64> mod_id(3, -1);
        struct Wait {
            std::optional<tiro::async_token> tok;
            i64 id = -1;
        };
        std::vector<Wait> toks(4);
        std::map<i64, std::string> results;
        i64 next = 0;
        auto fresh = [&](size_t i, i64 id) {
            tiro::compiler comp(sfmt("module%lld", (long long) id));
            comp.add_file("f", sfmt("export const id = %lld;", (long long) id));
            if (comps[i]) *comps[i] = std::move(comp);
            else comps[i].emplace(std::move(comp));
            comp_id[i] = id;
        };
        for (size_t p = 0; p + 2 < plan.size(); p += 3, ++ops) {
            u64 op = plan[p], x = plan[p + 1], y = plan[p + 2];
            size_t i = x % 3, j = y % 3;
            switch (op) {
            case 0: fresh(i, next++); break; // assigns over the old one
            case 1:                          // moves of compilers, also over themselves
                if (!comps[i] || !comps[j]) break;
                *comps[i] = std::move(*comps[j]);
                if (i != j) comp_id[i] = comp_id[j], comp_id[j] = -1;
                break;
            case 2: comps[i].reset(), comp_id[i] = -1; break;
            case 3: { // run and take
                if (comp_id[i] < 0) break;
                comps[i]->run();
                tiro::compiled_module m = comps[i]->take_module();
                if (mods[j]) *mods[j] = std::move(m);
                else mods[j].emplace(std::move(m));
                mod_id[j] = comp_id[i];
                comps[i].reset(), comp_id[i] = -1;
                break;
            }
            case 4:
                if (!mods[i] || !mods[j]) break;
                *mods[i] = std::move(*mods[j]);
                if (i != j) mod_id[i] = mod_id[j], mod_id[j] = -1;
                break;
            case 5: { // a module is the one that was compiled
                if (!mods[i]) break;
                if ((mods[i]->raw_module() == nullptr) != (mod_id[i] < 0)) c.fail("a moved-from module still refers to something, or a valid one does not");
                if (mod_id[i] < 0) break;
                tiro::vm other;
                other.load(*mods[i]);
                auto h = tiro::get_export(other, sfmt("module%lld", (long long) mod_id[i]), "id");
                if (h.as<tiro::integer>().value() != mod_id[i]) c.fail("the wrong module");
                break;
            }
            case 6: { // a coroutine that waits
                size_t k = x % 4;
                size_t before = waiting.tokens.size();
                i64 id = next++;
                tiro::run_async(v, f_w, [&results, id](tiro::vm&, const tiro::coroutine& co) {
                    auto r = co.result();
                    results[id] = r.is_success() ? r.value().as<tiro::string>().value() : "panic " + r.error().as<tiro::exception>().message().value();
                });
                v.run_ready();
                if (waiting.tokens.size() != before + 1) c.fail("no token");
                tiro::async_token tok = std::move(waiting.tokens.back());
                waiting.tokens.pop_back();
                if (tok.raw_vm() != v.raw_vm()) c.fail("the vm of a token");
                if (toks[k].tok) *toks[k].tok = std::move(tok);
                else toks[k].tok.emplace(std::move(tok));
                toks[k].id = id;
                break;
            }
            case 7: {
                size_t a = x % 4, b = y % 4;
                if (!toks[a].tok || !toks[b].tok) break;
                *toks[a].tok = std::move(*toks[b].tok);
                if (a != b) toks[a].id = toks[b].id, toks[b].id = -1;
                break;
            }
            case 8: { // complete
                size_t k = x % 4;
                if (!toks[k].tok) break;
                if ((toks[k].tok->raw_token() == nullptr) != (toks[k].id < 0)) c.fail("a moved-from token still refers to something, or a valid one does not");
                std::string text = sfmt("result %lld", (long long) ops);
                bool panic = y % 2;
                std::string got = attempt([&] {
                    if (panic) toks[k].tok->panic_msg(text);
                    else toks[k].tok->return_value(tiro::make_string(v, text));
                });
                if (toks[k].id < 0) {
                    if (got.rfind("error ERROR_BAD_ARG", 0) != 0) c.fail("use of a moved-from token: " + got);
                    break;
                }
                if (got != "ok") c.fail("completing a token: " + got);
                while (v.has_ready()) v.run_ready();
                std::string want = (panic ? "panic " : "") + text;
                if (results[toks[k].id] != want) c.fail("the coroutine of a token got " + results[toks[k].id] + ", expected " + want);
                toks[k].tok.reset(), toks[k].id = -1;
                break;
            }
            case 9: toks[x % 4].tok.reset(), toks[x % 4].id = -1; break;
            case 10: { // native objects of types that look alike
                int type = (int) (x % 6);
                i64 value = (i64) (y % 200);
                if (type < 3) objects.push_back({tiny[type].make(v, Tiny((unsigned char) value)), type, value, false});
                else objects.push_back({wide[type - 3].make(v, Wide(value)), type, value, false});
                break;
            }
            case 11: { // types can be moved
                tiro::native_type<Tiny> a = std::move(tiny[i]);
                std::string r = attempt([&] { (void) tiny[i].name(); });
                if (tiny[i].valid() || r != "generic This native_type is no longer valid.") c.fail("a moved-from type: " + r);
                if (!objects.empty()) {
                    r = attempt([&] { (void) tiny[i].is_instance(objects[0].h); });
                    if (r != "generic This native_type is no longer valid.") c.fail("a moved-from type is used: " + r);
                }
                tiny[i] = std::move(a);
                break;
            }
            case 12:
                if (!objects.empty()) objects.erase(objects.begin() + (long) (x % objects.size()));
                break;
            case 13: { // garbage, so that unused objects are finalised
                for (u64 k = 0; k < x % 8; ++k) (void) tiro::make_buffer(v, 100000);
                break;
            }
            default: { // every object with every type
                for (auto& o : objects)
                    for (int type = 0; type < 6; ++type) {
                        bool is = type < 3 ? tiny[type].is_instance(o.h) : wide[type - 3].is_instance(o.h);
                        if (is != (type == o.type)) c.fail(sfmt("is_instance of type %d for an object of type %d", type, o.type));
                        const std::string wrong = "generic The object is not an instance of this type.", gone = "generic The object was already destroyed.";
                        i64 got = -1;
                        std::string r = attempt([&] { got = type < 3 ? tiny[type].access(o.h)->x : wide[type - 3].access(o.h)->x[5] - 5; });
                        if (r != (!is ? wrong : o.destroyed ? gone : "ok")) c.fail("access: " + r);
                        if (r == "ok" && got != o.value) c.fail("the contents of a native object");
                        bool destroyed = false;
                        r = attempt([&] { destroyed = type < 3 ? tiny[type].is_destroyed(o.h) : wide[type - 3].is_destroyed(o.h); });
                        if (r != (is ? "ok" : wrong) || (is && destroyed != o.destroyed)) c.fail("is_destroyed: " + r);
                        if (((x >> (type % 5)) & 1) == 0) continue;
                        r = attempt([&] { type < 3 ? tiny[type].destroy(o.h) : wide[type - 3].destroy(o.h); });
                        if (r != (is ? "ok" : wrong)) c.fail("destroy: " + r);
                        if (is) o.destroyed = true;
                    }
                for (int type = 0; type < 6; ++type)
                    if ((type < 3 ? tiny[type].name() : wide[type - 3].name()) != names[type]) c.fail("the name of a type");
                i64 alive_tiny = 0, alive_wide = 0;
                for (auto& o : objects) (o.type < 3 ? alive_tiny : alive_wide) += !o.destroyed;
                if (Tiny::live < alive_tiny || Wide::live < alive_wide) c.fail("objects in use were destroyed");
                counted += (i64) objects.size();
            }
            }
        }
        waiting.tokens.clear();
    }
    return ops;
}

void owners(Case& c) {
    Tape& t = c.t;
    std::vector<u64> plan;
    u64 n = 5 + t.size(50);
    for (u64 i = 0; i < n; ++i) {
        plan.push_back(t.below(16));
        plan.push_back(t.below(64));
        plan.push_back(t.below(1000));
    }
    std::string d;
    for (size_t i = 0; i < plan.size(); ++i) d += sfmt("%llu%s", (unsigned long long) plan[i], i % 3 == 2 ? "\n" : " ");
    c.describe(d);
    u64 ops = 0;
    i64 objects = 0;
    for (int round = 0; round < 2; ++round) {
        Tiny::live = Wide::live = 0;
        size_t before = __sanitizer_get_current_allocated_bytes();
        ops += owners_run(c, plan, objects);
        size_t after = __sanitizer_get_current_allocated_bytes();
        if (Tiny::live || Wide::live) c.fail(sfmt("native objects that were not destroyed, or twice: %lld %lld", (long long) Tiny::live, (long long) Wide::live));
        if (round == 1 && after > before) c.fail(sfmt("%lld bytes were not released", (long long) (after - before)));
    }
    c.count("operations on owning objects", ops);
    c.count("native objects checked against every type", (u64) objects);
    c.nontrivial = ops >= 20;
}

// ------------------------------------------------------------------------------------------------ settings

i64 frame_args = -1, frame_locals = -1;
std::string frame_seen;
void f_frame(tiro::vm& v, tiro::resumable_frame& f) {
    (void) v;
    if (f.state() == tiro::resumable_frame::end) return;
    if (f.state() == 7) {
        f.return_value(f.invoke_return());
        return;
    }
    frame_args = (i64) f.arg_count(), frame_locals = (i64) f.local_count();
    for (size_t i = 0; i < f.local_count(); ++i) {
        if (f.local(i).kind() != tiro::value_kind::null) frame_seen += "a local that is not null;";
        f.set_local(i, tiro::make_integer(v, (i64) i * 3));
    }
    for (size_t i = 0; i < f.local_count(); ++i)
        if (f.local(i).as<tiro::integer>().value() != (i64) i * 3) frame_seen += "a local;";
    std::string r = attempt([&] { (void) f.local(f.local_count()); });
    if (r.rfind("error ERROR_OUT_OF_BOUNDS", 0) != 0) frame_seen += "local out of range: " + r + ";";
    r = attempt([&] { (void) f.arg(f.arg_count()); });
    if (r.rfind("error ERROR_OUT_OF_BOUNDS", 0) != 0) frame_seen += "argument out of range: " + r + ";";
    auto args = tiro::make_tuple(v, f.arg_count());
    for (size_t i = 0; i < f.arg_count(); ++i) args.set(i, f.arg(i));
    auto target = f.closure().as<tiro::function>();
    if (f.arg_count()) f.invoke(7, target, args);
    else f.invoke(7, target);
}
std::string collected;
tiro::handle f_collect(tiro::vm& v, tiro::sync_frame& f) {
    collected = sfmt("%zu:", f.arg_count());
    for (size_t i = 0; i < f.arg_count(); ++i) collected += " " + f.arg(i).to_string().value();
    return tiro::make_string(v, collected);
}

void settings(Case& c) {
    Tape& t = c.t;
    std::string d;
    tiro::vm_settings st;
    switch (t.below(4)) {
    case 0: break;
    case 1: st.page_size = (size_t) 1 << t.range(15, 25); break;
    case 2: st.page_size = (size_t) t.pick({1, 65535, 65537, 1 << 20, 3 << 20}); break;
    default: st.page_size = (size_t) t.raw(); break;
    }
    switch (t.below(4)) {
    case 0: break;
    case 1: st.max_heap_size = SIZE_MAX; break;
    case 2: st.max_heap_size = (size_t) t.below(1 << 22); break;
    default: st.max_heap_size = (size_t) 1 << t.range(20, 40);
    }
    st.enable_panic_stack_traces = t.below(2);
    std::string out;
    bool print = t.chance(3, 4);
    if (print) st.print_stdout = [&](std::string_view m) { out += '[', out += m, out += ']'; };
    d = sfmt("page %zu heap %zu traces %d print %d\n", st.page_size, st.max_heap_size, st.enable_panic_stack_traces, print);
    // the same in C
    tiro_vm_settings_t raw;
    tiro_vm_settings_init(&raw);
    raw.page_size = st.page_size, raw.max_heap_size = st.max_heap_size, raw.enable_panic_stack_trace = st.enable_panic_stack_traces;
    Err e;
    tiro_vm_t b = tiro_vm_new(&raw, e);
    std::string want = described(e), got;
    std::optional<tiro::vm> v;
    got = attempt([&] { v.emplace(st); });
    d += got;
    c.describe(d);
    if (got != want) c.fail("construction: " + got + "\n  expected " + want);
    c.label("settings that are refused", !b);
    c.nontrivial = true;
    if (!b) return;
    if (v->page_size() != tiro_vm_page_size(b) || v->max_heap_size() != tiro_vm_max_heap_size(b)) c.fail("page size or heap size");
    if (st.page_size && v->page_size() != st.page_size) c.fail("the page size is not the one requested");
    if (st.max_heap_size && v->max_heap_size() != st.max_heap_size) c.fail("the heap size is not the one requested");
    tiro_vm_free(b);
    if (&tiro::vm::unsafe_from_raw_vm(v->raw_vm()) != &*v) c.fail("unsafe_from_raw_vm");
    if (v->max_heap_size() < (4u << 20)) return;
    v->load_std();
    // printing
    std::string text;
    u64 n = t.size(8);
    for (u64 i = 0; i < n; ++i) text += t.pick({"a", "\n", std::string(1, '\0').c_str(), "ü", " ", "%s"}), text += t.chance(1, 6) ? std::string(1, '\0') : "";
    tiro::compiler comp("script");
    comp.add_file("main", "import std; export func p(x) { std.print(x); } export func q(a, b) { std.print(a, b); }\nexport func inner(x) { return 1 + x; }\nexport func outer(x) {\n const r = inner(x); return r; }");
    comp.run();
    v->load(comp.take_module());
    std::string expect;
    auto call = [&](const char* name, std::vector<tiro::handle> args) {
        auto tup = tiro::make_tuple(*v, args.size());
        for (size_t i = 0; i < args.size(); ++i) tup.set(i, args[i]);
        std::string trace = "not called";
        tiro::run_async(*v, tiro::get_export(*v, "script", name).as<tiro::function>(), tup, [&](tiro::vm& m, const tiro::coroutine& co) {
            if (&m != &*v) c.fail("the vm given to a callback");
            if (co.result().is_success()) {
                trace = "success";
                return;
            }
            auto tr = co.result().error().as<tiro::exception>().trace();
            trace = tr.is<tiro::string>() ? "trace " + tr.as<tiro::string>().value() : to_string(tr.kind());
        });
        v->run_ready();
        return trace;
    };
    if (print) {
        if (call("p", {tiro::make_string(*v, text)}) != "success") c.fail("printing");
        expect += "[" + text + "\n]";
        if (call("q", {tiro::make_string(*v, text), tiro::make_string(*v, "")}) != "success") c.fail("printing");
        expect += "[" + text + " \n]";
        if (out != expect) c.fail("printed " + out + "\n  expected " + expect);
    }
    std::string trace = call("outer", {tiro::make_string(*v, "x")});
    if (!st.enable_panic_stack_traces) {
        if (trace != "NULL") c.fail("a stack trace that was not requested: " + trace);
    } else if (trace.rfind("trace ", 0) != 0 || trace.find("inner") == std::string::npos || trace.find("outer") == std::string::npos || trace.find("inner") > trace.find("outer"))
        c.fail("the stack trace: " + trace);
    // frames
    for (u64 round = 0; round < 1 + t.below(3); ++round) {
        size_t argc = (size_t) t.below(12), locals = (size_t) t.below(9);
        auto target = tiro::make_sync_function<&f_collect>(*v, tiro::make_string(*v, "collect"), argc, tiro::make_null(*v));
        auto f = tiro::make_resumable_function<&f_frame>(*v, tiro::make_string(*v, "frame"), argc, locals, target);
        auto args = tiro::make_tuple(*v, argc);
        std::string all = sfmt("%zu:", argc);
        for (size_t i = 0; i < argc; ++i) {
            i64 x = t.any_i64();
            args.set(i, tiro::make_integer(*v, x));
            all += sfmt(" %lld", (long long) x);
        }
        std::string result = "nothing";
        frame_args = frame_locals = -1, frame_seen.clear(), collected.clear();
        auto done = [&](tiro::vm&, const tiro::coroutine& co) {
            auto r = co.result();
            result = r.is_success() ? r.value().as<tiro::string>().value() : "panic " + r.error().as<tiro::exception>().message().value();
        };
        if (argc == 0 && t.below(2)) tiro::run_async(*v, f, done);
        else tiro::run_async(*v, f, args, done);
        while (v->has_ready()) v->run_ready();
        d += sfmt("\nframe with %zu arguments and %zu locals", argc, locals);
        c.describe(d);
        if (frame_args != (i64) argc || frame_locals != (i64) locals) c.fail(sfmt("the frame has %lld arguments and %lld locals", (long long) frame_args, (long long) frame_locals));
        if (!frame_seen.empty()) c.fail("in a resumable frame: " + frame_seen);
        if (result != all) c.fail("a resumable function that passes its arguments on returned " + result + "\n  expected " + all);
    }
    c.label("machines with stack traces", st.enable_panic_stack_traces);
}

// ------------------------------------------------------------------------------------------------ compiler

struct Stop {
    int n;
};

// standard output goes to a file in memory meanwhile
struct Captured {
    int old = -1, file = -1;
    explicit Captured(bool on) {
        if (!on) return;
        fflush(stdout);
        old = dup(1), file = memfd_create("out", 0);
        dup2(file, 1);
    }
    std::string finish() {
        if (old < 0) return "";
        fflush(stdout);
        dup2(old, 1), close(old), old = -1;
        std::string r;
        char buf[4096];
        lseek(file, 0, SEEK_SET);
        for (ssize_t n; (n = read(file, buf, sizeof buf)) > 0;) r.append(buf, (size_t) n);
        close(file), file = -1;
        return r;
    }
    ~Captured() { finish(); }
};

void compiler(Case& c) {
    Tape& t = c.t;
    static const char* files[] = {
        "export func main() { return 1; }",
        "export func main() { return x; } func b() { return y; } func c() { return z; }",
        "func ( ;",
        "import std; export func other(a) { return std.print(a); }",
        "export func warned() { return 1 + \"a\"; } export func again() { return -\"a\"; }",
        "",
        "export const a = 1; const a = 2; const b = q;",
    };
    std::string d;
    u64 n = t.below(4);
    std::vector<size_t> which;
    for (u64 i = 0; i < n; ++i) which.push_back(t.below(std::size(files)));
    u64 callback = t.below(4); // none, all, throws at k, throws something else at k
    u64 k = t.below(4);
    bool attach = t.below(2), before = t.below(2);
    d = sfmt("callback %llu k %llu attach %d", (unsigned long long) callback, (unsigned long long) k, attach);
    for (auto w : which) d += sfmt(" %zu", w);
    c.describe(d);
    // C
    std::vector<tu::Source> src;
    for (size_t i = 0; i < which.size(); ++i) src.push_back({sfmt("file%zu", i), files[which[i]]});
    auto ref = tu::compile("the.module", src, attach ? tu::want_bytecode | tu::want_cst : 0);
    std::string name;
    std::vector<tu::Diag> got;
    u64 seen = 0;
    bool thrown = false;
    std::string result;
    {
        std::optional<tiro::compiler> comp;
        comp.emplace("the.module");
        auto set = [&] {
            if (!callback) return;
            auto big = std::make_shared<std::string>(100, 'x');
            comp->set_message_callback([&, big](const tiro::compiler_message& m) {
                if (thrown) c.fail("called again after an exception");
                if (seen++ == k && callback == 2) thrown = true, throw std::runtime_error("stop " + *big);
                if (seen == k + 1 && callback == 3) thrown = true, throw Stop{(int) k};
                got.push_back({(int) m.severity, std::string(m.file), m.line, m.column, std::string(m.text)});
            });
        };
        if (before) set();
        for (auto& s : src) comp->add_file(s.name, s.text);
        if (t.below(2)) { // compilers can be moved
            tiro::compiler moved(std::move(*comp));
            comp.emplace(std::move(moved));
        }
        if (!before) set();
        bool cleared = callback && t.chance(1, 6); // an empty callback restores the default one, which prints
        if (cleared) comp->set_message_callback({});
        Captured captured(cleared);
        if (attach) comp->request_attachment(tiro::attachment::bytecode), comp->request_attachment(tiro::attachment::cst);
        try {
            result = attempt([&] { comp->run(); });
        } catch (std::runtime_error& e) {
            result = e.what();
        } catch (Stop& s) {
            result = sfmt("stop %d", s.n);
        }
        std::string want = ref.ok() ? "ok" : ref.code == TIRO_OK ? "ok" : "error";
        if (thrown) {
            want = callback == 2 ? "stop " + std::string(100, 'x') : sfmt("stop %d", (int) k);
            if (result != want) c.fail("an exception thrown by the message callback became: " + result);
        } else {
            if (result.substr(0, want.size()) != want) c.fail("run: " + result + "\n  expected " + want + " " + ref.details);
            if (cleared) {
                std::string printed = captured.finish();
                if (!got.empty()) c.fail("a callback that was removed is called");
                for (auto& m : ref.diags)
                    if (printed.find(m.text) == std::string::npos) c.fail("the default callback does not print " + m.text);
            } else if (callback) {
                if (got.size() != ref.diags.size()) c.fail("number of messages");
                for (size_t i = 0; i < got.size(); ++i)
                    if (got[i].severity != ref.diags[i].severity || got[i].file != ref.diags[i].file || got[i].line != ref.diags[i].line || got[i].column != ref.diags[i].column || got[i].text != ref.diags[i].text) c.fail("a message differs");
            }
            if (comp->has_module() != (ref.module != nullptr)) c.fail("has_module");
            if (ref.module && attach) {
                if (comp->get_attachment(tiro::attachment::bytecode) != ref.bytecode) c.fail("bytecode attachment");
                if (comp->get_attachment(tiro::attachment::cst) != ref.cst) c.fail("cst attachment");
            }
            std::string missing = attempt([&] { (void) comp->get_attachment(tiro::attachment::ir); });
            if (missing.rfind("error ERROR_BAD_STATE", 0) != 0) c.fail("an attachment that was not requested: " + missing);
            if (ref.module) {
                tiro::compiled_module m = comp->take_module();
                tiro::compiled_module m2 = std::move(m);
                comp.reset(); // a module outlives its compiler
                tiro::vm v;
                v.load_std();
                v.load(m2);
                std::string twice = attempt([&] { v.load(m2); });
                if (twice.rfind("error ERROR_MODULE_EXISTS", 0) != 0) c.fail("a module was loaded twice: " + twice);
            } else {
                std::string r = attempt([&] { (void) comp->take_module(); });
                if (r.rfind("error ERROR_BAD_STATE", 0) != 0) c.fail("take_module without a module: " + r);
            }
        }
    }
    c.label("compilations with errors", ref.code != TIRO_OK);
    c.label("message callbacks that throw", thrown);
    c.label("modules taken", ref.module && !thrown);
    c.nontrivial = n >= 1;
}

} // namespace

int main(int argc, char** argv) {
    std::vector<Suite> suites{
        {"values", 4000, 150000, values},
        {"functions", 2000, 60000, functions},
        {"ownership", 3000, 100000, ownership},
        {"machines", 4000, 150000, machines},
        {"owners", 2000, 60000, owners},
        {"settings", 2000, 60000, settings},
        {"compiler", 3000, 60000, compiler},
    };
    return pbt::Runner("C22", "values: at least fifteen operations; functions: at least three calls; ownership: two callbacks and two native objects; machines: at least ten operations; owners: at least twenty operations; settings: all; compiler: at least one file", suites).main(argc, argv);
}
