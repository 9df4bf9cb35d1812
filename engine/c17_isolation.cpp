// C17: virtual machines and compilers are isolated from each other.
//
//  interleave  several actors (each the owner of a virtual machine and of compilers) with a fixed history each: every history is
//              executed alone, then all of them interleaved, where other actors also run inside the callbacks of an actor
//              (native functions, coroutine callbacks, cleanup functions, finalizers, std.print, compiler messages).
//              Every actor must observe the same. Memory in use afterwards must be what it was before.
//  threads     the same histories, one operating system thread per actor
//  wrapper     every function of the C++ wrapper that takes handles, with handles of another machine (or moved-from handles)
#ifndef TIRO_HANDLE_CHECKS
#define TIRO_HANDLE_CHECKS
#endif
#include "tiro_util.hpp"
#include "tiropp/api.hpp"
#include <atomic>
#include <chrono>
#include <map>
#include <memory>
#include <sanitizer/allocator_interface.h>
#include <set>
#include <thread>

using pbt::Case;
using pbt::Suite;
using pbt::Tape;
using tu::Err;
using tu::H;
using tu::sfmt;
using tu::ts;
using u32 = uint32_t;
using u64 = uint64_t;
using i64 = int64_t;

namespace {

// ------------------------------------------------------------------------------------------------ scripts

struct Script {
    const char *module, *text;
};
const Script scripts[] = {
    {"state", R"(
import std;
import env;
var counter = 0;
const store = map{};
const seen = set{};
export func bump(n) { counter = counter + n; return counter; }
export func put(n) { store["k${n % 7}"] = [n, counter]; seen.insert(n % 5); return "${store.size()}/${seen.size()}: ${std.debug_repr(store)}"; }
export func symbols(n) { const s = if (n % 2 == 0) { #even; } else { #odd; }; return (s == #even, s == #odd, std.debug_repr(s), std.debug_repr(std.type_of(s).name)); }
export func rec(n) { const r = (alpha: n, beta: "b"); const q = (alpha: 2, beta: n); r.beta = q.alpha; return (r.alpha, r.beta, std.schema_of(r) == std.schema_of(q)); }
export func churn(n) { const a = []; for var i = 0; i < n; i += 1 { a.append("item ${i} of ${n}"); } counter += a.size(); return a.size(); }
export func fail(n) { if (n % 2 == 0) { std.panic("failed with ${n}"); } return [1, 2][n]; }
export func caught(n) { const r = std.catch_panic(func() { return fail(n); }); return if (r.is_error()) { r.error().message(); } else { r.value(); }; }
export func wait(n) { const x = env.suspend("wait ${n}"); counter += 1; return (n, x, counter); }
export func hook(n) { const before = counter; env.hook(); return (n, counter - before); }
export func prints(n) { for var i = 0; i < n % 4; i += 1 { std.print("line", i, n); } return counter; }
export func object(n) { const o = env.object(n); store["o${n % 3}"] = o; return store.size(); }
export func drop(n) { store.clear(); return counter; }
export func spawn(n) { const t = []; for i in [1, 2, 3] { std.launch(func() { t.append("a${i}"); std.yield_coroutine(); t.append("b${i}"); counter += i; std.print("spawned", i, t.size()); }); } return counter; }
export func deep(n) { defer env.emit("left ${n}"); return if (n % 40 == 0) { 0; } else { 1 + deep(n % 40 - 1); }; }
export func time(n) { env.clock(std.loop_timestamp()); return counter; }
export func text(n) { const b = std.new_string_builder(); for var i = 0; i < n % 20; i += 1 { b.append("<${i}>"); b.append_byte(65 + i); } return b.to_string(); }
)"},
    {"user", R"(
import std;
import state;
import tools.more as more;
const initial = state.bump(0);
var mine = 0;
export func bump(n) { mine += n; return (mine, state.bump(1), more.add(n)); }
export func put(n) { return state.put(n) ; }
export func wait(n) { const r = state.wait(n); mine += 10; return (r, mine); }
export func hook(n) { return (state.hook(n), initial); }
export func symbols(n) { return (#even == state.symbols(n)[0], state.symbols(n)); }
export func churn(n) { return more.churn(n) + state.churn(n); }
export func fail(n) { defer state.bump(100); return state.fail(n); }
)"},
    {"tools.more", R"(
import std;
import env;
var sum = 0;
const memo = [];
export func add(n) { sum += n; memo.append(n); return (sum, memo.size()); }
export func churn(n) { const m = map{}; for var i = 0; i < n; i += 1 { m[i] = (i, "v${i}"); } for var i = 0; i < n; i += 2 { m.remove(i); } return m.size(); }
)"},
    {"broken", R"(
import std;
import missing.thing as thing;
export func bump(n) { return n; }
)"},
    {"failing", R"(
import std;
const x = std.panic("in the initializer");
export func bump(n) { return n; }
)"},
};
const char* functions[] = {"bump", "put", "symbols", "rec", "churn", "fail", "caught", "wait", "hook", "prints", "object", "drop", "spawn", "deep", "text", "absent", "hook", "wait", "prints", "spawn", "time"};

const char* texts[] = {
    "export func main() { return 1; }",
    "import std; export func main() { std.print(\"from the compiler\"); return [1, 2, #abc]; }",
    "func main( { return 1; }",
    "export func main() { return undefined_name; }",
    "import std; var n = 3; export func main() { n += 1; return (n, \"${n}\", (a: n)); } export func other(x) { return x * n; }",
    "export const main = func(x) = { \"abc",
    "export func main() { var s = 0; for x in [1,2,3] { if (x == 2) { continue; } s += x; } return s; } func main() { }",
};

// compiled once per process and used by all machines
struct Pool {
    std::vector<tu::Compiled> modules;
    std::vector<std::string> code;
    Pool() {
        for (auto& s : scripts) {
            modules.push_back(tu::compile(s.module, s.text, tu::want_bytecode));
            if (!modules.back().ok()) throw pbt::Fail{std::string("script ") + s.module + ": " + modules.back().errors()};
        }
    }
};
Pool& pool() {
    static Pool p;
    return p;
}

// ------------------------------------------------------------------------------------------------ actors

struct Op {
    u32 kind;
    u64 a, b;
};
struct History {
    std::vector<Op> ops;
    u64 heap, page;
    bool traces, callbacks; // callbacks: finalizers and cleanup functions let other actors run
};

enum Kind : u32 {
    k_create, k_load, k_call, k_start, k_run, k_resume, k_slot, k_show, k_garbage, k_misuse, k_free_slots, k_destroy, k_compile, k_compiler_step,
    k_native, k_error, k_recreate, k_export, kinds
};

struct Actor;
// lets other actors run; empty when an actor runs alone
using Yield = std::function<void(Actor&)>;

struct Object { // data of a native object
    Actor* owner;
    u64 id;
};

struct Actor {
    const History& h;
    const Yield& yield;
    size_t next = 0;
    bool busy = false;
    std::vector<std::string> trace;
    u64 objects = 0, finalized = 0, cleanups = 0, callbacks = 0;
    std::unique_ptr<tu::Vm> vm;
    std::vector<H> slots;
    std::vector<tiro_async_token_t> tokens;
    std::vector<H> coroutines;
    std::vector<tu::Compiled> own;
    tiro_compiler_t compiler = nullptr;
    tiro_module_t taken = nullptr;
    tiro_error_t kept = nullptr;
    std::string expected_error;
    std::vector<std::string> messages;
    tiro_native_type_t type{};
    std::string type_name;
    static constexpr u64 magic = 0x6163746f72;
    u64 alive = magic;
    using Clock = std::chrono::steady_clock;
    Clock::time_point created_before, created_after, step_start; // the age of a machine is its own

    Actor(const History& h_, const Yield& y)
        : h(h_)
        , yield(y) {
        type_name = "object type";
        type.name = ts(type_name);
        type.alignment = 8;
        type.finalizer = [](void* data, size_t) {
            auto* o = (Object*) data;
            if (!o->owner) return;
            if (o->owner->alive != magic) abort();
            ++o->owner->finalized;
            if (o->owner->h.callbacks) o->owner->pause();
        };
    }
    ~Actor() {
        destroy();
        tiro_compiler_free(compiler);
        tiro_module_free(taken);
        tiro_error_free(kept);
        alive = 0;
    }
    void pause() {
        if (yield) yield(*this);
    }
    void say(std::string s) {
        // addresses are not part of the observable behaviour
        for (size_t p = 0; (p = s.find("@0x", p)) != std::string::npos; ++p) {
            size_t e = s.find_first_not_of("0123456789abcdef", p + 3);
            s.erase(p + 1, (e == std::string::npos ? s.size() : e) - p - 1);
        }
        trace.push_back(std::move(s));
    }
    bool done() const { return next >= h.ops.size(); }

    static Actor& of(tiro_vm_t v) { return *(Actor*) tu::Vm::of(v).user; }

    void create(u64 a) {
        static const u64 pages[] = {0, 1 << 16, 1 << 17, 1 << 18};
        static const u64 heaps[] = {0, 2u << 20, 4u << 20, 64u << 20};
        created_before = Clock::now();
        vm = std::make_unique<tu::Vm>(heaps[(h.heap + a) % 4], pages[h.page % 4], h.traces);
        created_after = Clock::now();
        vm->user = this;
        vm->on_print = [](tu::Vm& v, std::string_view m) {
            auto& self = *(Actor*) v.user;
            self.say("print " + std::string(m));
            self.pause();
        };
        H state = vm->integer(0);
        std::vector<std::pair<std::string, tiro_handle_t>> m;
        H emit = vm->sync_function("emit", [](tiro_vm_t v, tiro_sync_frame_t f) {
            H x(v);
            Err e;
            tiro_sync_frame_arg(f, 0, x, e);
            of(v).say("emit " + of(v).vm->show(x));
        }, 1);
        H hook = vm->sync_function("hook", [](tiro_vm_t v, tiro_sync_frame_t f) {
            auto& self = of(v);
            // the frame and local handles are in use while the others run
            H x = self.vm->string("kept");
            self.pause();
            self.say("hook " + self.vm->show(x) + sfmt(" %zu", tiro_sync_frame_arg_count(f)));
            Err e;
            tiro_sync_frame_return_value(f, x, e);
        }, 0);
        H clock = vm->sync_function("clock", [](tiro_vm_t v, tiro_sync_frame_t f) {
            auto& self = of(v);
            H x(v);
            Err e;
            tiro_sync_frame_arg(f, 0, x, e);
            auto ms = [](auto d) { return (i64) std::chrono::duration_cast<std::chrono::milliseconds>(d).count(); };
            i64 t = tiro_integer_value(v, x), lo = ms(self.step_start - self.created_after) - 2, hi = ms(Clock::now() - self.created_before) + 2;
            self.say(t < lo || t > hi ? sfmt("FAIL the loop timestamp is %lld, the machine is between %lld and %lld ms old", (long long) t, (long long) lo, (long long) hi) : "the clock is right");
        }, 1);
        H object = vm->sync_function("object", [](tiro_vm_t v, tiro_sync_frame_t f) {
            H x(v);
            Err e;
            of(v).make_object(x, e);
            if (e.ok()) tiro_sync_frame_return_value(f, x, e);
        }, 1);
        H name = vm->string("suspend"), suspend(*vm);
        MUST(tiro_make_async_function(*vm, name, [](tiro_vm_t v, tiro_async_frame_t f) {
            auto& self = of(v);
            Err e;
            H x(v);
            tiro_async_frame_arg(f, 0, x, e);
            tiro_async_token_t t = tiro_async_frame_token(f, e);
            self.pause();
            self.say("suspended " + self.vm->show(x));
            if (t) self.tokens.push_back(t);
            tiro_async_frame_yield(f, e);
        }, 1, nullptr, suspend, must));
        vm->load_native("env", {{"emit", emit}, {"hook", hook}, {"clock", clock}, {"object", object}, {"suspend", suspend}});
        say(sfmt("created page=%zu heap=%zu userdata=%d ready=%d", tiro_vm_page_size(*vm), tiro_vm_max_heap_size(*vm), tiro_vm_userdata(*vm) == vm.get(), tiro_vm_has_ready(*vm)));
    }
    void destroy() {
        if (!vm) return;
        for (auto t : tokens) tiro_async_token_free(t);
        tokens.clear();
        // handles that are still alive belong to the machine, which is destroyed with them
        bool leave = h.heap & 1;
        for (auto& s : slots)
            if (leave) s.release();
        for (auto& s : coroutines)
            if (leave) s.release();
        slots.clear();
        coroutines.clear();
        bool ready = tiro_vm_has_ready(*vm);
        vm->close();
        say(sfmt("destroyed ready=%d out=%zu", ready, vm->out.size()));
        if (finalized != objects) say(sfmt("%llu of %llu objects were finalized", (unsigned long long) finalized, (unsigned long long) objects));
        vm.reset();
    }
    void make_object(H& x, Err& e) {
        tiro_make_native(*vm, &type, sizeof(Object), x, e);
        if (!e.ok()) return;
        ++objects;
        auto* o = (Object*) tiro_native_data(*vm, x);
        o->owner = this;
        o->id = objects;
    }
    std::string err(Err& e) { return e.ok() ? "ok" : std::string(tiro_error_name(e.e)) + "/" + tiro_error_message(e.e) + "/" + tiro_error_details(e.e); }
    std::string show(tiro_handle_t x) {
        if (tiro_value_kind(*vm, x) == TIRO_KIND_NATIVE) {
            auto* o = (Object*) tiro_native_data(*vm, x);
            return sfmt("object %llu %d %zu", (unsigned long long) o->id, o->owner == this && tiro_native_type_descriptor(*vm, x) == &type, tiro_native_size(*vm, x));
        }
        return vm->show_limited(x);
    }
    H& slot(u64 i) {
        while (slots.size() < 6) slots.push_back(H(*vm));
        return slots[i % 6];
    }
    bool function(u64 a, u64 b, H& fn, Err& e) {
        auto& s = scripts[a % 8 < 5 ? 0 : a % 8 < 7 ? 1 : 2 + a / 8 % 3];
        tiro_vm_get_export(*vm, ts(s.module), ts(functions[b % std::size(functions)]), fn, e);
        return e.ok();
    }
    H start(H& fn, u64 n, bool callback, Err& e) {
        H args = vm->tuple({vm->integer((i64)(n % 101))}), co(*vm);
        tiro_make_coroutine(*vm, fn, args, co, e);
        if (e.ok() && callback) {
            tiro_coroutine_set_callback(
                *vm, co,
                [](tiro_vm_t v, tiro_handle_t c, void* u) {
                    auto& self = *(Actor*) u;
                    if (&of(v) != &self || self.alive != magic) abort();
                    ++self.callbacks;
                    self.pause();
                    self.say("callback " + self.outcome(c));
                },
                [](void* u) {
                    auto& self = *(Actor*) u;
                    if (self.alive != magic) abort();
                    ++self.cleanups;
                    if (self.h.callbacks) self.pause();
                },
                this, e);
        }
        if (e.ok()) tiro_coroutine_start(*vm, co, e);
        return co;
    }
    std::string outcome(tiro_handle_t co) {
        auto r = vm->result_of(co);
        switch (r.kind) {
        case tu::CallResult::success: return "value " + show(r.value);
        case tu::CallResult::panic: {
            H t(*vm);
            Err e;
            if (tiro_value_kind(*vm, r.value) == TIRO_KIND_EXCEPTION) tiro_exception_trace(*vm, r.value, t, e);
            return "panic " + r.message + " trace " + show(t);
        }
        default: return "pending";
        }
    }
    void step() {
        busy = true;
        step_start = Clock::now();
        const Op op = h.ops[next++];
        std::string at = sfmt("%zu:%u ", next, op.kind);
        try {
            say(at + execute(op));
        } catch (pbt::Fail& f) {
            say(at + "FAIL " + f.msg);
        }
        busy = false;
    }
    std::string execute(const Op& op) {
        u64 a = op.a, b = op.b;
        if (!vm && op.kind != k_create && op.kind != k_recreate && op.kind != k_compile && op.kind != k_compiler_step && op.kind != k_error) create(a);
        switch (op.kind) {
        case k_create:
            if (!vm) create(a);
            return "";
        case k_recreate:
            destroy();
            create(a);
            return "recreated";
        case k_load: {
            Err e;
            auto& m = a % 5 == 4 && !own.empty() ? own[b % own.size()] : pool().modules[b % 4 < 3 ? b % 3 : b / 4 % 5];
            tiro_vm_load_bytecode(*vm, m.module, e);
            return "load " + err(e);
        }
        case k_call: {
            Err e;
            H fn(*vm);
            if (!function(a, b, fn, e)) return "get " + err(e);
            H co = start(fn, a >> 8, false, e);
            vm->run(e);
            return "call " + err(e) + " " + outcome(co);
        }
        case k_start: {
            Err e;
            H fn(*vm);
            if (!function(a, b, fn, e)) return "get " + err(e);
            coroutines.push_back(start(fn, a >> 8, b & 64, e));
            return "start " + err(e);
        }
        case k_run: {
            Err e;
            bool before = tiro_vm_has_ready(*vm);
            tiro_vm_run_ready(*vm, e);
            std::string r = sfmt("run %d ", before) + err(e) + sfmt(" %d", tiro_vm_has_ready(*vm));
            for (auto& c : coroutines) r += "; " + outcome(c);
            return r;
        }
        case k_resume: {
            if (tokens.empty()) return "";
            u64 i = a % tokens.size();
            Err e;
            H v = vm->string(sfmt("resumed %llu", (unsigned long long) (b % 10)));
            if (b & 16) tiro_async_token_panic_msg(tokens[i], ts("a panic from outside"), e);
            else tiro_async_token_return_value(tokens[i], v, e);
            if (!(b & 32)) {
                tiro_async_token_free(tokens[i]);
                tokens.erase(tokens.begin() + (long) i);
            }
            return "resume " + err(e);
        }
        case k_slot: {
            H& s = slot(a);
            H& o = slot(b);
            Err e;
            switch (b / 8 % 9) {
            case 0: tiro_make_integer(*vm, (i64) b, s, e); break;
            case 1: tiro_make_string(*vm, ts(sfmt("string %llu", (unsigned long long) (b % 1000))), s, e); break;
            case 2: tiro_make_array(*vm, b / 64 % 100, s, e); break;
            case 3: tiro_array_push(*vm, s, o, e); break;
            case 4: tiro_make_tuple(*vm, 1 + b / 64 % 5, s, e); break;
            case 5: tiro_tuple_set(*vm, s, 0, o, e); break;
            case 6: make_object(s, e); break;
            case 7: tiro_make_buffer(*vm, b / 64 % 20000, s, e); break;
            default: tiro_make_success(*vm, o, s, e); break;
            }
            return "slot " + err(e);
        }
        case k_show: {
            std::string r = "show";
            for (auto& s : slots) r += " " + show(s);
            H t(*vm);
            Err e;
            tiro_value_to_string(*vm, slot(a), t, e);
            return r + " " + (tiro_value_kind(*vm, t) == TIRO_KIND_STRING ? vm->text(t).substr(0, 200) : err(e));
        }
        case k_garbage: {
            Err e;
            H x(*vm), keep = vm->null();
            u64 n = a % 90, size = (b % 4) * 20000 + 100;
            tiro_make_array(*vm, 0, keep, e);
            for (u64 i = 0; i < n && e.ok(); ++i) {
                tiro_make_buffer(*vm, size, x, e);
                if (e.ok() && b & 16) tiro_array_push(*vm, keep, x, e); // may exhaust the heap
            }
            return "garbage " + err(e);
        }
        case k_misuse: {
            Err e;
            H& s = slot(a);
            H x(*vm);
            switch (b % 8) {
            case 0: tiro_vm_get_export(*vm, ts("nowhere"), ts("x"), x, e); break;
            case 1: tiro_tuple_get(*vm, s, 100, x, e); break;
            case 2: tiro_make_coroutine(*vm, s, nullptr, x, e); break;
            case 3: tiro_array_pop(*vm, s, e); break;
            case 4: tiro_make_string(*vm, ts("x"), nullptr, e); break;
            case 5: tiro_vm_load_module(*vm, s, e); break;
            case 6: tiro_result_value(*vm, s, x, e); break;
            default: tiro_make_record_schema(*vm, s, x, e); break;
            }
            return "misuse " + err(e);
        }
        case k_free_slots:
            slots.clear();
            if (a & 1) coroutines.clear();
            return "freed";
        case k_destroy:
            if (a & 1) return "";
            destroy();
            return "gone";
        case k_compile: {
            auto c = tu::compile(sfmt("own%llu", (unsigned long long) (b % 3)), texts[a % std::size(texts)], tu::want_bytecode | tu::want_ast);
            std::string r = sfmt("compile %d ", (int) c.code) + c.errors() + c.bytecode + c.ast;
            if (c.ok()) own.push_back(std::move(c));
            return r;
        }
        case k_compiler_step: return compiler_step(a, b);
        case k_native: {
            Err e;
            make_object(slot(a), e);
            return "native " + err(e) + " " + show(slot(a));
        }
        case k_error: { // an error outlives everything else
            std::string r = kept ? std::string(tiro_error_name(kept)) + tiro_error_message(kept) + tiro_error_details(kept) : "none";
            if (r != expected_error && kept) r = "CHANGED from " + expected_error + " to " + r;
            tiro_error_free(kept);
            kept = nullptr;
            if (vm) {
                H x(*vm);
                tiro_vm_get_export(*vm, ts("nowhere"), ts(sfmt("name %llu", (unsigned long long) b)), x, &kept);
            } else
                (void) tiro_compiler_new({nullptr, 3}, &kept);
            expected_error = kept ? std::string(tiro_error_name(kept)) + tiro_error_message(kept) + tiro_error_details(kept) : "none";
            return "error " + r;
        }
        default: {
            Err e;
            H fn(*vm);
            bool ok = function(a, b, fn, e);
            if (!ok) return "export " + err(e);
            slot(a >> 4) = std::move(fn);
            return "export ok";
        }
        }
    }
    std::string compiler_step(u64 a, u64 b) {
        Err e;
        if (!compiler) {
            compiler = tiro_compiler_new(ts(sfmt("module%llu", (unsigned long long) (b % 5))), e);
            messages.clear();
            if (a & 1 && compiler) {
                tiro_compiler_set_message_callback(
                    compiler,
                    [](const tiro_compiler_message_t* m, void* u) {
                        auto& self = *(Actor*) u;
                        self.messages.push_back(sfmt("%d %s:%u:%u ", m->severity, tu::str(m->file).c_str(), m->line, m->column));
                        self.pause();
                        self.messages.back() += tu::str(m->text);
                        return true;
                    },
                    this, e);
            }
            if (b & 32) tiro_compiler_request_attachment(compiler, TIRO_ATTACHMENT_IR, e);
            return "new compiler " + err(e);
        }
        switch (a % 6) {
        case 0:
        case 1: tiro_compiler_add_file(compiler, ts(sfmt("file%llu", (unsigned long long) (b % 5))), ts(texts[b / 8 % std::size(texts)]), e); return "add " + err(e);
        case 2: {
            tiro_compiler_run(compiler, e);
            std::string r = "compiler run " + err(e);
            for (auto& m : messages) r += "\n" + m;
            return r;
        }
        case 3:
            tiro_module_free(taken);
            taken = nullptr;
            tiro_compiler_take_module(compiler, &taken, e);
            return sfmt("take %d ", taken != nullptr) + err(e);
        case 4: {
            char* s = nullptr;
            tiro_compiler_get_attachment(compiler, TIRO_ATTACHMENT_IR, &s, e);
            std::string r = "attachment " + err(e) + (s ? s : "");
            free(s);
            return r;
        }
        default:
            tiro_compiler_free(compiler);
            compiler = nullptr;
            return "compiler freed";
        }
    }
};

// ------------------------------------------------------------------------------------------------ scheduling

std::vector<History> histories(Case& c, size_t max_actors, bool callbacks) {
    Tape& t = c.t;
    std::vector<History> r(2 + t.below(max_actors - 1));
    static const std::vector<u32> weights{1, 6, 14, 10, 8, 6, 8, 3, 4, 4, 2, 3, 4, 8, 4, 3, 1, 3};
    std::string d;
    size_t n = 10 + t.size(40);
    for (size_t i = 0; i < r.size(); ++i) {
        auto& h = r[i];
        h.heap = t.below(4);
        h.page = t.below(4);
        h.traces = t.chance(1, 3);
        h.callbacks = callbacks && t.chance(1, 2);
        h.ops.push_back({k_create, t.below(4), 0});
        for (u64 k = 0; k < 3; ++k)
            if (t.chance(5, 6)) h.ops.push_back({k_load, 0, k});
        size_t m = 1 + t.below(n);
        for (size_t k = 0; k < m; ++k) h.ops.push_back({(u32) t.weighted(weights), t.below(1 << 16), t.below(1 << 12)});
        d += sfmt("actor %zu: heap %llu page %llu traces %d callbacks %d\n ", i, (unsigned long long) h.heap, (unsigned long long) h.page, h.traces, h.callbacks);
        for (auto& o : h.ops) d += sfmt(" %u(%llu,%llu)", o.kind, (unsigned long long) o.a, (unsigned long long) o.b);
        d += "\n";
    }
    c.describe(d);
    return r;
}

struct Seen {
    std::vector<std::string> trace;
    u64 objects = 0, finalized = 0, cleanups = 0, callbacks = 0;
};
Seen finish(std::unique_ptr<Actor>& a) {
    a->destroy();
    a->say("end");
    Seen s{std::move(a->trace), a->objects, a->finalized, a->cleanups, a->callbacks};
    a.reset();
    return s;
}
Seen alone(const History& h) {
    Yield none;
    auto a = std::make_unique<Actor>(h, none);
    while (!a->done()) a->step();
    return finish(a);
}
std::string differ(const Seen& want, const Seen& got) {
    size_t n = std::min(want.trace.size(), got.trace.size());
    for (size_t i = 0; i < n; ++i)
        if (want.trace[i] != got.trace[i]) return "alone: " + want.trace[i].substr(0, 1500) + "\n  together: " + got.trace[i].substr(0, 1500);
    if (want.trace.size() != got.trace.size()) return "alone: " + (want.trace.size() > n ? want.trace[n] : "end") + "\n  together: " + (got.trace.size() > n ? got.trace[n] : "end");
    if (want.objects != got.objects || want.finalized != got.finalized || want.cleanups != got.cleanups || want.callbacks != got.callbacks) return "finalizers, cleanup functions or callbacks";
    return "";
}
void judge_alone(Case& c, const Seen& s, size_t i) {
    for (auto& l : s.trace)
        if (l.find("FAIL") != std::string::npos || l.find("CHANGED") != std::string::npos) c.fail(sfmt("actor %zu: ", i) + l);
    if (s.finalized != s.objects) c.fail(sfmt("actor %zu: %llu of %llu objects were finalized", i, (unsigned long long) s.finalized, (unsigned long long) s.objects));
}
void observe(Case& c, const Seen& s) {
    static const char* what[] = {"call ok value", "call ok panic", "resume ok", "callback value", "ERROR_ALLOC", "destroyed ready=1", "hook ", "print ", "compile 0", "take 1", "suspended", "pending"};
    for (auto& l : s.trace)
        for (auto w : what)
            if (l.find(w) != std::string::npos) ++c.labels[std::string("observed: ") + w];
    c.count("observations", s.trace.size());
    c.count("objects finalized", s.finalized);
    c.count("callbacks", s.callbacks);
    c.count("cleanup functions", s.cleanups);
}

std::vector<Seen> together(const std::vector<History>& hs, u64 seed, u64 burst, u64& nested, u64& deepest) {
    std::vector<std::unique_ptr<Actor>> actors;
    std::vector<Seen> seen(hs.size());
    u64 s = seed * 2 + 1;
    auto rnd = [&](u64 n) {
        s ^= s << 13, s ^= s >> 7, s ^= s << 17;
        return (s >> 11) % n;
    };
    u64 depth = 0;
    auto candidates = [&] {
        std::vector<size_t> r;
        for (size_t i = 0; i < actors.size(); ++i)
            if (actors[i] && !actors[i]->busy) r.push_back(i);
        return r;
    };
    auto some_step = [&] {
        auto c = candidates();
        if (c.empty()) return false;
        size_t i = c[rnd(c.size())];
        if (actors[i]->done()) {
            actors[i]->busy = true; // its destruction may let others run
            auto a = std::move(actors[i]);
            seen[i] = finish(a);
        } else
            actors[i]->step();
        return true;
    };
    Yield yield = [&](Actor&) {
        if (depth >= 3) return;
        ++depth;
        deepest = std::max(deepest, depth);
        for (u64 n = rnd(burst + 1); n > 0; --n) nested += some_step();
        --depth;
    };
    for (auto& h : hs) actors.push_back(std::make_unique<Actor>(h, yield));
    for (;;) {
        bool more = false;
        for (auto& a : actors) more |= a != nullptr;
        if (!more) break;
        some_step();
    }
    return seen;
}

void interleave(Case& c) {
    auto hs = histories(c, 4, true);
    (void) pool();
    std::vector<Seen> want, got;
    u64 seed = c.t.raw(), burst = 1 + c.t.below(6), nested = 0, deepest = 0;
    for (auto& h : hs) want.push_back(alone(h));
    for (size_t i = 0; i < want.size(); ++i) judge_alone(c, want[i], i);
    got = together(hs, seed, burst, nested, deepest);
    for (size_t i = 0; i < hs.size(); ++i) {
        std::string d = differ(want[i], got[i]);
        if (!d.empty()) c.fail(sfmt("actor %zu observes something else when it is not alone\n  ", i) + d);
        observe(c, got[i]);
    }
    // the second time nothing may remain allocated
    size_t steps = 0;
    for (auto& h : hs) steps += h.ops.size();
    {
        u64 n2 = 0, d2 = 0;
        size_t before = __sanitizer_get_current_allocated_bytes();
        { auto again = together(hs, seed, burst, n2, d2); }
        size_t after = __sanitizer_get_current_allocated_bytes();
        if (after != before) c.fail(sfmt("%lld bytes are still allocated after all instances were destroyed", (long long) after - (long long) before));
    }
    c.count("operations", steps);
    c.count("operations inside callbacks of others", nested);
    c.label("cases with nested callbacks of several actors", deepest > 1);
    c.nontrivial = steps >= 12 && nested >= 1;
}

void threads(Case& c) {
    auto hs = histories(c, 6, false);
    (void) pool();
    std::vector<Seen> want, got(hs.size());
    for (auto& h : hs) want.push_back(alone(h));
    std::atomic<size_t> ready{0};
    std::vector<std::thread> ths;
    for (size_t i = 0; i < hs.size(); ++i)
        ths.emplace_back([&, i] {
            ++ready;
            while (ready < hs.size()) {}
            got[i] = alone(hs[i]);
        });
    for (auto& t : ths) t.join();
    size_t steps = 0;
    for (size_t i = 0; i < hs.size(); ++i) {
        std::string d = differ(want[i], got[i]);
        if (!d.empty()) c.fail(sfmt("actor %zu observes something else when other threads run other actors\n  ", i) + d);
        steps += hs[i].ops.size();
    }
    c.count("operations in parallel", steps);
    c.nontrivial = steps >= 12;
}

// ------------------------------------------------------------------------------------------------ the C++ wrapper

struct Counted {
    int* n;
    explicit Counted(int* n_)
        : n(n_) {}
    Counted(Counted&& o) noexcept
        : n(std::exchange(o.n, nullptr)) {}
    ~Counted() {
        if (n) ++*n;
    }
};

struct World {
    std::string out;
    int dead = 0;
    tiro::native_type<Counted> type{"counted"}; // must outlive the machine
    tiro::vm v;
    tiro::handle nothing, text, number, tup, arr, fn, schema, rec, res, failed, co, mod, nat;
    static tiro::vm_settings settings(std::string* out) {
        tiro::vm_settings s;
        s.print_stdout = [out](std::string_view m) { *out += m; };
        s.max_heap_size = 8 << 20;
        return s;
    }
    static tiro::handle sync(tiro::vm& v, tiro::sync_frame& f) { return f.arg_count() ? f.arg(0) : tiro::make_null(v); }
    World(u64 x)
        : v(settings(&out))
        , nothing(tiro::make_null(v))
        , text(tiro::make_string(v, "text" + std::to_string(x)))
        , number(tiro::make_integer(v, (i64) x))
        , tup(tiro::make_tuple(v, 3))
        , arr(tiro::make_array(v))
        , fn(tiro::make_sync_function<&World::sync>(v, tiro::make_string(v, "sync"), 1, nothing))
        , schema(nothing)
        , rec(nothing)
        , res(tiro::make_success(v, number))
        , failed(tiro::make_error(v, text))
        , co(tiro::make_coroutine(v, fn.as<tiro::function>()))
        , mod(tiro::make_module(v, "made", {{"x", number}}))
        , nat(type.make(v, Counted(&dead))) {
        v.load_std();
        auto keys = arr.as<tiro::array>();
        keys.push(tiro::make_string(v, "key"));
        schema = tiro::make_record_schema(v, keys);
        rec = tiro::make_record(v, schema.as<tiro::record_schema>());
    }
    std::string show() {
        std::string r;
        for (auto* h : {&nothing, &text, &number, &tup, &arr, &fn, &schema, &rec, &res, &failed, &co, &mod, &nat})
            r += h->valid() ? std::string(h->to_string().view()) + ";" : "invalid;";
        for (size_t i = 0; i < 3; ++i) r += std::string(tup.as<tiro::tuple>().get(i).to_string().view()) + ",";
        auto a = arr.as<tiro::array>();
        for (size_t i = 0; i < a.size(); ++i) r += std::string(a.get(i).to_string().view()) + ",";
        r += std::string(rec.as<tiro::record>().get(tiro::make_string(v, "key")).to_string().view());
        r += co.as<tiro::coroutine>().started() ? " started" : " new";
        return r;
    }
};

// Calls `f` with the handles of `w`, some of which are replaced by `other` ones; the call has to be rejected.
struct Mixed {
    const char* name;
    size_t handles; // number of handles that can be replaced (excluding the machine)
    std::function<void(World& w, World& o, u32 mask)> call; // bit i: the i-th handle belongs to o
};

template<typename T>
T choose(World& w, World& o, bool other, tiro::handle World::*m) {
    return ((other ? o : w).*m).template as<T>();
}
#define P(i, type, member) choose<tiro::type>(w, o, mask >> i & 1, &World::member)

const std::vector<Mixed>& mixed() {
    static const std::vector<Mixed> list{
        {"same", 2, [](World& w, World& o, u32 mask) { (void) tiro::same(w.v, P(0, handle, text), P(1, handle, number)); }},
        {"make_copy", 0, nullptr},
        {"tuple::set", 2, [](World& w, World& o, u32 mask) { P(0, tuple, tup).set(0, P(1, handle, number)); }},
        {"record::get", 2, [](World& w, World& o, u32 mask) { (void) P(0, record, rec).get((mask >> 1 & 1) ? tiro::make_string(o.v, "key") : tiro::make_string(w.v, "key")); }},
        {"record::set key", 2, [](World& w, World& o, u32 mask) {
             P(0, record, rec).set((mask >> 1 & 1) ? tiro::make_string(o.v, "key") : tiro::make_string(w.v, "key"), (mask & 1) ? o.number : w.number);
         }},
        {"record::set value", 2, [](World& w, World& o, u32 mask) {
             P(0, record, rec).set((mask & 1) ? tiro::make_string(o.v, "key") : tiro::make_string(w.v, "key"), P(1, handle, number));
         }},
        {"array::set", 2, [](World& w, World& o, u32 mask) { P(0, array, arr).set(0, P(1, handle, number)); }},
        {"array::push", 2, [](World& w, World& o, u32 mask) { P(0, array, arr).push(P(1, handle, number)); }},
        {"make_success", 1, [](World& w, World& o, u32 mask) { (void) tiro::make_success(w.v, P(0, handle, number)); }},
        {"make_error", 1, [](World& w, World& o, u32 mask) { (void) tiro::make_error(w.v, P(0, handle, number)); }},
        {"make_coroutine", 2, [](World& w, World& o, u32 mask) { (void) tiro::make_coroutine(w.v, P(0, function, fn), P(1, tuple, tup)); }},
        {"make_coroutine without arguments", 1, [](World& w, World& o, u32 mask) { (void) tiro::make_coroutine(w.v, P(0, function, fn)); }},
        {"run_async", 2, [](World& w, World& o, u32 mask) { tiro::run_async(w.v, P(0, function, fn), P(1, tuple, tup), [](tiro::vm&, const tiro::coroutine&) {}); }},
        {"make_record_schema", 1, [](World& w, World& o, u32 mask) { (void) tiro::make_record_schema(w.v, P(0, array, arr)); }},
        {"make_record", 1, [](World& w, World& o, u32 mask) { (void) tiro::make_record(w.v, P(0, record_schema, schema)); }},
        {"load_module", 1, [](World& w, World& o, u32 mask) { tiro::load_module(w.v, P(0, module, mod)); }},
        {"make_module", 2, [](World& w, World& o, u32 mask) { (void) tiro::make_module(w.v, "mixed", {{"a", P(0, handle, number)}, {"b", P(1, handle, text)}}); }},
        {"make_sync_function", 2, [](World& w, World& o, u32 mask) { (void) tiro::make_sync_function<&World::sync>(w.v, P(0, string, text), 1, P(1, handle, number)); }},
        {"make_async_function", 2, [](World& w, World& o, u32 mask) {
             struct F {
                 static void f(tiro::vm&, tiro::async_frame&) {}
             };
             (void) tiro::make_async_function<&F::f>(w.v, P(0, string, text), 1, P(1, handle, number));
         }},
        {"make_resumable_function", 2, [](World& w, World& o, u32 mask) {
             struct F {
                 static void f(tiro::vm&, tiro::resumable_frame&) {}
             };
             (void) tiro::make_resumable_function<&F::f>(w.v, P(0, string, text), 1, 1, P(1, handle, number));
         }},
    };
    return list;
}

World* current_other = nullptr;
std::unique_ptr<tiro::async_token> waiting;
std::string inside; // what happened inside of native functions

template<typename F>
void rejected_inside(const char* what, F&& f) {
    try {
        f();
        inside += std::string(what) + " was accepted; ";
    } catch (tiro::bad_handle_check&) {
    } catch (std::exception& e) {
        inside += std::string(what) + ": " + e.what() + "; ";
    }
}

void wrapper(Case& c) {
    Tape& t = c.t;
    std::string d;
    size_t rejected = 0, accepted = 0;
    {
        World a(t.below(100)), b(100 + t.below(100));
        World* ws[] = {&a, &b};
        u64 rounds = 1 + t.size(20);
        for (u64 r = 0; r < rounds; ++r) {
            bool swap = t.below(2);
            World &w = *ws[swap], &o = *ws[!swap];
            std::string before_w = w.show(), before_o = o.show();
            size_t which = t.below(mixed().size() + 3);
            if (which < mixed().size()) {
                auto& m = mixed()[which];
                if (!m.handles) continue;
                bool first_is_receiver = std::string_view(m.name).find("::") != std::string_view::npos;
                u32 all = (1u << m.handles) - 1;
                u32 mask = 1 + (u32) t.below(all); // at least one foreign handle
                d += std::string(m.name) + sfmt(" mask %u", mask);
                bool consistent = first_is_receiver && mask == all; // then all of them belong to the other machine
                c.describe(d);
                try {
                    m.call(w, o, mask);
                    if (!consistent) c.fail("handles of different machines were accepted");
                    ++accepted;
                    d += " accepted\n";
                    continue;
                } catch (tiro::bad_handle_check& e) {
                    if (consistent) c.fail(std::string("handles of one machine were rejected: ") + e.what());
                }
                d += " rejected\n";
                ++rejected;
            } else if (which == mixed().size()) { // moved-from handles
                tiro::handle x = w.number, y = std::move(x);
                auto arr = w.arr.as<tiro::array>();
                bool ok = false;
                try {
                    arr.push(x);
                } catch (tiro::bad_handle_check&) { ok = true; }
                if (!ok) c.fail("a moved-from handle was accepted");
                try {
                    (void) x.kind();
                    c.fail("a moved-from handle was accepted");
                } catch (tiro::bad_handle_check&) {}
                if (x.valid() || !y.valid()) c.fail("moving a handle");
                x = y; // may be assigned to
                if (x.kind() != tiro::value_kind::integer) c.fail("assignment to a moved-from handle");
                d += "moved-from handle rejected\n";
                ++rejected;
            } else if (which == mixed().size() + 1) { // handles may be assigned across machines: they change sides
                tiro::handle x = w.number;
                x = o.text;
                if (x.raw_vm() != o.v.raw_vm() || x.to_string().view() != o.text.as<tiro::string>().view()) c.fail("assignment of a handle of another machine");
                d += "assignment\n";
                ++accepted;
            } else { // frames and tokens
                struct F {
                    static tiro::handle sync(tiro::vm& v, tiro::sync_frame&) {
                        (void) v;
                        return current_other->text; // rejected by the wrapper: panics
                    }
                    static void async(tiro::vm& v, tiro::async_frame& f) {
                        rejected_inside("async_frame::return_value", [&] { f.return_value(current_other->text); });
                        waiting = std::make_unique<tiro::async_token>(f.token());
                        f.yield();
                        (void) v;
                    }
                    static void resumable(tiro::vm& v, tiro::resumable_frame& f) {
                        if (f.state() == tiro::resumable_frame::end) return;
                        rejected_inside("resumable_frame::set_local", [&] { f.set_local(0, current_other->text); });
                        rejected_inside("resumable_frame::return_value", [&] { f.return_value(current_other->text); });
                        rejected_inside("resumable_frame::invoke", [&] { f.invoke(1, current_other->fn.as<tiro::function>()); });
                        rejected_inside("resumable_frame::invoke", [&] { f.invoke(1, current_other->fn.as<tiro::function>(), current_other->tup.as<tiro::tuple>()); });
                        f.return_value(tiro::make_integer(v, 7));
                    }
                };
                current_other = &o;
                inside.clear();
                auto name = tiro::make_string(w.v, "f");
                std::string got;
                auto run = [&](const tiro::function& f) {
                    tiro::run_async(w.v, f, [&](tiro::vm&, const tiro::coroutine& co) {
                        auto res = co.result();
                        got += res.is_success() ? std::string(res.value().to_string().view()) + ";" : std::string(res.error().as<tiro::exception>().message().view()) + ";";
                    });
                    while (w.v.has_ready()) w.v.run_ready();
                    if (waiting) {
                        rejected_inside("async_token::return_value", [&] { waiting->return_value(current_other->number); });
                        waiting->return_value(tiro::make_integer(w.v, 5));
                        waiting.reset();
                    }
                    while (w.v.has_ready()) w.v.run_ready();
                };
                run(tiro::make_sync_function<&F::sync>(w.v, name, 0, w.nothing));
                run(tiro::make_async_function<&F::async>(w.v, name, 0, w.nothing));
                run(tiro::make_resumable_function<&F::resumable>(w.v, name, 0, 1, w.nothing));
                if (!inside.empty()) c.fail(inside);
                if (got != "Handles that belong to different virtual machines must not be mixed;5;7;") c.fail("results of native functions: " + got);
                d += "frames\n";
                ++rejected;
            }
            if (w.show() != before_w || o.show() != before_o) c.fail("a rejected operation changed a machine:\n" + before_w + "\n" + w.show() + "\n" + before_o + "\n" + o.show());
            c.describe(d);
        }
        c.describe(d);
        c.count("operations with handles of two machines rejected", rejected);
        c.count("operations with handles of the other machine only", accepted);
        c.nontrivial = rejected >= 3;
    }
}

} // namespace

int main(int argc, char** argv) {
    std::vector<Suite> suites{
        {"interleave", 1500, 60000, interleave},
        {"threads", 200, 8000, threads},
        {"wrapper", 600, 20000, wrapper},
    };
    return pbt::Runner("C17",
        "interleave: at least twelve operations, some of them inside callbacks of other actors; threads: at least twelve operations; wrapper: at least three rejected calls",
        suites, {},
        {"the C interface does not detect handles of other machines; the C++ wrapper does (TIRO_HANDLE_CHECKS)"}).main(argc, argv);
}
