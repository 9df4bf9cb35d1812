// C18: running out of memory. Allocation failures are injected at every (or a generated) allocation of an operation: on
// the managed heap through the hook in Heap::allocate, and where the heap obtains its memory from the system by replacing
// aligned_alloc. (Failures of operator new are not injected: the abseil containers used everywhere do not support them.
// operator new is replaced in order to count the blocks that are alive.) The oracle is an undisturbed second machine: after a failure the observable state must be that before
// or after the operation, the operation must succeed once memory is available, and nothing may be lost.
#include "lang_run.hpp"
#include "api/internal.hpp"
#include "vm/heap/heap.hpp"

#include <climits>
#include <new>
#include <optional>

using namespace tu;
using pbt::Case;
using pbt::Suite;
using pbt::Tape;
using tiro::vm::VerifAllocAction;

// ------------------------------------------------------------------------------------------------ system allocator
// Outside of the anonymous namespace: replaces the global functions.
namespace sys {
bool armed = false, counting = false;
i64 countdown = -1;  // the allocation that fails
i64 burst = 1;       // number of allocations that fail from there
u64 seen = 0;        // allocations while armed
u64 failed = 0;      // of these, refused
u64 bytes = 0;       // handed out for pages and large objects
i64 live = 0;        // blocks allocated minus blocks freed while counting
size_t limit_bytes = SIZE_MAX; // larger requests are always refused while counting

bool refuse(size_t n) {
    if (n > limit_bytes) return true;
    if (!armed) return false;
    ++seen;
    if (countdown < 0) return false;
    if (countdown > 0) {
        --countdown;
        return false;
    }
    if (burst <= 0) return false;
    --burst;
    ++failed;
    return true;
}
// every block carries a header so that only blocks allocated while counting are counted when they are freed
struct Head {
    u64 counted;
    u64 magic;
};
void* get(size_t n) {
    auto* h = (Head*) malloc(n + sizeof(Head));
    if (!h) return nullptr;
    h->counted = counting;
    h->magic = 0x7469726f;
    if (counting) ++live;
    return h + 1;
}
void put(void* p) {
    if (!p) return;
    auto* h = (Head*) p - 1;
    if (h->counted) --live;
    free(h);
}
} // namespace sys

void* operator new(size_t n) {
    void* p = sys::get(n);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) {
    void* p = sys::get(n);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sys::get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sys::get(n); }
void operator delete(void* p) noexcept { sys::put(p); }
void operator delete[](void* p) noexcept { sys::put(p); }
void operator delete(void* p, size_t) noexcept { sys::put(p); }
void operator delete[](void* p, size_t) noexcept { sys::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sys::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sys::put(p); }

// used for pages and large objects only
extern "C" void* aligned_alloc(size_t align, size_t n) {
    if (sys::refuse(n)) return nullptr;
    void* p = nullptr;
    if (posix_memalign(&p, align, n) != 0) return nullptr;
    sys::bytes += n;
    return p;
}

namespace {

// ------------------------------------------------------------------------------------------------ managed heap
struct HeapPlan {
    tiro::vm::Heap* heap = nullptr; // the machine concerned
    i64 countdown = -1;
    bool persistent = false; // all later allocations fail as well
    bool collect = false;    // force one collection
    u64 seen = 0, failed = 0, max_total = 0;
} hp;

VerifAllocAction on_alloc(tiro::vm::Heap& heap, size_t) {
    if (&heap != hp.heap) return VerifAllocAction::Default;
    ++hp.seen;
    hp.max_total = std::max<u64>(hp.max_total, heap.stats().total_bytes);
    if (hp.collect) {
        hp.collect = false;
        return VerifAllocAction::Collect;
    }
    if (hp.countdown < 0) return VerifAllocAction::Default;
    if (hp.countdown-- == 0) {
        ++hp.failed;
        if (hp.persistent) hp.countdown = 0;
        return VerifAllocAction::Fail;
    }
    return VerifAllocAction::Default;
}

tiro::vm::Heap& heap_of(Vm& vm) { return ((tiro_vm*) (tiro_vm_t) vm)->ctx.heap(); }
tiro::vm::Context& ctx_of(Vm& vm) { return ((tiro_vm*) (tiro_vm_t) vm)->ctx; }

struct HookGuard {
    HookGuard() {
        hp = HeapPlan();
        tiro::vm::verif_alloc_hook = on_alloc;
    }
    ~HookGuard() { tiro::vm::verif_alloc_hook = nullptr; }
};

void arm(Vm& vm, i64 k, bool persistent = false) {
    hp.heap = &heap_of(vm);
    hp.countdown = k;
    hp.persistent = persistent;
    hp.collect = false;
    hp.seen = hp.failed = 0;
}
void disarm() {
    hp.heap = nullptr;
    hp.countdown = -1;
}
void collect(Vm& vm) {
    H x(vm);
    arm(vm, -1);
    hp.collect = true;
    MUST(tiro_make_float(vm, 1.5, x, must));
    disarm();
}

// ------------------------------------------------------------------------------------------------ operations of programs
const char* const state_source = R"(
import std;
var arr = []; var m = map{}; var s = set{}; var sb = std.new_string_builder(); var str = ""; var sl = ""; var t = (1, 2, 3);
var rec = (a: 1, b: 2, c: 3); var buf = std.new_buffer(8); var f = func() = 0; var n = 0; var any = null;
func bytes() { var r = []; for var i = 0; i < buf.size(); i += 1 { r.append(buf[i]); } return r; }
export func dump() = std.debug_repr([arr, m, s, sb.to_string(), str, sl, t, rec, bytes(), f(), n, any]);
export func push(x, i) { arr.append(x); }
export func put(x, i) { if (arr.size() > 0) { arr[i % arr.size()] = x; } }
export func put_int(x, i) { if (arr.size() > 0) { arr[i % arr.size()] = 4611686018427387904 + i; } }
export func clear(x, i) { arr.clear(); }
export func m_set(x, i) { m[x] = i; }
export func m_set_int(x, i) { m[i] = x; }
export func m_set_new(x, i) { m["key${i}"] = 1; }
export func m_remove(x, i) { m.remove(x); m.remove(i); }
export func m_clear(x, i) { m.clear(); }
export func s_insert(x, i) { s.insert(x); }
export func s_insert_int(x, i) { s.insert(i); }
export func s_remove(x, i) { s.remove(x); s.remove(i); }
export func s_clear(x, i) { s.clear(); }
export func sb_append(x, i) { sb.append(x); }
export func sb_byte(x, i) { sb.append_byte(i % 95 + 32); }
export func sb_clear(x, i) { sb.clear(); }
export func str_set(x, i) { str = "${x}-${i}-${str.slice_first(40)}"; }
export func str_float(x, i) { str = "${i * 1.25} ${#sym}"; }
export func slice(x, i) { sl = str.slice(i % (str.size() + 1), 7); }
export func slice_str(x, i) { sl = str.slice_last(i % 9).to_string(); }
export func tuple(x, i) { t = (x, i, t[0]); }
export func tuple_set(x, i) { t[i % 3] = x; }
export func record(x, i) { rec = (a: x, b: rec.a, c: i); }
export func record_set(x, i) { rec.b = x; }
export func buffer(x, i) { buf = std.new_buffer(i % 40); }
export func buffer_set(x, i) { if (buf.size() > 0) { buf[i % buf.size()] = i % 256; } }
export func closure(x, i) { const c = x; const d = [i]; f = func() = [c, d]; }
export func sum(x, i) { var r = i + 0.5; for e in arr { r += 1; } for (k, v) in m { r += 1; } for e in s { r += 1; } n = r; }
export func build(x, i) { arr = [x, (x, i), [x, [i]], map{1: x, "two": i}, set{x, i}, (a: x), "${x}"]; }
export func result(x, i) { any = [std.success(x), std.error("e${i}"), std.type_of(x)]; }
export func repr(x, i) { any = std.debug_repr([x, i, t], true); }
export func utf8(x, i) { any = std.to_utf8("a${i}").size(); }
export func caught(x, i) { any = std.catch_panic(func() { std.panic("boom ${i}"); }).error().message(); }
export func caught_op(x, i) { any = std.catch_panic(func() { return 1 + x; }).is_error(); }
func rec_(x, k) { const a = [k, k]; if (k == 0) { return x; } const r = rec_(x, k - 1); return (a, r); }
export func deep(x, i) { any = rec_(x, i % 30); }
export func big_args(x, i) { const g = func(a, b, c, d, e, h) = [a, b, c, d, e, h]; any = g(x, i, i + 0.5, "s${i}", (x,), [i]); }
export func method(x, i) { const g = arr.append; g(x); }
export func launched(x, i) { std.launch(func() { arr.append((x, i)); }); }
export func yielding(x, i) { const r = []; const co = std.launch(func() { const tok = std.coroutine_token(); std.dispatch(func() = tok.resume(i), 0); any = std.yield_coroutine(); }); }
export func big_buffer(x, i) { buf = std.new_buffer(15000 + i * 100); }
export func m_fill(x, i) { for var k = 0; k < 40 + i * 30; k += 1 { m[k] = i; } }
export func s_fill(x, i) { for var k = 0; k < 40 + i * 30; k += 1 { s.insert(k); } }
export func big_array(x, i) { const r = []; for var k = 0; k < 100 + i * 90; k += 1 { r.append(k); } any = (r.size(), r[r.size() - 1]); }
export func big_string(x, i) { var r = "abcdefgh${i}"; for var k = 0; k < 13; k += 1 { r = "${r}${r}"; } any = (r.size(), r.slice_last(5)); }
export func big_builder(x, i) { const b = std.new_string_builder(); for var k = 0; k < 300 + i * 100; k += 1 { b.append(x); } any = b.size(); }
export func garbage(x, i) { var r = 0; for var k = 0; k < 30; k += 1 { r += std.new_buffer(9000 + i * 50).size(); } any = r; }
export func list(x, i) { var l = null; for var k = 0; k < 300 + i * 40; k += 1 { l = (k, l); } var r = 0; while (l != null) { r += l[0]; l = l[1]; } any = r; }
export func recursion(x, i) { any = rec_(x, 40 + i * 5); }
export func keys(x, i) { var r = 0; for k in m.keys() { r += 1; } for v in m.values() { r += 1; } n = r; }
)";

struct OpInfo {
    const char* name;
    int arg; // 0 any value, 1 a string
};
const OpInfo ops[] = {{"push", 0}, {"put", 0}, {"put_int", 0}, {"clear", 0}, {"m_set", 0}, {"m_set_int", 0}, {"m_set_new", 0}, {"m_remove", 0}, {"m_clear", 0}, {"s_insert", 0},
    {"s_insert_int", 0}, {"s_remove", 0}, {"s_clear", 0}, {"sb_append", 1}, {"sb_byte", 0}, {"sb_clear", 0}, {"str_set", 1}, {"str_float", 0}, {"slice", 0}, {"slice_str", 0}, {"tuple", 0},
    {"tuple_set", 0}, {"record", 0}, {"record_set", 0}, {"buffer", 0}, {"buffer_set", 0}, {"closure", 0}, {"sum", 0}, {"build", 0}, {"result", 0}, {"repr", 0}, {"utf8", 0}, {"caught", 0},
    {"caught_op", 0}, {"deep", 0}, {"big_args", 0}, {"method", 0}, {"launched", 0}, {"keys", 0}};
constexpr size_t op_count = sizeof(ops) / sizeof(ops[0]);

struct Value {
    int kind = 0;
    i64 i = 0;
    std::string s;
    H make(Vm& vm) const {
        switch (kind) {
        case 0: return vm.integer(i);
        case 1: return vm.string(s);
        case 2: return vm.flt((f64) i / 8);
        case 3: return vm.boolean(i & 1);
        default: return vm.null();
        }
    }
    std::string show() const { return kind == 0 ? sfmt("%lld", (long long) i) : kind == 1 ? "'" + s + "'" : kind == 2 ? sfmt("%g", (f64) i / 8) : kind == 3 ? (i & 1 ? "true" : "false") : "null"; }
};
Value any_value(Tape& t, bool string) {
    Value v;
    v.kind = string ? 1 : (int) t.weighted({4, 4, 2, 1, 1});
    v.i = t.chance(1, 4) ? t.any_i64() : t.range(0, 40);
    if (v.kind == 2) v.i = t.range(-100, 100);
    if (v.kind == 1) v.s = t.chance(1, 6) ? std::string((size_t) t.below(300), 'q') : sfmt("v%d", (int) t.below(12));
    return v;
}

// One call in a new coroutine with everything after the conversion of the arguments observed.
struct Attempt {
    bool ok = false;
    tiro_errc_t code = TIRO_OK;
    std::string text;
    u64 allocations = 0;
    bool injected = false;
};
Attempt attempt(Vm& vm, tiro_handle_t fn, const std::vector<tiro_handle_t>& args, i64 k, bool persistent) {
    Attempt a;
    H tuple = vm.tuple(args), co(vm);
    Err e;
    arm(vm, k, persistent);
    tiro_make_coroutine(vm, fn, tuple, co, e);
    if (e.ok()) tiro_coroutine_start(vm, co, e);
    if (e.ok()) vm.run(e);
    a.allocations = hp.seen;
    a.injected = hp.failed > 0;
    disarm();
    if (!e.ok()) {
        a.code = e.code();
        a.text = e.text();
        return a;
    }
    auto r = vm.result_of(co);
    a.ok = r.ok();
    a.text = r.kind == CallResult::panic ? "panic: " + r.message : r.kind == CallResult::not_completed ? "not completed" : vm.show_limited(r.value);
    return a;
}
// Runs whatever is still ready.
void drain(Case& c, Vm& vm) {
    Err e;
    for (int i = 0; i < 100 && tiro_vm_has_ready(vm); ++i) tiro_vm_run_ready(vm, e);
    if (!e.ok()) c.fail("running the remaining coroutines failed after an allocation failure: " + e.text());
}

struct Pair { // the machine under test and its undisturbed twin
    Vm a{64u << 20}, b{64u << 20};
    H dump_a, dump_b;
    std::map<std::string, std::pair<H, H>> fns;
    Pair(const Compiled& m) {
        for (Vm* v : {&a, &b}) v->load(m);
        dump_a = a.get_export("state", "dump"), dump_b = b.get_export("state", "dump");
    }
    std::pair<H, H>& fn(const char* n) {
        auto it = fns.find(n);
        if (it == fns.end()) it = fns.emplace(n, std::make_pair(a.get_export("state", n), b.get_export("state", n))).first;
        return it->second;
    }
    std::string dump(Case& c, Vm& vm) {
        auto r = vm.call(&vm == &a ? dump_a : dump_b, std::vector<tiro_handle_t>{});
        (void) c;
        if (!r.ok()) throw Fail{"the state cannot be read any more: " + r.message};
        return vm.text(r.value);
    }
};

void s_atomic(Case& c) {
    Tape& t = c.t;
    static Compiled* module = [] {
        return new Compiled(compile("state", state_source));
    }();
    if (!module->ok()) c.fail("rejected: " + module->errors());
    HookGuard guard;
    Pair p(*module);
    size_t count = 2 + t.below(10);
    std::string log;
    bool gc = t.chance(1, 3);
    u64 injections = 0;
    auto run_both = [&](const OpInfo& op, const Value& x, i64 i) {
        auto& f = p.fn(op.name);
        for (Vm* v : {&p.a, &p.b}) {
            H ax = x.make(*v), ai = v->integer(i);
            auto r = attempt(*v, v == &p.a ? f.first : f.second, {ax, ai}, -1, false);
            if (!r.ok) c.fail(std::string(op.name) + " failed without injection: " + r.text);
        }
    };
    // fill the containers up to interesting sizes
    for (const char* name : {"push", "m_set_int", "s_insert_int", "sb_byte"}) {
        size_t n = t.chance(1, 2) ? 0 : t.pick({size_t(4), size_t(5), size_t(6), size_t(7), size_t(8), size_t(11), size_t(12), size_t(16), size_t(24), size_t(31), size_t(32), size_t(48), size_t(96), size_t(128), size_t(192)});
        if (n) log += sfmt("%s x %zu\n", name, n);
        for (size_t i = 0; i < n; ++i) run_both({name, 0}, Value{0, (i64) i, ""}, (i64) i);
    }
    std::string before = p.dump(c, p.a);
    if (before != p.dump(c, p.b)) c.fail("the two machines differ without injection");
    for (size_t step = 0; step < count; ++step) {
        const OpInfo& op = ops[t.below(op_count)];
        Value x = any_value(t, op.arg == 1);
        i64 i = t.range(0, 300);
        bool persistent = t.chance(1, 4);
        u64 stride = t.chance(3, 4) ? 1 : 1 + t.below(7);
        u64 offset = stride > 1 ? t.below(stride) : 0;
        log += sfmt("%s(%s, %lld)%s%s\n", op.name, x.show().c_str(), (long long) i, persistent ? " persistent" : "", stride > 1 ? sfmt(" every %llu from %llu", (unsigned long long) stride, (unsigned long long) offset).c_str() : "");
        c.describe(log);
        auto& f = p.fn(op.name);
        // the twin does it undisturbed
        H tx = x.make(p.b), ti = p.b.integer(i);
        auto want = attempt(p.b, f.second, {tx, ti}, -1, false);
        if (!want.ok) c.fail(std::string(op.name) + " failed without injection: " + want.text);
        std::string after = p.dump(c, p.b);
        bool done = false;
        for (u64 k = offset; !done && k < 400; k += stride) {
            H ax = x.make(p.a), ai = p.a.integer(i);
            auto got = attempt(p.a, f.first, {ax, ai}, (i64) k, persistent);
            drain(c, p.a);
            if (gc) collect(p.a);
            std::string now = p.dump(c, p.a);
            if (!got.injected) {
                if (!got.ok) c.fail(sfmt("%s did not succeed although no allocation failed: ", op.name) + got.text);
                if (got.text != want.text) c.fail(sfmt("%s returned %s instead of %s", op.name, got.text.c_str(), want.text.c_str()));
                if (now != after) c.fail(sfmt("after failures of %s and a success the state is\n", op.name) + now + "\nexpected\n" + after);
                done = true;
                break;
            }
            ++injections;
            c.label(op.name);
            if (got.ok) c.fail(sfmt("%s reported success although allocation %llu failed", op.name, (unsigned long long) k));
            if (got.code != TIRO_ERROR_ALLOC && got.code != TIRO_OK) c.fail(sfmt("%s: failure of allocation %llu reported as ", op.name, (unsigned long long) k) + got.text);
            if (got.code == TIRO_OK && got.text.find("alloc") == std::string::npos && got.text.find("memory") == std::string::npos)
                c.fail(sfmt("%s: failure of allocation %llu reported as ", op.name, (unsigned long long) k) + got.text);
            if (now == before && before != after) continue;
            if (now == after) {
                if (before == after) continue;
                done = true; // the failure came after the effect
                break;
            }
            c.fail(sfmt("failure of allocation %llu of %s left the state\n", (unsigned long long) k, op.name) + now + "\nbefore\n" + before + "\nafter\n" + after);
        }
        if (!done) {
            H ax = x.make(p.a), ai = p.a.integer(i);
            auto got = attempt(p.a, f.first, {ax, ai}, -1, false);
            if (!got.ok || p.dump(c, p.a) != after) c.fail(sfmt("%s does not work after failures: ", op.name) + got.text);
        }
        before = after;
    }
    // nothing leaks: the same number of objects stays alive
    collect(p.a);
    hp = HeapPlan();
    collect(p.b);
    size_t na = heap_of(p.a).stats().allocated_objects, nb = heap_of(p.b).stats().allocated_objects;
    if (na != nb) c.fail(sfmt("%zu objects are alive after failures, %zu without", na, nb));
    if (ctx_of(p.a).stack().used_slots() != ctx_of(p.b).stack().used_slots()) c.fail("slots of the managed stack leaked");
    if (p.dump(c, p.a) != before || p.dump(c, p.b) != before) c.fail("the state changed at the end");
    c.count("injections", injections);
    c.nontrivial = injections >= 3;
}

// ------------------------------------------------------------------------------------------------ operations of the API
struct Pool {
    Vm vm{64u << 20};
    std::vector<H> in; // fixed inputs
    H out;
};

using ApiOp = void (*)(Pool&, tiro_handle_t out, tiro_error_t* err, i64 n);
struct NamedApi {
    const char* name;
    ApiOp f;
};
int native_live = 0;
const tiro_native_type_t native_type = {{"native", 6}, 8, [](void*, size_t) { --native_live; }};
void nop_sync(tiro_vm_t, tiro_sync_frame_t) {}
void nop_async(tiro_vm_t, tiro_async_frame_t) {}
void nop_resumable(tiro_vm_t, tiro_resumable_frame_t f) { tiro_resumable_frame_return_value(f, nullptr, nullptr); }
int cleanups = 0;

// inputs: 0 string, 1 array, 2 tuple of keys, 3 record schema, 4 record, 5 coroutine, 6 function, 7 tuple of 2, 8 module, 9 exception result, 10 array of keys, 11 key, 12 array of new keys
const NamedApi api_ops[] = {
    {"integer", [](Pool& p, tiro_handle_t o, tiro_error_t* e, i64 n) { tiro_make_integer(p.vm, INT64_MAX - n, o, e); }},
    {"float", [](Pool& p, tiro_handle_t o, tiro_error_t* e, i64 n) { tiro_make_float(p.vm, n / 2.0, o, e); }},
    {"string", [](Pool& p, tiro_handle_t o, tiro_error_t* e, i64 n) { std::string s((size_t) n * 7, 'x'); tiro_make_string(p.vm, ts(s), o, e); }},
    {"tuple", [](Pool& p, tiro_handle_t o, tiro_error_t* e, i64 n) { tiro_make_tuple(p.vm, (size_t) n, o, e); }},
    {"array", [](Pool& p, tiro_handle_t o, tiro_error_t* e, i64 n) { tiro_make_array(p.vm, (size_t) n, o, e); }},
    {"buffer", [](Pool& p, tiro_handle_t o, tiro_error_t* e, i64 n) { tiro_make_buffer(p.vm, (size_t) n * 100, o, e); }},
    {"array_push", [](Pool& p, tiro_handle_t, tiro_error_t* e, i64) { tiro_array_push(p.vm, p.in[1], p.in[0], e); }},
    {"record_schema", [](Pool& p, tiro_handle_t o, tiro_error_t* e, i64) { tiro_make_record_schema(p.vm, p.in[10], o, e); }},
    {"record", [](Pool& p, tiro_handle_t o, tiro_error_t* e, i64) { tiro_make_record(p.vm, p.in[3], o, e); }},
    {"record_keys", [](Pool& p, tiro_handle_t o, tiro_error_t* e, i64) { tiro_record_keys(p.vm, p.in[4], o, e); }},
    {"record_set", [](Pool& p, tiro_handle_t, tiro_error_t* e, i64) { tiro_record_set(p.vm, p.in[4], p.in[11], p.in[0], e); }},
    {"record_get", [](Pool& p, tiro_handle_t o, tiro_error_t* e, i64) { tiro_record_get(p.vm, p.in[4], p.in[11], o, e); }},
    {"success", [](Pool& p, tiro_handle_t o, tiro_error_t* e, i64) { tiro_make_success(p.vm, p.in[0], o, e); }},
    {"error", [](Pool& p, tiro_handle_t o, tiro_error_t* e, i64) { tiro_make_error(p.vm, p.in[0], o, e); }},
    {"to_string", [](Pool& p, tiro_handle_t o, tiro_error_t* e, i64 n) { tiro_value_to_string(p.vm, p.in[(size_t) n % p.in.size()], o, e); }},
    {"type", [](Pool& p, tiro_handle_t o, tiro_error_t* e, i64 n) { tiro_value_type(p.vm, p.in[(size_t) n % p.in.size()], o, e); }},
    {"coroutine", [](Pool& p, tiro_handle_t o, tiro_error_t* e, i64) { tiro_make_coroutine(p.vm, p.in[6], p.in[7], o, e); }},
    {"callback", [](Pool& p, tiro_handle_t, tiro_error_t* e, i64) {
         tiro_coroutine_set_callback(p.vm, p.in[5], [](tiro_vm_t, tiro_handle_t, void*) {}, [](void*) { ++cleanups; }, nullptr, e);
     }},
    {"sync", [](Pool& p, tiro_handle_t o, tiro_error_t* e, i64) { tiro_make_sync_function(p.vm, p.in[0], nop_sync, 1, p.in[1], o, e); }},
    {"async", [](Pool& p, tiro_handle_t o, tiro_error_t* e, i64) { tiro_make_async_function(p.vm, p.in[0], nop_async, 1, nullptr, o, e); }},
    {"resumable", [](Pool& p, tiro_handle_t o, tiro_error_t* e, i64) {
         tiro_resumable_frame_desc_t d;
         memset(&d, 0, sizeof(d));
         d.name = p.in[0];
         d.func = nop_resumable;
         d.arg_count = 1;
         d.local_count = 3;
         d.closure = p.in[1];
         tiro_make_resumable_function(p.vm, &d, o, e);
     }},
    {"native", [](Pool& p, tiro_handle_t o, tiro_error_t* e, i64 n) {
         tiro_make_native(p.vm, &native_type, (size_t) n + 1, o, e);
         if (!*e) ++native_live;
     }},
    {"module", [](Pool& p, tiro_handle_t o, tiro_error_t* e, i64 n) {
         std::string a = sfmt("member%lld", (long long) n);
         tiro_module_member_t m[2] = {{ts(a), p.in[0]}, {ts("other"), p.in[1]}};
         tiro_make_module(p.vm, ts(sfmt("module%lld", (long long) n)), m, 2, o, e);
     }},
    {"module_export", [](Pool& p, tiro_handle_t o, tiro_error_t* e, i64) { tiro_module_get_export(p.vm, p.in[8], ts("member"), o, e); }},
    {"get_export", [](Pool& p, tiro_handle_t o, tiro_error_t* e, i64) { tiro_vm_get_export(p.vm, ts("std"), ts("debug_repr"), o, e); }},
    {"message", [](Pool& p, tiro_handle_t o, tiro_error_t* e, i64) { tiro_result_error(p.vm, p.in[9], o, e); }},
    // keys that no symbol exists for yet
    {"fresh_schema", [](Pool& p, tiro_handle_t o, tiro_error_t* e, i64) { tiro_make_record_schema(p.vm, p.in[12], o, e); }},
    {"fresh_schema", [](Pool& p, tiro_handle_t o, tiro_error_t* e, i64) { tiro_make_record_schema(p.vm, p.in[12], o, e); }},
    {"global", [](Pool& p, tiro_handle_t, tiro_error_t* e, i64) { tiro_global_free(tiro_global_new(p.vm, e)); }},
};
constexpr size_t api_count = sizeof(api_ops) / sizeof(api_ops[0]);

void fill_pool(Pool& p) {
    Vm& vm = p.vm;
    p.in.push_back(vm.string("input")); // 0
    H arr(vm);
    MUST(tiro_make_array(vm, 0, arr, must));
    p.in.push_back(std::move(arr)); // 1
    H a = vm.string("a"), bb = vm.string("bb"), keys(vm), fresh(vm), schema(vm), rec(vm), co(vm), fn, two, mod(vm), res(vm);
    p.in.push_back(vm.tuple({a, bb})); // 2
    MUST(tiro_make_array(vm, 2, keys, must));
    MUST(tiro_array_push(vm, keys, a, must));
    MUST(tiro_array_push(vm, keys, bb, must));
    MUST(tiro_make_record_schema(vm, keys, schema, must));
    MUST(tiro_make_record(vm, schema, rec, must));
    p.in.push_back(std::move(schema)), p.in.push_back(std::move(rec)); // 3, 4
    fn = vm.sync_function("fn", nop_sync, 0);
    two = vm.tuple({a, bb});
    MUST(tiro_make_coroutine(vm, fn, nullptr, co, must));
    p.in.push_back(std::move(co)), p.in.push_back(std::move(fn)), p.in.push_back(std::move(two)); // 5, 6, 7
    tiro_module_member_t m[1] = {{ts("member"), a}};
    MUST(tiro_make_module(vm, ts("mod"), m, 1, mod, must));
    p.in.push_back(std::move(mod)); // 8
    MUST(tiro_make_error(vm, a, res, must));
    p.in.push_back(std::move(res)), p.in.push_back(std::move(keys)), p.in.push_back(std::move(a)); // 9, 10, 11
    MUST(tiro_make_array(vm, 2, fresh, must));
    p.in.push_back(std::move(fresh)); // 12
}

void s_api(Case& c) {
    Tape& t = c.t;
    HookGuard guard;
    native_live = 0;
    u64 injections = 0;
    std::string log;
    {
        Pool p, q;
        fill_pool(p), fill_pool(q);
        size_t count = 1 + t.below(16);
        H out(p.vm), qout(q.vm);
        auto inputs = [](Pool& x) {
            std::string r;
            for (auto& h : x.in) r += x.vm.show(h) + ";";
            return r;
        };
        for (size_t step = 0; step < count; ++step) {
            auto& op = api_ops[t.below(api_count)];
            i64 n = t.range(0, 60);
            log += sfmt("%s(%lld)\n", op.name, (long long) n);
            c.describe(log);
            std::vector<std::string> fresh;
            for (size_t i = 0, e = 1 + t.below(4); i < e; ++i) fresh.push_back(sfmt("fresh %zu.%zu", step, i) + std::string(t.below(40), 'y'));
            auto new_keys = [&](Vm& vm, H& array) {
                MUST(tiro_make_array(vm, 2, array, must));
                for (auto& k : fresh) {
                    H s = vm.string(k);
                    MUST(tiro_array_push(vm, array, s, must));
                }
            };
            new_keys(p.vm, p.in[12]), new_keys(q.vm, q.in[12]);
            bool twins = t.chance(1, 2), fresh_op = op.name == std::string("fresh_schema");
            i64 twins_at = twins ? t.range(0, 4) : 0;
            Err qe;
            op.f(q, qout, qe, n);
            if (!qe.ok()) c.fail(std::string(op.name) + " fails without injection: " + qe.text());
            for (i64 k = 0;; ++k) {
                if (k > 300) c.fail(std::string(op.name) + " allocates too much");
                std::string before = inputs(p);
                MUST(tiro_make_string(p.vm, ts("sentinel"), out, must));
                Err e;
                arm(p.vm, k);
                op.f(p, out, e, n);
                bool injected = hp.failed > 0;
                disarm();
                std::string now = p.vm.show(out);
                if (!injected) {
                    if (!e.ok()) c.fail(std::string(op.name) + " fails although no allocation failed: " + e.text());
                    break;
                }
                ++injections;
                c.label(op.name);
                if (e.ok()) c.fail(sfmt("%s reported success although allocation %lld failed", op.name, (long long) k));
                if (e.code() != TIRO_ERROR_ALLOC) c.fail(sfmt("failure of allocation %lld of %s reported as ", (long long) k, op.name) + e.text());
                if (now != "\"sentinel\"" && now != "null") c.fail(std::string(op.name) + " failed but stored the result " + now);
                if (inputs(p) != before) c.fail(std::string(op.name) + " failed but changed its inputs to " + inputs(p) + " from " + before);
                if (twins && fresh_op && k == twins_at) { // equal strings are used as keys in the meantime
                    for (Pool* x : {&p, &q}) {
                        H other(x->vm), o(x->vm);
                        new_keys(x->vm, other);
                        MUST(tiro_make_record_schema(x->vm, other, o, must));
                    }
                }
            }
            if (fresh_op) { // equal strings are the same key, whichever failed to become one before
                H rec(p.vm), v(p.vm);
                MUST(tiro_make_record(p.vm, out, rec, must));
                for (size_t i = 0; i < fresh.size(); ++i) {
                    H key = p.vm.string(fresh[i]), again = p.vm.string(fresh[i]), same(p.vm), x = p.vm.integer(i);
                    MUST(tiro_array_get(p.vm, p.in[12], i, same, must));
                    Err e;
                    tiro_record_set(p.vm, rec, key, x, e);
                    if (!e.ok()) c.fail("after failures a record has no key equal to one of its schema: " + e.text());
                    for (H* h : {&again, &same}) {
                        Err e2;
                        tiro_record_get(p.vm, rec, *h, v, e2);
                        if (!e2.ok() || p.vm.show(v) != sfmt("%zu", i)) c.fail("after failures equal strings are different keys: " + e2.text());
                    }
                }
            }
            if (tiro_value_kind(p.vm, out) != tiro_value_kind(q.vm, qout) && p.vm.show(out) != "\"sentinel\"") c.fail(std::string(op.name) + " has another result after failures");
            if (inputs(p) != inputs(q)) c.fail(std::string(op.name) + " changed its inputs differently after failures: " + inputs(p) + " and " + inputs(q));
            tiro_make_null(q.vm, qout);
            fresh.clear();
            new_keys(p.vm, p.in[12]), new_keys(q.vm, q.in[12]);
        }
        tiro_make_null(p.vm, out);
        collect(p.vm), collect(q.vm);
        size_t na = heap_of(p.vm).stats().allocated_objects, nb = heap_of(q.vm).stats().allocated_objects;
        if (na != nb) c.fail(sfmt("%zu objects are alive after failures, %zu without", na, nb));
        if (native_live != 0) c.fail(sfmt("%d finalisers of unreachable native objects are missing", native_live));
    }
    c.count("injections", injections);
    c.nontrivial = injections >= 2;
}

// ------------------------------------------------------------------------------------------------ completion callbacks
// Setting a callback either replaces the one before or fails and leaves it in place.
void s_callbacks(Case& c) {
    Tape& t = c.t;
    HookGuard guard;
    struct Callback {
        int calls = 0, cleanups = 0;
    };
    std::vector<std::unique_ptr<Callback>> all;
    u64 failed = 0, replaced = 0;
    std::string log;
    {
        Vm vm(64u << 20);
        H fn = vm.sync_function("fn", nop_sync, 0);
        size_t rounds = 1 + t.below(3);
        for (size_t r = 0; r < rounds; ++r) {
            H co(vm);
            MUST(tiro_make_coroutine(vm, fn, nullptr, co, must));
            Callback* current = nullptr;
            bool started = t.chance(1, 4);
            if (started) MUST(tiro_coroutine_start(vm, co, must));
            for (size_t i = 0, n = t.below(6); i < n; ++i) {
                all.push_back(std::make_unique<Callback>());
                Callback* cb = all.back().get();
                i64 k = t.range(-1, 3);
                arm(vm, k, t.chance(1, 4));
                Err e;
                tiro_coroutine_set_callback(
                    vm, co, [](tiro_vm_t, tiro_handle_t, void* u) { ++((Callback*) u)->calls; }, [](void* u) { ++((Callback*) u)->cleanups; }, cb, e);
                bool injected = hp.failed > 0;
                disarm();
                log += sfmt("round %zu: set callback %zu%s\n", r, all.size() - 1, injected ? ", allocation fails" : "");
                c.describe(log);
                if (e.ok() == injected) c.fail("set_callback: unexpected outcome: " + (e.ok() ? std::string("success") : e.text()));
                if (cb->calls || (e.ok() && cb->cleanups)) c.fail("set_callback invoked the callback or the cleanup function");
                if (e.ok()) {
                    replaced += current != nullptr;
                    current = cb;
                } else {
                    failed += current != nullptr;
                    if (cb->cleanups != 1) c.fail(sfmt("set_callback failed, the cleanup function ran %d times", cb->cleanups));
                }
                if (t.chance(1, 4)) collect(vm);
            }
            if (!started) MUST(tiro_coroutine_start(vm, co, must));
            Err e;
            vm.run(e);
            if (!e.ok()) c.fail("run: " + e.text());
            for (size_t i = 0; i < all.size(); ++i) {
                Callback* cb = all[i].get();
                if (cb == current && cb->calls != 1) c.fail(sfmt("round %zu: the completion called callback %zu %d times", r, i, cb->calls));
                if (cb == current) cb->calls = 0;
                if (cb->calls) c.fail(sfmt("round %zu: the completion called callback %zu, which was replaced or not set", r, i));
            }
        }
    }
    for (size_t i = 0; i < all.size(); ++i)
        if (all[i]->cleanups != 1) c.fail(sfmt("the cleanup function of callback %zu ran %d times", i, all[i]->cleanups));
    c.label("a failure with a callback in place", failed > 0);
    c.label("a callback was replaced", replaced > 0);
    c.count("failures with a callback in place", failed);
    c.nontrivial = failed > 0;
}

// ------------------------------------------------------------------------------------------------ whole programs
void s_programs(Case& c) {
    Tape& t = c.t;
    HookGuard guard;
    lang::Program p;
    lang::Cfg cfg;
    cfg.budget = 30 + t.below(120);
    lang::Gen g(t, p, cfg);
    g.program();
    std::string src = lang::Printer().program(p);
    c.describe(src);
    lang::Observed want = lang::reference(p);
    if (want.result.rfind("init panic", 0) == 0) throw pbt::Discard{};
    Compiled again = compile("main", src);
    if (!again.ok()) c.fail("rejected: " + again.errors());
    Compiled first = compile("first", src);
    u64 total = 0;
    { // how many allocations are there?
        Vm vm;
        vm.load_env();
        lang::install_hooks(vm);
        vm.load(first);
        arm(vm, -1);
        Err e;
        H fn(vm);
        tiro_vm_get_export(vm, ts("first"), ts("main"), fn, e);
        if (e.ok()) {
            H co(vm);
            tiro_make_coroutine(vm, fn, nullptr, co, e);
            if (e.ok()) tiro_coroutine_start(vm, co, e);
            if (e.ok()) vm.run(e);
        }
        total = hp.seen;
        disarm();
    }
    if (!total) throw pbt::Discard{};
    Vm vm;
    vm.load_env();
    lang::install_hooks(vm);
    vm.load(first);
    u64 injected = 0;
    size_t tries = 1 + t.below(6);
    for (size_t i = 0; i < tries; ++i) {
        i64 k = (i64) t.below(total);
        bool persistent = t.chance(1, 3);
        c.add(sfmt("\n// allocation %lld of %llu fails%s", (long long) k, (unsigned long long) total, persistent ? " and all later ones" : ""));
        arm(vm, k, persistent);
        Err e;
        H fn(vm), co(vm);
        tiro_vm_get_export(vm, ts("first"), ts("main"), fn, e);
        if (e.ok()) tiro_make_coroutine(vm, fn, nullptr, co, e);
        if (e.ok()) tiro_coroutine_start(vm, co, e);
        if (e.ok()) vm.run(e);
        bool failed = hp.failed;
        disarm();
        injected += failed;
        if (failed && e.ok()) {
            // only native functions of this harness may have swallowed it
            c.label("swallowed");
        }
        if (!e.ok() && failed && e.code() != TIRO_ERROR_ALLOC) c.fail("allocation failure reported as " + e.text());
        drain(c, vm);
        if (t.chance(1, 2)) collect(vm);
    }
    vm.log.clear();
    lang::Observed got = lang::observe(vm, again);
    std::string d = lang::difference(got, want);
    if (!d.empty()) c.fail("a program run after allocation failures behaves differently: " + d);
    c.count("injections", injected);
    c.nontrivial = injected > 0;
}

// ------------------------------------------------------------------------------------------------ loading
// Loading the standard library or a module with an allocation failing: the module is loaded or it is not, and when it has been
// loaded in the end it behaves as if nothing had happened.
void s_loading(Case& c) {
    Tape& t = c.t;
    HookGuard guard;
    lang::Program p;
    lang::Cfg cfg;
    cfg.budget = 30 + t.below(150);
    lang::Gen g(t, p, cfg);
    g.program();
    std::string src = lang::Printer().program(p);
    c.describe(src);
    lang::Observed want = lang::reference(p);
    if (want.result.rfind("init panic", 0) == 0) throw pbt::Discard{};
    Compiled module = compile("main", src);
    if (!module.ok()) c.fail("rejected: " + module.errors());
    Vm vm(64u << 20, 0, false, false);
    u64 injected = 0;
    auto attempts = [&](const char* what, const char* name, auto&& load) {
        i64 k = (i64) t.below(1 + t.below(200));
        u64 stride = 1 + t.below(1 + t.below(60));
        for (int i = 0;; ++i) {
            if (i > 5000) c.fail(sfmt("%s does not finish", what));
            bool persistent = t.chance(1, 4);
            if (i > 25) stride = 1 + k / 4;
            arm(vm, k, persistent);
            Err e;
            load(e);
            u64 failed = hp.failed;
            disarm();
            injected += failed != 0;
            c.add(sfmt("\n// %s: allocation %lld fails%s: %s", what, (long long) k, persistent ? " and all later ones" : "", e.ok() ? (failed ? "success" : "not reached") : e.text().c_str()));
            if (!e.ok() && !failed) c.fail(sfmt("%s fails without an injected failure: %s", what, e.text().c_str()));
            if (!e.ok() && e.code() != TIRO_ERROR_ALLOC) c.fail(sfmt("%s: allocation failure reported as %s", what, e.text().c_str()));
            if (e.ok() && failed) c.label("swallowed");
            if (t.chance(1, 3)) collect(vm);
            if (e.ok()) break;
            k += 1 + (i64) t.below(stride);
        }
        Err e;
        load(e);
        if (e.ok() || e.code() != TIRO_ERROR_MODULE_EXISTS) c.fail(sfmt("loading '%s' twice: %s", name, e.ok() ? "success" : e.text().c_str()));
    };
    bool std_first = t.chance(1, 2);
    auto load_std = [&] { attempts("tiro_vm_load_std", "std", [&](tiro_error_t* e) { tiro_vm_load_std(vm, e); }); };
    if (std_first) load_std();
    attempts("tiro_vm_load_bytecode", "main", [&](tiro_error_t* e) { tiro_vm_load_bytecode(vm, module.module, e); });
    if (!std_first) load_std();
    vm.load_env();
    lang::install_hooks(vm);
    lang::Observed got;
    H fn(vm);
    Err e;
    tiro_vm_get_export(vm, ts("main"), ts("main"), fn, e);
    if (!e.ok()) {
        got.result = "load: " + e.text();
    } else {
        got.result = lang::run_main(vm);
    }
    got.log = vm.log;
    lang::normalise(got);
    std::string d = lang::difference(got, want);
    if (!d.empty()) c.fail("a module loaded after allocation failures behaves differently: " + d);
    c.count("injections", injected);
    c.nontrivial = injected >= 5;
}

// ------------------------------------------------------------------------------------------------ the limit of the heap
const char* const limit_source = R"(
import std;
var keep = null; var count = 0; var sizes = [8]; var tmp = null;
export func setup(s) { sizes = s; keep = null; count = 0; }
func item(n, i) {
    if (n < 0) { return (i, -n, "small"); }
    const b = std.new_buffer(n);
    b[0] = i % 256; b[n - 1] = (i * 7) % 256;
    return b;
}
export func fill(limit, garbage) {
    while (count < limit) {
        for var g = 0; g < garbage; g += 1 { item(sizes[(count + g) % sizes.size()], g); }
        const x = item(sizes[count % sizes.size()], count);
        keep = (x, keep);
        count += 1;
    }
    return count;
}
export func churn(rounds) {
    for var i = 0; i < rounds; i += 1 { tmp = item(sizes[i % sizes.size()], i); }
    tmp = null;
}
// the number of intact items
export func check() {
    var node = keep; var i = count - 1;
    while (node != null) {
        const n = sizes[i % sizes.size()];
        const x = node[0];
        if (n < 0) { assert(x[0] == i && x[1] == -n && x[2] == "small"); }
        else { assert(x.size() == n && x[n - 1] == (i * 7) % 256); if (n > 1) { assert(x[0] == i % 256); } }
        node = node[1];
        i -= 1;
    }
    return i;
}
export func release() { keep = null; count = 0; }
export func reached() = count;
)";

void s_limit(Case& c) {
    Tape& t = c.t;
    static Compiled* module = new Compiled(compile("limit", limit_source));
    if (!module->ok()) c.fail("rejected: " + module->errors());
    HookGuard guard;
    size_t page = t.pick({size_t(0), size_t(1) << 16, size_t(1) << 17, size_t(1) << 18, size_t(1) << 20});
    size_t max = (size_t) t.pick({i64(400000), i64(700000), i64(1) << 20, i64(1500000), i64(2) << 20, i64(3) << 20, i64(800000), i64(5) << 20}) + t.below(100000);
    if (t.chance(1, 10)) max = 1 + t.below(500000);
    std::string d = sfmt("page size %zu, heap limit %zu\n", page, max);
    c.describe(d);
    tiro_vm_settings_t st;
    tiro_vm_settings_init(&st);
    st.page_size = page;
    st.max_heap_size = max;
    Err ce;
    tiro_vm_t probe = tiro_vm_new(&st, ce);
    if (!ce.ok()) {
        if (probe) c.fail("a machine was returned together with an error");
        if (ce.code() != TIRO_ERROR_ALLOC) c.fail("creating a machine with a small heap fails with " + ce.text());
        c.label("too small for a machine");
        return;
    }
    {
        tiro_vm_load_std(probe, ce);
        if (!ce.ok()) {
            if (ce.code() != TIRO_ERROR_ALLOC) c.fail("loading std into a small heap fails with " + ce.text());
            auto& stats = ((tiro_vm*) probe)->ctx.heap().stats();
            if (stats.total_bytes > max) c.fail("the limit was exceeded");
            tiro_vm_free(probe);
            c.label("too small for std");
            return;
        }
        tiro_vm_free(probe);
    }
    Vm vm(max, page);
    auto& stats = heap_of(vm).stats();
    size_t page_size = tiro_vm_page_size(vm);
    Err le;
    tiro_vm_load_bytecode(vm, module->module, le);
    H setup(vm), fill(vm), churn(vm), check(vm), release(vm), reached(vm);
    auto get = [&](const char* n, H& h) {
        if (le.ok()) tiro_vm_get_export(vm, ts("limit"), ts(n), h, le);
    };
    get("setup", setup), get("fill", fill), get("churn", churn), get("check", check), get("release", release), get("reached", reached);
    if (!le.ok()) {
        if (le.code() != TIRO_ERROR_ALLOC) c.fail("loading a module into a small heap fails with " + le.text());
        c.label("too small for the module");
        return;
    }
    std::vector<i64> sizes;
    for (size_t n = 1 + t.below(4); n-- > 0;) {
        i64 big = (i64) max / 3;
        sizes.push_back(t.weighted({2, 2, 3, 2}) == 0 ? -t.range(1, 100) : t.chance(1, 2) ? t.range(1, 2000) : t.chance(1, 2) ? t.range(2000, 40000) : t.range(std::min<i64>(40000, big), std::max<i64>(40000, big)));
    }
    i64 garbage = t.chance(1, 2) ? 0 : t.range(1, 3);
    d += "sizes";
    for (i64 s : sizes) d += sfmt(" %lld", (long long) s);
    d += sfmt(", garbage %lld\n", (long long) garbage);
    c.describe(d);
    auto call = [&](H& f, std::vector<tiro_handle_t> args) {
        arm(vm, -1);
        auto r = vm.call(f, args);
        if (hp.max_total > max || stats.total_bytes > max) c.fail(sfmt("%llu bytes are in use although the limit is %zu", (unsigned long long) std::max<u64>(hp.max_total, stats.total_bytes), max));
        disarm();
        return r;
    };
    auto oom_or_ok = [&](const char* what, CallResult& r) {
        if (r.kind == CallResult::error && r.code != TIRO_ERROR_ALLOC) c.fail(std::string(what) + " fails with " + r.message);
        if (r.kind == CallResult::panic || r.kind == CallResult::not_completed) c.fail(std::string(what) + " fails with " + r.message);
        return r.ok();
    };
    { // everything else needs some memory of its own
        H arr(vm);
        Err e;
        tiro_make_array(vm, sizes.size(), arr, e);
        for (i64 s : sizes) {
            H x(vm);
            if (e.ok()) tiro_make_integer(vm, s, x, e);
            if (e.ok()) tiro_array_push(vm, arr, x, e);
        }
        if (!e.ok()) {
            if (e.code() != TIRO_ERROR_ALLOC) c.fail("creating an array fails with " + e.text());
            return;
        }
        auto r = call(setup, {arr});
        if (!oom_or_ok("setup", r)) return;
    }
    H limit = vm.integer(20000), g = vm.integer(garbage), rounds = vm.integer(200);
    i64 first = -1;
    size_t smallest = SIZE_MAX, largest = 0;
    for (i64 s : sizes) smallest = std::min(smallest, s < 0 ? size_t(64) : (size_t) s), largest = std::max(largest, s < 0 ? size_t(64) : (size_t) s);
    size_t phases = 2 + t.below(3);
    for (size_t phase = 0; phase < phases; ++phase) {
        auto r = call(fill, {limit, g});
        bool full = !oom_or_ok("fill", r);
        drain(c, vm);
        auto n = call(reached, {});
        if (!n.ok()) { // not even a call is possible with a full heap; memory becomes available
            if (n.code != TIRO_ERROR_ALLOC) c.fail("a call with a full heap fails with " + n.message);
            c.label("no memory for a call");
            return;
        }
        i64 count = tiro_integer_value(vm, n.value);
        if (full) {
            c.label("full");
            collect(vm);
            // the failure was justified: neither another page nor another large object fits
            if (stats.total_bytes + largest + page_size + 256 <= max) c.fail(sfmt("out of memory after %lld items, although only %zu of %zu bytes are in use", (long long) count, stats.total_bytes, max));
        }
        auto k = call(check, {});
        if (k.ok()) {
            if (tiro_integer_value(vm, k.value) != -1) c.fail("items were lost");
        } else if (k.kind == CallResult::panic) {
            c.fail("the items are not intact: " + k.message);
        } else {
            oom_or_ok("check", k);
        }
        // fragmentation costs some of the memory, but never most of it
        if (phase && first >= 0 && count * 3 < first - 20) c.fail(sfmt("%lld items fitted the first time and %lld after they were released", (long long) first, (long long) count));
        if (!phase) first = count;
        auto rel = call(release, {});
        if (!oom_or_ok("release", rel)) {
            c.label("no memory for a release");
            return;
        }
        // the released memory is available again
        if (first > (i64) sizes.size() * (2 + garbage)) {
            auto ch = call(churn, {rounds});
            if (!ch.ok()) c.fail(sfmt("objects do not fit any more after the release of %lld items: ", (long long) count) + ch.message);
        }
    }
    c.nontrivial = first >= 3;
}

// sizes beyond every limit
void s_huge(Case& c) {
    Tape& t = c.t;
    static Compiled* module = new Compiled(compile("huge", R"(
import std;
export func buffer(n) { const b = std.new_buffer(n); return b.size(); }
export func caught(n) = std.catch_panic(func() = std.new_buffer(n).size());
export func doubled(n) { var s = "abcdefgh"; for var i = 0; i < n; i += 1 { s = "${s}${s}"; } return s.size(); }
export func builder(n) { const b = std.new_string_builder(); var s = "x"; for var i = 0; i < n; i += 1 { b.append(s); s = b.to_string(); } return b.size(); }
export func bytes(n) { const b = std.new_buffer(16); b[3] = 7; return b[3] + n - n; }
)"));
    if (!module->ok()) c.fail("rejected: " + module->errors());
    struct Limit {
        Limit() { sys::limit_bytes = size_t(48) << 20; }
        ~Limit() { sys::limit_bytes = SIZE_MAX; }
    } lim;
    size_t max = t.pick({size_t(8) << 20, size_t(64) << 20, size_t(1) << 32, size_t(1) << 40, SIZE_MAX});
    std::string d = sfmt("heap limit %zu\n", max);
    Vm vm(max);
    vm.load(*module);
    H buffer = vm.get_export("huge", "buffer"), caught = vm.get_export("huge", "caught"), doubled = vm.get_export("huge", "doubled"), bytes = vm.get_export("huge", "bytes"), builder = vm.get_export("huge", "builder");
    auto& stats = heap_of(vm).stats();
    size_t count = 1 + t.below(6);
    bool refused = false;
    for (size_t i = 0; i < count; ++i) {
        u64 n = u64(1) << t.below(64);
        n += (u64) t.range(-40, 40);
        if (t.chance(1, 4)) n *= (u64) t.range(1, 20);
        int what = (int) t.below(9);
        d += sfmt("%d %llu\n", what, (unsigned long long) n);
        c.describe(d);
        Err e;
        H out(vm);
        size_t before = stats.total_bytes;
        auto from_script = [&](H& fn, i64 arg) {
            H a = vm.integer(arg);
            auto r = vm.call(fn, {a});
            if (r.ok()) return true;
            if (r.kind == CallResult::panic && arg < 0) return false;
            if (r.kind != CallResult::error || r.code != TIRO_ERROR_ALLOC) c.fail(sfmt("an object of size %lld is refused with ", (long long) arg) + r.message);
            return false;
        };
        bool ok = true;
        switch (what) {
        case 0: tiro_make_buffer(vm, n, out, e); break;
        case 1: tiro_make_tuple(vm, n, out, e); break;
        case 2: tiro_make_array(vm, n, out, e); break;
        case 3: {
            static const tiro_native_type_t type = {{"t", 1}, 8, nullptr};
            tiro_make_native(vm, &type, n ? n : 1, out, e);
            break;
        }
        case 4: ok = from_script(buffer, (i64) n); break;
        case 5: ok = from_script(caught, (i64) n); break;
        case 6: ok = from_script(doubled, (i64) (n % 45)); break;
        case 7: ok = from_script(builder, (i64) (n % 45)); break;
        default: {
            H co(vm);
            tiro_make_tuple(vm, n % 3000000, out, e);
            break;
        }
        }
        if (!e.ok()) {
            ok = false;
            if (e.code() != TIRO_ERROR_ALLOC) c.fail(sfmt("an object of size %llu is refused with ", (unsigned long long) n) + e.text());
        } else if (ok && what <= 4) {
            size_t unit = what == 1 || what == 2 ? 8 : 1;
            if (n * (u64) unit / unit != n || n * unit > (size_t(48) << 20)) c.fail(sfmt("an object of size %llu was created by %d", (unsigned long long) n, what));
        }
        refused |= !ok;
        // the machine still works, and nothing was accounted for
        auto r = from_script(bytes, 5);
        if (!r) c.fail("the machine does not work any more");
        if (!ok && what < 5 && stats.total_bytes > before + (2u << 20)) c.fail(sfmt("%zu bytes are accounted for after a refused request", stats.total_bytes));
        if (stats.total_bytes > max) c.fail("the limit was exceeded");
    }
    // accounting: enough must be left for ordinary work
    if (max >= (size_t(64) << 20)) {
        tiro_make_null(vm, vm.h());
        HookGuard guard;
        collect(vm);
        H f(vm);
        Err e;
        tiro_make_buffer(vm, 1u << 20, f, e);
        if (!e.ok()) c.fail("an ordinary buffer is refused afterwards: " + e.text());
    }
    c.nontrivial = refused;
}

// ------------------------------------------------------------------------------------------------ the system allocator
struct Pause {
    bool was = sys::armed;
    Pause() { sys::armed = false; }
    ~Pause() { sys::armed = was; }
};

struct SysSession {
    Case& c;
    i64 k = -1, burst = 1;
    size_t step = SIZE_MAX; // where the failure is injected
    std::vector<u64> seen;  // allocations of every step
    std::string transcript;
    bool injected = false, reported = false;

    void run(const std::string& source, const std::string& op, i64 seed) {
        tiro_vm_t vm = nullptr;
        tiro_module_t module = nullptr;
        tiro_handle_t fn = nullptr, x = nullptr, y = nullptr, co = nullptr, tuple = nullptr, res = nullptr;
        size_t at = 0;
        // runs one call, again if it failed because of an injected failure
        auto step_ = [&](const char* name, auto&& call, bool repeatable = true) {
            bool target = at == step;
            for (int attempt = 0; attempt < 2; ++attempt) {
                tiro_error_t e = nullptr;
                sys::seen = sys::failed = 0;
                sys::countdown = target && attempt == 0 ? k : -1;
                sys::burst = burst;
                size_t total = vm ? ((tiro_vm*) vm)->ctx.heap().stats().total_bytes : 0;
                sys::bytes = 0;
                sys::armed = true;
                call(&e);
                sys::armed = false;
                if (vm && ((tiro_vm*) vm)->ctx.heap().stats().total_bytes > total + sys::bytes) throw Fail{sfmt("%s: %zu bytes are accounted for although only %zu bytes were allocated", name, ((tiro_vm*) vm)->ctx.heap().stats().total_bytes, (size_t) (total + sys::bytes))};
                if (attempt == 0) seen.push_back(sys::seen);
                if (sys::failed) injected = true;
                if (!e) break;
                tiro_errc_t code = tiro_error_errc(e);
                std::string text = std::string(tiro_error_name(e)) + ": " + tiro_error_message(e) + " [" + tiro_error_details(e) + "]";
                tiro_error_free(e);
                if (!sys::failed) throw Fail{sfmt("%s fails%s: ", name, attempt ? " again after an allocation failure, with memory available" : " without an allocation failure") + text};
                if (code != TIRO_ERROR_ALLOC) throw Fail{sfmt("%s reports the failure of allocation %lld as ", name, (long long) k) + text};
                reported = true;
                if (!repeatable) throw pbt::Discard{};
            }
            ++at;
        };
        struct Compilation {
            tiro_compiler_t c = nullptr;
            ~Compilation() { tiro_compiler_free(c); }
        };
        step_("compilation", [&](tiro_error_t* e) {
            Compilation g;
            g.c = tiro_compiler_new(ts("m"), e);
            if (!*e) tiro_compiler_add_file(g.c, ts("main"), ts(source), e);
            if (!*e) tiro_compiler_run(g.c, e);
            if (!*e) tiro_compiler_take_module(g.c, &module, e);
        });
        step_("tiro_vm_new", [&](tiro_error_t* e) {
            tiro_vm_settings_t st;
            tiro_vm_settings_init(&st);
            st.enable_panic_stack_trace = seed & 1;
            st.page_size = 1 << 16;
            st.max_heap_size = size_t(1) << 30;
            st.print_stdout = [](tiro_string_t, void*) {};
            vm = tiro_vm_new(&st, e);
            if (*e && vm) throw Fail{"a machine was returned together with an error"};
        });
        step_("tiro_vm_load_std", [&](tiro_error_t* e) { tiro_vm_load_std(vm, e); });
        step_("tiro_vm_load_bytecode", [&](tiro_error_t* e) { tiro_vm_load_bytecode(vm, module, e); });
        for (tiro_handle_t* h : {&fn, &x, &y, &co, &tuple, &res})
            step_("tiro_global_new", [&](tiro_error_t* e) { *h = tiro_global_new(vm, e); });
        step_("tiro_vm_get_export", [&](tiro_error_t* e) { tiro_vm_get_export(vm, ts("m"), ts(op), fn, e); });
        step_("tiro_make_string", [&](tiro_error_t* e) { tiro_make_string(vm, ts("argument"), x, e); });
        step_("tiro_make_integer", [&](tiro_error_t* e) { tiro_make_integer(vm, seed, y, e); });
        step_("tiro_make_tuple", [&](tiro_error_t* e) { tiro_make_tuple(vm, 2, tuple, e); });
        step_("tiro_tuple_set", [&](tiro_error_t* e) { tiro_tuple_set(vm, tuple, 0, x, e); });
        step_("tiro_tuple_set", [&](tiro_error_t* e) { tiro_tuple_set(vm, tuple, 1, y, e); });
        for (int round = 0; round < 2; ++round)
            step_("call", [&](tiro_error_t* e) {
                tiro_make_coroutine(vm, fn, tuple, co, e);
                if (!*e) tiro_coroutine_start(vm, co, e);
                for (int i = 0; !*e && i < 100 && tiro_vm_has_ready(vm); ++i) tiro_vm_run_ready(vm, e);
            });
        step_("collection", [&](tiro_error_t* e) {
            hp.heap = &((tiro_vm*) vm)->ctx.heap();
            hp.collect = true;
            tiro_make_float(vm, 0.5, x, e);
            hp = HeapPlan();
        });
        step_("tiro_coroutine_result", [&](tiro_error_t* e) { tiro_coroutine_result(vm, co, res, e); });
        step_("tiro_vm_get_export", [&](tiro_error_t* e) { tiro_vm_get_export(vm, ts("m"), ts("dump"), fn, e); });
        step_("dump", [&](tiro_error_t* e) {
            tiro_make_coroutine(vm, fn, nullptr, co, e);
            if (!*e) tiro_coroutine_start(vm, co, e);
            while (!*e && tiro_vm_has_ready(vm)) tiro_vm_run_ready(vm, e);
            if (!*e) tiro_coroutine_result(vm, co, res, e);
            if (!*e) tiro_result_value(vm, res, x, e);
        });
        step_("tiro_string_value", [&](tiro_error_t* e) {
            tiro_string_t s{nullptr, 0};
            tiro_string_value(vm, x, &s, e);
            Pause p;
            transcript = str(s);
        });
        for (tiro_handle_t h : {fn, x, y, co, tuple, res}) tiro_global_free(h);
        tiro_vm_free(vm);
        tiro_module_free(module);
    }
};

void s_system(Case& c) {
    Tape& t = c.t;
    HookGuard guard;
    // idempotent operations: executing one again after a failure yields the same state
    static const char* const idempotent[] = {"big_buffer", "m_fill", "s_fill", "big_array", "big_string", "big_builder", "garbage", "list", "recursion", "big_buffer", "m_fill", "s_fill", "big_array", "big_string", "big_builder", "garbage", "list", "recursion", "put", "put_int", "clear", "m_set", "m_set_int", "m_set_new", "m_remove", "m_clear", "s_insert", "s_insert_int", "s_clear", "str_float", "slice", "slice_str", "tuple_set", "record_set", "buffer", "closure", "sum", "build", "result", "repr", "utf8", "caught", "caught_op", "deep", "big_args", "keys"};
    std::string op = t.pick({std::string(idempotent[t.below(sizeof(idempotent) / sizeof(idempotent[0]))])});
    i64 seed = t.range(0, 60);
    SysSession plain{c};
    std::string source = state_source;
    c.describe(op + sfmt(" %lld\n", (long long) seed));
    static bool warm = false;
    if (!warm) {
        SysSession w{c};
        w.run(source, op, seed);
        warm = true;
    }
    auto balanced = [&](SysSession& s) {
        sys::live = 0;
        sys::counting = true;
        try {
            s.run(source, op, seed);
        } catch (...) {
            sys::counting = sys::armed = false;
            throw;
        }
        { std::vector<u64>().swap(s.seen); }
        sys::counting = false;
        i64 text = s.transcript.capacity() > 15 ? 1 : 0;
        return sys::live - text;
    };
    SysSession count{c};
    count.run(source, op, seed);
    std::vector<u64> seen = count.seen;
    i64 leak0 = balanced(plain);
    if (leak0 != 0) c.fail(sfmt("%lld blocks leak without failures", (long long) leak0));
    u64 injections = 0;
    size_t tries = 1 + t.below(5);
    std::string d = op + sfmt(" %lld\n", (long long) seed);
    for (size_t i = 0; i < tries; ++i) {
        SysSession s{c};
        std::vector<size_t> can;
        for (size_t k = 0; k < seen.size(); ++k)
            if (seen[k]) can.push_back(k);
        s.step = t.pick(can);
        s.k = (i64) t.below(seen[s.step]);
        s.burst = t.chance(1, 3) ? 1000000 : t.chance(1, 4) ? t.range(2, 5) : 1;
        d += sfmt("step %zu: allocation %lld of %llu fails, burst %lld\n", s.step, (long long) s.k, (unsigned long long) seen[s.step], (long long) s.burst);
        c.describe(d);
        i64 leak = balanced(s);
        if (!s.injected) c.fail("the number of allocations differs between identical sessions");
        ++injections;
        c.label(s.reported ? "reported" : "not needed");
        if (s.transcript != plain.transcript) c.fail("after an allocation failure the state is\n" + s.transcript + "\nexpected\n" + plain.transcript);
        if (leak != 0) c.fail(sfmt("%lld blocks leak after the failure", (long long) leak));
    }
    c.count("injections", injections);
    c.nontrivial = injections > 0;
}

const char* const rule = "atomic and api: at least three or two injected failures; programs and system: at least one; limit: at least three items fitted; huge: a request was refused";

} // namespace

int main(int argc, char** argv) {
    std::vector<Suite> suites;
    suites.push_back({"atomic", 1000, 60000, s_atomic});
    suites.push_back({"api", 2500, 100000, s_api});
    suites.push_back({"callbacks", 1500, 100000, s_callbacks});
    suites.push_back({"programs", 1500, 60000, s_programs});
    suites.push_back({"loading", 250, 20000, s_loading});
    suites.push_back({"limit", 80, 8000, s_limit});
    suites.push_back({"huge", 800, 40000, s_huge});
    suites.push_back({"system", 300, 20000, s_system});
    return pbt::Runner("C18", rule, suites, {}, {"failures of operator new are not injected (the abseil containers do not support them)", "fragmentation may cost up to two thirds of a full heap before the limit suite reports it"}).main(argc, argv);
}
