// C09: scheduling histories. A generated program of coroutine operations and a generated sequence of host operations is
// run on the virtual machine and on a model of the scheduler written with C++ coroutines.
// std: gnu++20
#include "pbt.hpp"
#include "tiro_util.hpp"
#include "vm/heap/heap.hpp"

#include <coroutine>
#include <deque>
#include <exception>

using namespace tu;
using pbt::Case;
using pbt::Suite;
using pbt::Tape;

namespace {

// ------------------------------------------------------------------------------------------------ programs
enum K {
    k_emit, k_set, k_keep, k_yield, k_sleep, k_resume, k_valid, k_dispatch, k_launch, k_call, k_catch, k_panic, k_return,
    k_defer, k_loop, k_wait, k_now, k_now_panic, k_spawn, k_finish, k_nested, k_identity, k_stash, k_first_class, k_gc, k_COUNT
};
struct Op {
    K kind;
    int a = 0, b = 0, id = 0;
    std::vector<Op> sub;
};
using Ops = std::vector<Op>;
struct HostOp {
    int kind, a = 0, b = 0;
};
constexpr int slots = 3;

struct Program {
    std::vector<Ops> bodies;
    std::vector<HostOp> host;
    int callback_action[7]; // what the callback of host coroutine n does, indexed by n % 7
    int fuel = 12;
};

struct Gen {
    Tape& t;
    Program& p;
    int serial = 0;
    int budget = 60;

    Ops ops(int body, int depth, bool in_defer) {
        Ops r;
        size_t n = 1 + t.below(depth ? 4 : 7);
        for (size_t i = 0; i < n && budget > 0; ++i) {
            --budget;
            Op o;
            // order: simplest first
            static const std::vector<pbt::u32> w = {6, 3, 2, 8, 2, 10, 2, 5, 5, 3, 3, 1, 1, 3, 3, 4, 2, 1, 2, 3, 1, 2, 1, 3, 1};
            o.kind = (K) t.weighted(w);
            if (depth >= 3 && (o.kind == k_catch || o.kind == k_loop)) o.kind = k_emit;
            if (in_defer)
                switch (o.kind) {
                case k_panic:
                case k_return:
                case k_defer:
                case k_catch:
                case k_loop:
                case k_call:
                case k_wait:
                case k_now_panic:
                case k_first_class: o.kind = k_emit; break;
                default: break;
                }
            if (o.kind == k_call && body + 1 >= (int) p.bodies.size()) o.kind = k_yield;
            o.id = ++serial;
            o.a = (int) t.below(slots);
            o.b = (int) t.below(30);
            switch (o.kind) {
            case k_catch:
            case k_loop: o.sub = ops(body, depth + 1, false); break;
            case k_defer: o.sub = ops(body, depth + 1, true); break;
            default: break;
            }
            r.push_back(std::move(o));
        }
        return r;
    }
    void program() {
        size_t n = 1 + t.below(4);
        p.bodies.resize(n);
        for (size_t i = 0; i < n; ++i) p.bodies[i] = ops((int) i, 0, false);
        Ops poke; // resumes everything
        for (int i = 0, k = (int) t.below(3); i < slots; ++i) poke.push_back({k_resume, (i + k) % slots, 0, ++serial, {}});
        p.bodies.push_back(poke);
        for (int& a : p.callback_action) a = (int) t.below(6);
        size_t hops = 4 + t.size(30);
        p.host.push_back({0, 0, 1});
        for (size_t i = 0; i < hops; ++i) {
            HostOp h;
            h.kind = (int) t.weighted({5, 7, 6, 2, 2, 2, 1, 1});
            h.a = (int) t.below(40);
            h.b = (int) t.below(30);
            if (h.kind == 0 && t.chance(1, 3)) h.a = (int) p.bodies.size() - 1;
            p.host.push_back(h);
        }
    }
};

// ------------------------------------------------------------------------------------------------ printing
struct Printer {
    const Program& p;
    std::string out;

    void line(int ind, const std::string& s) { out += std::string(ind * 4, ' ') + s + "\n"; }

    void ops(const Ops& os, int ind, int body) {
        for (auto& o : os) op(o, ind, body);
    }
    void op(const Op& o, int in, int body) {
        int target = o.b % (int) p.bodies.size();
        switch (o.kind) {
        case k_emit: line(in, sfmt("emit(\"${me} @%d ${x} ${y}\");", o.id)); break;
        case k_set: line(in, sfmt("x = (x * 3 + y + %d) %% 1000; y += 1;", o.b)); break;
        case k_keep: line(in, sfmt("toks[%d] = std.coroutine_token();", o.a)); break;
        case k_yield:
            line(in, sfmt("toks[%d] = std.coroutine_token(); emit(\"${me} yields %d\"); y = y + num(std.yield_coroutine()); emit(\"${me} back %d ${x} ${y}\");",
                o.a, o.id, o.id));
            break;
        case k_sleep: line(in, sfmt("emit(\"${me} sleeps %d\"); std.yield_coroutine(); emit(\"${me} awake %d ${x} ${y}\");", o.id, o.id)); break;
        case k_resume:
            line(in, sfmt("if (toks[%d] != null) { emit(\"${me} resume %d ${toks[%d].valid()} ${toks[%d].resume()} ${toks[%d].valid()}\"); }", o.a, o.id, o.a,
                o.a, o.a));
            break;
        case k_valid: line(in, sfmt("if (toks[%d] != null) { emit(\"${me} valid %d ${toks[%d].valid()}\"); }", o.a, o.id, o.a)); break;
        case k_dispatch: line(in, sfmt("std.dispatch(); emit(\"${me} dispatched %d ${x}\");", o.id)); break;
        case k_launch:
            line(in, sfmt("if (fuel > 0) { fuel -= 1; const id = fresh(); emit(\"${me} launches ${id}\"); cos[id] = std.launch(body%d, id, x); x += 1; }", target));
            break;
        case k_call: {
            int t2 = body + 1 + o.b % ((int) p.bodies.size() - body - 1);
            line(in, sfmt("x = (x + body%d(me, y)) %% 1000;", t2));
            break;
        }
        case k_catch:
            line(in, "{");
            line(in + 1, "const r = std.catch_panic(func() {");
            ops(o.sub, in + 2, body);
            line(in + 2, sfmt("return x + %d;", o.b));
            line(in + 1, "});");
            line(in + 1, sfmt("if (r.is_success()) { emit(\"${me} ok %d ${r.value()} ${x}\"); } else { emit(\"${me} panic %d ${r.error().message()} ${x}\"); }",
                o.id, o.id));
            line(in, "};");
            break;
        case k_panic: line(in, sfmt("if (true) { std.panic(\"P%d ${x}\"); }", o.id)); break;
        case k_return: line(in, sfmt("if (x %% 2 == %d) { return x; }", o.b % 2)); break;
        case k_defer:
            line(in, "defer {");
            ops(o.sub, in + 1, body);
            line(in, "};");
            break;
        case k_loop:
            line(in, sfmt("for var i%d = 0; i%d < %d; i%d += 1 {", o.id, o.id, 1 + o.b % 3, o.id));
            line(in + 1, sfmt("emit(\"${me} loop %d ${i%d}\");", o.id, o.id));
            ops(o.sub, in + 1, body);
            line(in, "}");
            break;
        case k_wait: line(in, sfmt("x = (x + env.wait(me, x)) %% 1000; emit(\"${me} waited %d ${x}\");", o.id)); break;
        case k_now: line(in, sfmt("y = env.now(y) %% 1000; emit(\"${me} now %d ${y}\");", o.id)); break;
        case k_now_panic: line(in, sfmt("env.now_panic(%d);", o.id)); break;
        case k_spawn: line(in, sfmt("if (fuel > 0) { fuel -= 1; env.spawn(%d, x, body%d); emit(\"${me} spawned\"); }", target, target)); break;
        case k_finish: line(in, sfmt("env.finish(%d, x);", o.b)); break;
        case k_nested: line(in, "env.nested();"); break;
        case k_identity:
            line(in, sfmt("if (toks[%d] != null) { emit(\"${me} identity %d ${toks[%d].coroutine() == std.current_coroutine()} ${toks[%d] == std.coroutine_token()}\"); }",
                o.a, o.id, o.a, o.a));
            break;
        case k_stash: line(in, sfmt("emit(\"${me} known ${cos[me] == null || cos[me] == std.current_coroutine()} ${toks[%d] == toks[%d]}\");", o.a, o.b % slots)); break;
        case k_first_class: // the yielding function is called through a value and in the middle of an expression
            line(in, sfmt("{ const f = std.yield_coroutine; const keep = [x, y]; toks[%d] = std.coroutine_token(); emit(\"${me} f %d\"); const s = sum3(keep[0], num(f()), keep[1]); emit(\"${me} g %d ${s} ${x}\"); };",
                o.a, o.id, o.id));
            break;
        case k_gc: line(in, "env.collect();"); break;
        default: break;
        }
    }
    std::string program() {
        out = "import std;\nimport env;\nconst emit = env.emit;\nvar toks = [null, null, null];\nvar fuel = " + std::to_string(p.fuel)
              + ";\nvar ids = 0;\nconst cos = map{};\nfunc fresh() { ids += 1; return ids; }\nfunc num(v) { return if (v == null) { 0; } else { 100000; }; }\n"
                "func sum3(a, b, c) { return a + b + c; }\n";
        for (size_t i = 0; i < p.bodies.size(); ++i) {
            line(0, sfmt("export func body%zu(me, arg) {", i));
            line(1, "var x = arg; var y = 1;");
            line(1, sfmt("emit(\"${me} body%zu ${arg}\");", i));
            ops(p.bodies[i], 1, (int) i);
            line(1, "return x + y;");
            line(0, "}");
        }
        // completes with the identity of its coroutine
        line(0, "export func reset_state() { toks = [null, null, null]; fuel = " + std::to_string(p.fuel) + "; ids = 0; cos.clear(); }");
        return out;
    }
};

// ------------------------------------------------------------------------------------------------ model
struct Panic {
    std::string message;
};
struct Unspecified {};

struct Task {
    struct promise_type {
        std::coroutine_handle<> cont;
        std::exception_ptr ex;
        int value = 0;
        Task get_return_object() { return Task{std::coroutine_handle<promise_type>::from_promise(*this)}; }
        std::suspend_always initial_suspend() noexcept { return {}; }
        struct Final {
            bool await_ready() noexcept { return false; }
            std::coroutine_handle<> await_suspend(std::coroutine_handle<promise_type> h) noexcept {
                return h.promise().cont ? h.promise().cont : std::coroutine_handle<>(std::noop_coroutine());
            }
            void await_resume() noexcept {}
        };
        Final final_suspend() noexcept { return {}; }
        void return_value(int v) { value = v; }
        void unhandled_exception() { ex = std::current_exception(); }
    };
    std::coroutine_handle<promise_type> h;
    explicit Task(std::coroutine_handle<promise_type> x)
        : h(x) {}
    Task(Task&& o)
        : h(std::exchange(o.h, nullptr)) {}
    ~Task() {
        if (h) h.destroy();
    }
    // awaiting runs the task to completion
    bool await_ready() { return false; }
    std::coroutine_handle<> await_suspend(std::coroutine_handle<> c) {
        h.promise().cont = c;
        return h;
    }
    int await_resume() {
        if (h.promise().ex) std::rethrow_exception(h.promise().ex);
        return h.promise().value;
    }
};

struct Coro {
    int me = 0, body = 0, arg = 0;
    enum State { created, ready, running, waiting, done } state = created;
    u64 epoch = 0;
    bool token = false;    // a token exists for the current epoch
    bool in_async = false; // suspended in an asynchronous native function
    std::unique_ptr<Task> task;
    std::coroutine_handle<> leaf;
    bool panicked = false;
    int result = 0;
    std::string message;
    // host information
    bool host = false;
    int host_id = 0;
    int callbacks = 0;
};
struct Token {
    Coro* co = nullptr;
    u64 epoch = 0;
};
struct PendingWait {
    Coro* co;
    u64 epoch;
    int id;
    bool finished = false;
    bool panic = false;
    int value = 0;
    std::string message;
};

struct Stats {
    u64 yields = 0, resumes = 0, stale = 0, waits = 0, panics = 0, callbacks = 0, launches = 0, dispatches = 0, errors = 0, defers = 0;
};

struct Model {
    const Program& p;
    std::vector<std::string> log;
    std::vector<std::unique_ptr<Coro>> all;
    std::deque<Coro*> queue;
    Token toks[slots];
    std::map<int, Coro*> cos;
    int fuel, ids = 0, steps = 0;
    std::vector<PendingWait> waits;
    std::vector<Coro*> host;
    Coro* current = nullptr;
    bool running = false;
    Stats st;

    explicit Model(const Program& prog)
        : p(prog)
        , fuel(prog.fuel) {}

    void emit(std::string s) {
        log.push_back(std::move(s));
        if (log.size() > 1500) throw pbt::Discard{};
    }
    static std::string num(i64 v) { return std::to_string(v); }
    static std::string boolean(bool b) { return b ? "true" : "false"; }

    Coro* make(int body, int me, int arg) {
        all.push_back(std::make_unique<Coro>());
        Coro* c = all.back().get();
        c->body = body;
        c->me = me;
        c->arg = arg;
        return c;
    }
    void start(Coro* c) {
        c->state = Coro::ready;
        queue.push_back(c);
    }
    void make_ready(Coro* c) {
        ++c->epoch;
        c->token = false;
        c->state = Coro::ready;
        queue.push_back(c);
    }
    Token take_token() {
        current->token = true;
        return {current, current->epoch};
    }
    bool valid(const Token& t) { return t.co && t.co->token && t.co->epoch == t.epoch && t.co->state != Coro::done; }
    bool resume(const Token& t) {
        if (!valid(t) || t.co->state != Coro::waiting) {
            ++st.stale;
            return false;
        }
        if (t.co->in_async) throw pbt::Discard{}; // unspecified: a script token wakes a native function
        make_ready(t.co);
        ++st.resumes;
        return true;
    }

    struct Suspend {
        Model& m;
        bool await_ready() { return false; }
        void await_suspend(std::coroutine_handle<> h) { m.current->leaf = h; }
        void await_resume() {}
    };
    Suspend wait(bool async = false) {
        current->state = Coro::waiting;
        current->in_async = async;
        return Suspend{*this};
    }
    Suspend reschedule() {
        make_ready(current);
        return Suspend{*this};
    }

    struct Act {
        int me, x, y = 1;
    };
    enum Flow { normal = 0, returned = 1 };

    // 'final' describes the return statement at the end: none, x + y, or x + constant
    static constexpr int no_return = -2, sum_return = -1;
    Task block(const Ops& os, Act& a, int body, int& ret, int final = no_return) {
        std::vector<const Op*> defers;
        std::exception_ptr ex;
        int flow = normal;
        try {
            for (auto& o : os) {
                if (++steps > 4000) throw pbt::Discard{};
                if (o.kind == k_defer) {
                    defers.push_back(&o);
                    continue;
                }
                flow = co_await op(o, a, body, ret);
                if (flow != normal) break;
            }
            if (flow == normal && final != no_return) {
                ret = a.x + (final == sum_return ? a.y : final);
                flow = returned;
            }
        } catch (Panic&) { ex = std::current_exception(); }
        while (!defers.empty()) {
            const Op* d = defers.back();
            defers.pop_back();
            ++st.defers;
            int ignored = 0;
            co_await block(d->sub, a, body, ignored);
        }
        if (ex) std::rethrow_exception(ex);
        co_return flow;
    }

    Task call(int body, int me, int arg) {
        Act a{me, arg};
        emit(sfmt("%d body%d %d", me, body, arg));
        int ret = 0;
        co_await block(p.bodies[body], a, body, ret, sum_return);
        co_return ret;
    }

    Task op(const Op& o, Act& a, int body, int& ret) {
        int target = o.b % (int) p.bodies.size();
        std::string me = num(a.me) + " ";
        Token& slot = toks[o.a];
        switch (o.kind) {
        case k_emit: emit(me + sfmt("@%d %d %d", o.id, a.x, a.y)); break;
        case k_set:
            a.x = (a.x * 3 + a.y + o.b) % 1000;
            a.y += 1;
            break;
        case k_keep: slot = take_token(); break;
        case k_yield:
            ++st.yields;
            slot = take_token();
            emit(me + sfmt("yields %d", o.id));
            co_await wait();
            emit(me + sfmt("back %d %d %d", o.id, a.x, a.y));
            break;
        case k_sleep:
            ++st.yields;
            emit(me + sfmt("sleeps %d", o.id));
            co_await wait();
            emit(me + sfmt("awake %d %d %d", o.id, a.x, a.y));
            break;
        case k_resume:
            if (slot.co) {
                std::string s = me + sfmt("resume %d ", o.id) + boolean(valid(slot));
                s += " " + boolean(resume(slot));
                emit(s + " " + boolean(valid(slot)));
            }
            break;
        case k_valid:
            if (slot.co) emit(me + sfmt("valid %d ", o.id) + boolean(valid(slot)));
            break;
        case k_dispatch:
            ++st.dispatches;
            co_await reschedule();
            emit(me + sfmt("dispatched %d %d", o.id, a.x));
            break;
        case k_launch:
            if (fuel > 0) {
                --fuel;
                int id = ++ids;
                emit(me + sfmt("launches %d", id));
                Coro* c = make(target, id, a.x);
                cos[id] = c;
                start(c);
                a.x += 1;
                ++st.launches;
            }
            break;
        case k_call: {
            int t2 = body + 1 + o.b % ((int) p.bodies.size() - body - 1);
            int x = a.x; // the left operand is read first
            a.x = (x + co_await call(t2, a.me, a.y)) % 1000;
            break;
        }
        case k_catch: {
            int r2 = 0;
            bool ok = true;
            std::string message;
            try {
                co_await block(o.sub, a, body, r2, o.b);
            } catch (Panic& e) {
                ok = false;
                message = e.message;
            }
            if (ok) emit(me + sfmt("ok %d %d %d", o.id, r2, a.x));
            else emit(me + sfmt("panic %d %s %d", o.id, message.c_str(), a.x));
            break;
        }
        case k_panic: ++st.panics; throw Panic{sfmt("P%d %d", o.id, a.x)};
        case k_return:
            if (a.x % 2 == o.b % 2) {
                ret = a.x;
                co_return returned;
            }
            break;
        case k_loop:
            for (int i = 0; i < 1 + o.b % 3; ++i) {
                emit(me + sfmt("loop %d %d", o.id, i));
                int flow = co_await block(o.sub, a, body, ret);
                if (flow != normal) co_return flow;
            }
            break;
        case k_wait: {
            ++st.waits;
            int x = a.x;
            emit(sfmt("wait %d %d", a.me, x));
            Token t = take_token();
            size_t w = waits.size();
            waits.push_back({t.co, t.epoch, a.me});
            co_await wait(true);
            current->in_async = false;
            if (waits[w].panic) throw Panic{waits[w].message};
            a.x = (x + waits[w].value) % 1000;
            emit(me + sfmt("waited %d %d", o.id, a.x));
            break;
        }
        case k_now:
            a.y = (a.y + 7) % 1000;
            emit(me + sfmt("now %d %d", o.id, a.y));
            break;
        case k_now_panic: ++st.panics; throw Panic{sfmt("N%d", o.id)};
        case k_spawn:
            if (fuel > 0) {
                --fuel;
                spawn(target, a.x);
                emit(me + "spawned");
            }
            break;
        case k_finish: finish(o.b, a.x, "finish"); break;
        case k_nested:
            emit("nested run refused");
            ++st.errors;
            break;
        case k_identity:
            if (slot.co) {
                Token mine = take_token();
                emit(me + sfmt("identity %d ", o.id) + boolean(slot.co == current) + " " + boolean(slot.co == mine.co && slot.epoch == mine.epoch));
            }
            break;
        case k_stash: {
            Token &t1 = slot, &t2 = toks[o.b % slots];
            auto it = cos.find(a.me);
            emit(me + "known " + boolean(it == cos.end() || it->second == current) + " " + boolean(t1.co == t2.co && (!t1.co || t1.epoch == t2.epoch)));
            break;
        }
        case k_first_class: {
            ++st.yields;
            int x = a.x, y = a.y;
            slot = take_token();
            emit(me + sfmt("f %d", o.id));
            co_await wait();
            emit(me + sfmt("g %d %d %d", o.id, x + y, a.x));
            break;
        }
        default: break;
        }
        co_return normal;
    }

    void spawn(int body, int arg) {
        int n = (int) host.size();
        Coro* c = make(body, 1000 + n, arg);
        c->host = true;
        c->host_id = n;
        host.push_back(c);
        emit(sfmt("host %d starts", n));
        start(c);
    }
    // completes one of the pending calls; already completed ones report an error
    void finish(int which, int value, const char* who) {
        if (waits.empty()) {
            emit(std::string(who) + " nothing");
            return;
        }
        PendingWait& w = waits[which % waits.size()];
        std::string s = sfmt("%s %d %d: ", who, which % (int) waits.size(), w.id);
        if (w.finished || w.co->state != Coro::waiting || w.co->epoch != w.epoch) {
            emit(s + "refused");
            ++st.errors;
            return;
        }
        w.finished = true;
        w.panic = value % 4 == 3;
        w.value = value;
        w.message = sfmt("W%d", value);
        emit(s + (w.panic ? "panic" : "value"));
        make_ready(w.co);
    }
    void run() {
        while (!queue.empty()) {
            Coro* c = queue.front();
            queue.pop_front();
            current = c;
            c->state = Coro::running;
            if (!c->task) {
                c->task = std::make_unique<Task>(call(c->body, c->me, c->arg));
                c->leaf = c->task->h;
            }
            c->leaf.resume();
            if (c->task->h.done()) {
                c->state = Coro::done;
                c->token = false;
                try {
                    c->result = c->task->await_resume();
                } catch (Panic& e) {
                    c->panicked = true;
                    c->message = e.message;
                }
            }
            current = nullptr;
            if (c->state == Coro::done && c->host) {
                ++c->callbacks;
                ++st.callbacks;
                emit(sfmt("done %d ", c->host_id) + (c->panicked ? "panic " + c->message : num(c->result)));
                switch (p.callback_action[c->host_id % 7]) {
                case 1:
                    if (fuel_host > 0) {
                        --fuel_host;
                        spawn(c->host_id % (int) p.bodies.size(), 5);
                    }
                    break;
                case 2: finish(c->host_id, c->host_id, "callback finish"); break;
                case 3:
                    emit("nested run refused");
                    ++st.errors;
                    break;
                default: break;
                }
                emit(sfmt("cleanup %d", c->host_id));
            }
        }
    }
    int fuel_host = 6;
    std::string state_line() {
        std::string s = "state";
        for (auto* c : host) {
            s += c->state == Coro::created ? " new" : c->state == Coro::done ? " done" : " started";
            if (c->state == Coro::done) s += c->panicked ? "(panic " + c->message + ")" : sfmt("(%d)", c->result);
        }
        return s + (queue.empty() ? "" : " ready");
    }
};

// ------------------------------------------------------------------------------------------------ the real thing
struct Real {
    const Program& p;
    struct Hosted {
        Real* r;
        int n;
        int callbacks = 0, cleanups = 0;
    };
    std::vector<std::unique_ptr<Hosted>> hosted;
    Vm vm;
    std::vector<tiro_async_token_t> tokens;
    std::vector<int> token_ids;
    std::vector<H> host;
    std::vector<H> bodies;
    int fuel_host = 6;
    static Real& of(tiro_vm_t v) { return *(Real*) Vm::of(v).user; }

    explicit Real(const Program& prog, const Compiled& m, size_t page)
        : p(prog)
        , vm(64u << 20, page) {
        vm.user = this;
        load_members();
        vm.load(m);
        for (size_t i = 0; i < p.bodies.size(); ++i) bodies.push_back(vm.get_export("main", sfmt("body%zu", i)));
    }
    H async_function(const char* name, tiro_async_function_t f, size_t argc) {
        H n = vm.string(name), r(vm);
        MUST(tiro_make_async_function(vm, n, f, argc, nullptr, r, must));
        return r;
    }
    void load_members() {
        std::vector<std::pair<std::string, H>> r;
        r.emplace_back("wait", async_function("wait", [](tiro_vm_t v, tiro_async_frame_t f) {
            Real& s = of(v);
            H id(v), x(v);
            MUST(tiro_async_frame_arg(f, 0, id, must));
            MUST(tiro_async_frame_arg(f, 1, x, must));
            int me = (int) tiro_integer_value(v, id);
            s.vm.log.push_back(sfmt("wait %d %d", me, (int) tiro_integer_value(v, x)));
            Must must("tiro_async_frame_token");
            s.tokens.push_back(tiro_async_frame_token(f, must));
            s.token_ids.push_back(me);
            MUST(tiro_async_frame_yield(f, must));
        }, 2));
        r.emplace_back("now", async_function("now", [](tiro_vm_t v, tiro_async_frame_t f) {
            H x(v), y(v);
            MUST(tiro_async_frame_arg(f, 0, x, must));
            MUST(tiro_make_integer(v, tiro_integer_value(v, x) + 7, y, must));
            MUST(tiro_async_frame_return_value(f, y, must));
        }, 1));
        r.emplace_back("now_panic", async_function("now_panic", [](tiro_vm_t v, tiro_async_frame_t f) {
            H x(v);
            MUST(tiro_async_frame_arg(f, 0, x, must));
            std::string s = sfmt("N%d", (int) tiro_integer_value(v, x));
            MUST(tiro_async_frame_panic_msg(f, ts(s), must));
        }, 1));
        r.emplace_back("spawn", vm.sync_function("spawn", [](tiro_vm_t v, tiro_sync_frame_t f) {
            H b(v), x(v), fn(v);
            MUST(tiro_sync_frame_arg(f, 0, b, must));
            MUST(tiro_sync_frame_arg(f, 1, x, must));
            MUST(tiro_sync_frame_arg(f, 2, fn, must));
            of(v).spawn(fn, (int) tiro_integer_value(v, x));
        }, 3));
        r.emplace_back("finish", vm.sync_function("finish", [](tiro_vm_t v, tiro_sync_frame_t f) {
            H a(v), x(v);
            MUST(tiro_sync_frame_arg(f, 0, a, must));
            MUST(tiro_sync_frame_arg(f, 1, x, must));
            of(v).finish((int) tiro_integer_value(v, a), (int) tiro_integer_value(v, x), "finish");
        }, 2));
        r.emplace_back("nested", vm.sync_function("nested", [](tiro_vm_t v, tiro_sync_frame_t) { of(v).nested(); }, 0));
        r.emplace_back("collect", vm.sync_function("collect", [](tiro_vm_t v, tiro_sync_frame_t) { of(v).collect(); }, 0));
        vm.load_env_with(r);
    }
    void nested() {
        Err e;
        tiro_vm_run_ready(vm, e);
        vm.log.push_back(e.ok() ? "nested run accepted" : "nested run refused");
    }
    void collect() {
        auto old = tiro::vm::verif_alloc_hook;
        tiro::vm::verif_alloc_hook = [](tiro::vm::Heap&, size_t) { return tiro::vm::VerifAllocAction::Collect; };
        H x = vm.flt(1.5);
        tiro::vm::verif_alloc_hook = old;
    }
    void spawn(tiro_handle_t fn, int arg) {
        int n = (int) host.size();
        H me = vm.integer(1000 + n), a = vm.integer(arg), args = vm.tuple({me, a}), co(vm);
        MUST(tiro_make_coroutine(vm, fn, args, co, must));
        hosted.push_back(std::make_unique<Hosted>(Hosted{this, n}));
        MUST(tiro_coroutine_set_callback(
            vm, co,
            [](tiro_vm_t, tiro_handle_t c, void* u) {
                auto* h = (Hosted*) u;
                h->r->done(c, *h);
            },
            [](void* u) {
                auto* h = (Hosted*) u;
                ++h->cleanups;
                if (!h->r->closing) h->r->vm.log.push_back(sfmt("cleanup %d", h->n));
            },
            hosted.back().get(), must));
        vm.log.push_back(sfmt("host %d starts", n));
        if (tiro_coroutine_started(vm, co)) throw pbt::Fail{"a new coroutine claims to be started"};
        MUST(tiro_coroutine_start(vm, co, must));
        Err e;
        tiro_coroutine_start(vm, co, e);
        if (e.code() != TIRO_ERROR_BAD_STATE) throw pbt::Fail{"starting a coroutine twice is not reported: " + e.text()};
        host.push_back(std::move(co));
    }
    bool closing = false;
    void done(tiro_handle_t co, Hosted& h) {
        ++h.callbacks;
        vm.log.push_back(sfmt("done %d ", h.n) + result(co));
        Err e;
        tiro_coroutine_start(vm, co, e);
        if (e.code() != TIRO_ERROR_BAD_STATE) throw pbt::Fail{"starting a completed coroutine is not reported: " + e.text()};
        switch (p.callback_action[h.n % 7]) {
        case 1:
            if (fuel_host > 0) {
                --fuel_host;
                spawn(bodies[h.n % bodies.size()], 5);
            }
            break;
        case 2: finish(h.n, h.n, "callback finish"); break;
        case 3: nested(); break;
        default: break;
        }
    }
    std::string result(tiro_handle_t co) {
        auto r = vm.result_of(co);
        return r.kind == CallResult::success ? vm.show(r.value) : "panic " + r.message;
    }
    void finish(int which, int value, const char* who) {
        if (tokens.empty()) {
            vm.log.push_back(std::string(who) + " nothing");
            return;
        }
        size_t i = which % tokens.size();
        std::string s = sfmt("%s %d %d: ", who, (int) i, token_ids[i]);
        bool panic = value % 4 == 3;
        Err e;
        if (panic) {
            std::string m = sfmt("W%d", value);
            tiro_async_token_panic_msg(tokens[i], ts(m), e);
        } else {
            H v = vm.integer(value);
            tiro_async_token_return_value(tokens[i], v, e);
        }
        vm.log.push_back(s + (!e.ok() ? "refused" : panic ? "panic" : "value"));
    }
    std::string state_line() {
        std::string s = "state";
        for (auto& c : host) {
            bool started = tiro_coroutine_started(vm, c), completed = tiro_coroutine_completed(vm, c);
            s += !started ? " new" : completed ? " done" : " started";
            if (completed) {
                std::string r = result(c);
                s += r.rfind("panic", 0) == 0 ? "(" + r + ")" : "(" + r + ")";
            } else {
                Err e;
                H r(vm);
                tiro_coroutine_result(vm, c, r, e);
                if (e.code() != TIRO_ERROR_BAD_STATE) throw pbt::Fail{"the result of an incomplete coroutine is not an error: " + e.text()};
            }
        }
        return s + (tiro_vm_has_ready(vm) ? " ready" : "");
    }
};

void compare(Case& c, const std::vector<std::string>& got, const std::vector<std::string>& want, const char* when) {
    for (size_t i = 0; i < std::max(got.size(), want.size()); ++i) {
        std::string a = i < got.size() ? got[i] : "<end>", b = i < want.size() ? want[i] : "<end>";
        if (a != b) {
            std::string before;
            for (size_t k = i > 6 ? i - 6 : 0; k < i; ++k) before += "\n    " + want[k];
            c.fail(sfmt("%s, event %zu: ", when, i) + a + ", expected " + b + "\n  preceding events:" + before);
        }
    }
}

void histories(Case& c) {
    Program p;
    Gen g{c.t, p};
    g.budget = 12 + (int) c.t.below(60);
    p.fuel = (int) c.t.below(14);
    g.program();
    size_t page = 1u << (16 + c.t.below(5));
    bool keep_tokens = c.t.chance(1, 3);
    std::string src = Printer{p}.program();
    c.describe(src);
    Model m(p);
    // the model first: some programs are not specified
    std::vector<std::string> host_text;
    std::vector<std::pair<size_t, std::string>> states;
    auto perform = [&](auto&& spawn, auto&& run, auto&& finish, auto&& collect, auto&& other) {
        for (auto& h : p.host) {
            switch (h.kind) {
            case 0: spawn(h.a % (int) p.bodies.size(), h.b); break;
            case 1: run(); break;
            case 2: finish(h.a, h.b); break;
            case 3: finish(h.a, h.b * 4 + 3); break;
            case 4:
                finish(h.a, h.b);
                run();
                break;
            case 5: collect(); break;
            default: break;
            }
            other();
        }
        run();
        other();
    };
    perform([&](int b, int x) { m.spawn(b, x); }, [&] { m.run(); }, [&](int w, int v) { m.finish(w, v, "host finish"); }, [] {}, [&] { m.emit(m.state_line()); });
    static const char* host_names[] = {"start", "run", "finish", "finish with panic", "finish and run", "collect", "-", "-"};
    std::string hs = "host operations:";
    for (auto& h : p.host) hs += sfmt(" %s(%d,%d)", host_names[h.kind], h.a, h.b);
    hs += "\ncallback actions:";
    for (int a : p.callback_action) hs += sfmt(" %d", a);
    c.add(hs);

    auto mod = compile("main", src);
    if (!mod.ok()) c.fail("program rejected: " + mod.errors());
    auto real = std::make_unique<Real>(p, mod, page);
    Real& r = *real;
    auto run = [&] { MUST(tiro_vm_run_ready(r.vm, must)); };
    perform([&](int b, int x) { r.spawn(r.bodies[b], x); }, run, [&](int w, int v) { r.finish(w, v, "host finish"); }, [&] { r.collect(); },
        [&] { r.vm.log.push_back(r.state_line()); });
    compare(c, r.vm.log, m.log, "scheduling");
    for (size_t i = 0; i < m.host.size(); ++i)
        if (r.hosted[i]->callbacks != m.host[i]->callbacks)
            c.fail(sfmt("the callback of coroutine %zu ran %d times, expected %d", i, r.hosted[i]->callbacks, m.host[i]->callbacks));
    if (!keep_tokens)
        for (auto t : r.tokens) tiro_async_token_free(t);
    r.closing = true;
    auto hosted = std::move(r.hosted);
    r.host.clear();
    r.bodies.clear();
    r.vm.close();
    for (auto& h : hosted)
        if (h->cleanups != 1) c.fail(sfmt("the cleanup function of coroutine %d ran %d times", h->n, h->cleanups));
    auto& s = m.st;
    c.count("yields", s.yields);
    c.count("resumed by token", s.resumes);
    c.count("refused resumptions", s.stale);
    c.count("native waits", s.waits);
    c.count("callbacks", s.callbacks);
    c.count("launches", s.launches);
    c.count("dispatches", s.dispatches);
    c.count("reported errors", s.errors);
    c.count("panics", s.panics);
    c.count("deferred blocks", s.defers);
    c.nontrivial = s.resumes + s.dispatches >= 1 && m.all.size() >= 2;
    real.reset();
}

// ------------------------------------------------------------------------------------------------ crowds
// Many coroutines at once, suspended at any depth of their (growing) stacks, woken in any order, several rounds each. The
// expected events follow from the order of the wake-ups alone. All events of one run see one loop timestamp.
struct Crowd {
    struct Member {
        int depth, rounds, variant, ending; // ending: 0 returns, 1 panics, 2 panics and is caught at depth / 2
        bool native;                        // suspended in a native function
        int done_rounds = 0;
        bool ready = true, finished = false;
    };
    std::vector<Member> members;
    std::vector<std::string> log;
    std::vector<i64> stamps;
    std::map<int, tiro_async_token_t> tokens;
};

constexpr int crowd_variants = 4;
std::string crowd_source(const std::vector<int>& locals) {
    std::string s = "import std;\nimport env;\nconst toks = map{};\n";
    for (int v = 0; v < crowd_variants; ++v) {
        std::string vs, sum;
        for (int i = 0; i < locals[v]; ++i) {
            vs += sfmt("    const l%d = a * %d + n;\n", i, i + 2);
            sum += sfmt(" + l%d", i);
        }
        s += sfmt("func dive%d(n, a, me, rounds, ending, half) {\n", v) + vs
             + sfmt("    if (n == 0) { return bottom(a, me, rounds, ending); }\n"
                    "    if (ending == 2 && n == half) {\n"
                    "        const c = std.catch_panic(func() = dive%d(n - 1, a + 1, me, rounds, ending, half));\n"
                    "        return (if (c.is_error()) { env.emit(me, \"caught\", c.error().message()); 7; } else { c.value(); })%s;\n    }\n"
                    "    const r = dive%d(n - 1, a + 1, me, rounds, ending, half);\n    return (r%s) %% 1000003;\n}\n",
                 (v + 1) % crowd_variants, sum.c_str(), (v + 1) % crowd_variants, sum.c_str());
    }
    s += R"(
func bottom(a, me, rounds, ending) {
    var s = a;
    for var i = 0; i < rounds; i += 1 {
        env.emit(me, "sleeps", i);
        if (env.is_native(me)) { s += env.wait(me); } else { toks[me] = std.coroutine_token(); std.yield_coroutine(); s += 1; }
        s += i;
        env.emit(me, "wakes", s);
    }
    if (ending != 0) { std.panic("${me}: ${s}"); }
    return s;
}
export func member(me, variant, depth, rounds, ending) {
    env.emit(me, "starts", std.loop_timestamp());
    const half = if (depth > 1) { depth - depth / 2; } else { 0; };
    if (variant == 0) { return dive0(depth, me, me, rounds, ending, half); }
    if (variant == 1) { return dive1(depth, me, me, rounds, ending, half); }
    if (variant == 2) { return dive2(depth, me, me, rounds, ending, half); }
    return dive3(depth, me, me, rounds, ending, half);
}
export func launcher(list) {
    for x in list { std.launch(member, x[0], x[1], x[2], x[3], x[4]); }
    env.emit(-1, "launched", null);
}
export func waker(list) {
    const r = [];
    for me in list { r.append(toks[me].resume()); }
    return r;
}
)";
    return s;
}

void crowds(Case& c) {
    Crowd w;
    size_t n = 2 + c.t.size(c.t.chance(1, 30) ? 1200 : 40);
    std::vector<int> locals(crowd_variants);
    for (int& l : locals) l = (int) c.t.weighted({4, 2, 2, 1}) * 3 + (int) c.t.below(3);
    if (c.t.chance(1, 12)) locals[c.t.below(crowd_variants)] = 20 + (int) c.t.below(200);
    size_t budget = c.t.chance(1, 25) ? 40000 : 4000; // of frames
    for (size_t i = 0; i < n; ++i) {
        Crowd::Member m;
        m.depth = (int) (c.t.chance(1, 8) ? c.t.below(3000) : c.t.chance(1, 3) ? c.t.below(200) : c.t.below(12));
        if ((size_t) m.depth > budget) m.depth = (int) budget;
        budget -= m.depth;
        m.rounds = (int) c.t.below(4);
        m.variant = (int) c.t.below(crowd_variants);
        m.ending = (int) c.t.weighted({4, 1, 1});
        m.native = c.t.chance(1, 3);
        w.members.push_back(m);
    }
    bool script_launch = c.t.chance(1, 2);
    std::string src = crowd_source(locals);
    std::string text = sfmt("%zu members%s, locals %d %d %d %d\n", n, script_launch ? " launched by a script" : "", locals[0], locals[1], locals[2], locals[3]);
    for (size_t i = 0; i < n && i < 40; ++i)
        text += sfmt(" (depth %d, rounds %d, variant %d, ending %d%s)", w.members[i].depth, w.members[i].rounds, w.members[i].variant, w.members[i].ending,
            w.members[i].native ? ", native" : "");
    c.describe(text);

    // what a member computes
    auto bottom = [&](size_t me, int rounds) { // the value of s after so many rounds
        auto& m = w.members[me];
        i64 s = (i64) me + m.depth;
        for (int i = 0; i < rounds; ++i) s += (m.native ? 10 : 1) + i;
        return s;
    };
    auto climb = [&](size_t me, i64 r, int from) { // returns through the levels 'from' .. depth
        auto& m = w.members[me];
        for (int l = from; l <= m.depth; ++l) {
            i64 a = (i64) me + (m.depth - l);
            int v = (m.variant + (m.depth - l)) % crowd_variants;
            i64 sum = 0;
            for (int i = 0; i < locals[v]; ++i) sum += a * (i + 2) + l;
            bool catching = m.ending == 2 && l == (m.depth > 1 ? m.depth - m.depth / 2 : 0);
            r = catching ? r + sum : (r + sum) % 1000003;
        }
        return r;
    };
    std::vector<std::string> want;
    std::map<size_t, std::string> results;
    auto to_next = [&](size_t me) { // sleeps again or ends
        auto& m = w.members[me];
        if (m.done_rounds < m.rounds) {
            want.push_back(sfmt("%zu sleeps %d", me, m.done_rounds));
            m.ready = false;
            return;
        }
        m.finished = true;
        m.ready = false;
        std::string msg = sfmt("%zu: %lld", me, (long long) bottom(me, m.rounds));
        int half = m.depth > 1 ? m.depth - m.depth / 2 : 0;
        if (m.ending == 0) results[me] = std::to_string(climb(me, bottom(me, m.rounds), 1));
        else if (m.ending == 2 && half > 0) {
            want.push_back(sfmt("%zu caught ", me) + msg);
            results[me] = std::to_string(climb(me, 7, half));
        } else results[me] = "panic " + msg;
        if (!script_launch) want.push_back(sfmt("%zu done ", me) + results[me]);
    };

    auto t_new = std::chrono::steady_clock::now();
    Vm vm(256u << 20, 1u << (16 + c.t.below(5)));
    auto t_new_end = std::chrono::steady_clock::now();
    vm.user = &w;
    std::vector<std::pair<std::string, H>> env;
    env.emplace_back("emit", vm.sync_function("emit", [](tiro_vm_t v, tiro_sync_frame_t f) {
        auto& w = *(Crowd*) Vm::of(v).user;
        H a(v), b(v), x(v);
        MUST(tiro_sync_frame_arg(f, 0, a, must));
        MUST(tiro_sync_frame_arg(f, 1, b, must));
        MUST(tiro_sync_frame_arg(f, 2, x, must));
        auto& vm = Vm::of(v);
        std::string what = vm.text(b), s = std::to_string(tiro_integer_value(v, a)) + " " + what;
        if (what == "starts") {
            w.stamps.push_back(tiro_integer_value(v, x));
            w.log.push_back(s);
        } else w.log.push_back(s + " " + (tiro_value_kind(v, x) == TIRO_KIND_STRING ? vm.text(x) : vm.show(x)));
    }, 3));
    env.emplace_back("is_native", vm.sync_function("is_native", [](tiro_vm_t v, tiro_sync_frame_t f) {
        H a(v);
        MUST(tiro_sync_frame_arg(f, 0, a, must));
        H r = Vm::of(v).boolean(((Crowd*) Vm::of(v).user)->members[(size_t) tiro_integer_value(v, a)].native);
        MUST(tiro_sync_frame_return_value(f, r, must));
    }, 1));
    H wait_name = vm.string("wait"), wait(vm);
    MUST(tiro_make_async_function(vm, wait_name,
        [](tiro_vm_t v, tiro_async_frame_t f) {
            H a(v);
            MUST(tiro_async_frame_arg(f, 0, a, must));
            Must must("tiro_async_frame_token");
            auto& slot = ((Crowd*) Vm::of(v).user)->tokens[(int) tiro_integer_value(v, a)];
            if (slot) tiro_async_token_free(slot);
            slot = tiro_async_frame_token(f, must);
            MUST(tiro_async_frame_yield(f, must));
        },
        1, nullptr, wait, must));
    env.emplace_back("wait", std::move(wait));
    vm.load_env_with(env);
    env.clear();
    auto mod = compile("main", src);
    if (!mod.ok()) c.fail("program rejected: " + mod.errors());
    vm.load(mod);
    H member = vm.get_export("main", "member"), launcher = vm.get_export("main", "launcher"), waker = vm.get_export("main", "waker");
    i64 last_stamp = -1;
    auto run = [&](const char* when) {
        w.stamps.clear();
        auto before = std::chrono::steady_clock::now();
        MUST(tiro_vm_run_ready(vm, must));
        auto after = std::chrono::steady_clock::now();
        compare(c, w.log, want, when);
        w.log.clear();
        want.clear();
        for (i64 s : w.stamps) {
            if (s != w.stamps[0]) c.fail(sfmt("%s: the loop timestamp changes from %lld to %lld within a run", when, (long long) w.stamps[0], (long long) s));
            auto ms = [](auto d) { return (i64) std::chrono::duration_cast<std::chrono::milliseconds>(d).count(); };
            i64 lo = ms(before - t_new_end) - 2, hi = ms(after - t_new) + 2;
            if (s < lo || s > hi) c.fail(sfmt("%s: the loop timestamp is %lld, the machine is between %lld and %lld ms old", when, (long long) s, (long long) lo, (long long) hi));
            if (s < last_stamp) c.fail(sfmt("%s: the loop timestamp goes back from %lld to %lld", when, (long long) last_stamp, (long long) s));
        }
        if (!w.stamps.empty()) last_stamp = w.stamps[0];
        if (tiro_vm_has_ready(vm)) c.fail(sfmt("%s: coroutines are ready after the run", when));
    };
    struct Hosted {
        Crowd* w;
        size_t me;
    };
    std::vector<std::unique_ptr<Hosted>> hosted;
    std::vector<H> handles;
    auto arguments = [&](size_t i) {
        auto& m = w.members[i];
        H a = vm.integer((i64) i), b = vm.integer(m.variant), d = vm.integer(m.depth), e = vm.integer(m.rounds), f = vm.integer(m.ending);
        return vm.tuple({a, b, d, e, f});
    };
    if (script_launch) {
        H list(vm);
        MUST(tiro_make_array(vm, n, list, must));
        for (size_t i = 0; i < n; ++i) {
            H a = arguments(i);
            MUST(tiro_array_push(vm, list, a, must));
        }
        H args = vm.tuple({list}), co(vm);
        MUST(tiro_make_coroutine(vm, launcher, args, co, must));
        MUST(tiro_coroutine_start(vm, co, must));
        want.push_back("-1 launched null");
    } else {
        for (size_t i = 0; i < n; ++i) {
            H args = arguments(i), co(vm);
            MUST(tiro_make_coroutine(vm, member, args, co, must));
            hosted.push_back(std::make_unique<Hosted>(Hosted{&w, i}));
            MUST(tiro_coroutine_set_callback(
                vm, co,
                [](tiro_vm_t v, tiro_handle_t co, void* u) {
                    auto* h = (Hosted*) u;
                    auto r = Vm::of(v).result_of(co);
                    h->w->log.push_back(sfmt("%zu done ", h->me) + (r.kind == CallResult::success ? Vm::of(v).show(r.value) : "panic " + r.message));
                },
                nullptr, hosted.back().get(), must));
            MUST(tiro_coroutine_start(vm, co, must));
        }
    }
    for (size_t i = 0; i < n; ++i) {
        want.push_back(sfmt("%zu starts", i));
        to_next(i);
    }
    run("the first run");
    pbt::u64 wakes = 0, rounds = 0;
    for (int round = 0; round < 14; ++round) {
        std::vector<size_t> sleeping;
        for (size_t i = 0; i < n; ++i)
            if (!w.members[i].finished) sleeping.push_back(i);
        if (sleeping.empty()) break;
        ++rounds;
        // a random selection of them in a random order; some are asked for twice
        std::vector<size_t> order;
        bool everyone = round >= 8 || c.t.chance(1, 3);
        for (size_t k = sleeping.size(); k > 0; --k) {
            size_t j = c.t.below(k);
            if (everyone || c.t.chance(2, 3)) order.push_back(sleeping[j]);
            sleeping[j] = sleeping[k - 1];
        }
        bool by_script = c.t.chance(1, 2);
        std::string expected, list_text;
        H list(vm);
        MUST(tiro_make_array(vm, 0, list, must));
        std::vector<size_t> woken;
        if (by_script) { // the script first runs, then the ones it woke; the native ones were completed by the host before
            std::vector<size_t> script;
            for (size_t me : order) {
                if (w.members[me].native) {
                    H v = vm.integer(10);
                    MUST(tiro_async_token_return_value(w.tokens[(int) me], v, must));
                    woken.push_back(me);
                } else script.push_back(me);
            }
            for (size_t me : script) {
                H v = vm.integer((i64) me);
                MUST(tiro_array_push(vm, list, v, must));
                expected += expected.empty() ? "true" : ", true";
                if (me % 3 == 0) {
                    MUST(tiro_array_push(vm, list, v, must));
                    expected += ", false";
                }
                woken.push_back(me);
            }
            H args = vm.tuple({list}), co(vm);
            MUST(tiro_make_coroutine(vm, waker, args, co, must));
            MUST(tiro_coroutine_start(vm, co, must));
            for (size_t me : woken) {
                auto& m = w.members[me];
                ++m.done_rounds;
                want.push_back(sfmt("%zu wakes %lld", me, (long long) bottom(me, m.done_rounds)));
                to_next(me);
            }
            run(sfmt("round %d", round).c_str());
            auto r = vm.result_of(co);
            std::string got = r.kind == CallResult::success ? vm.show(r.value) : "panic " + r.message;
            if (got != "[" + expected + "]") c.fail(sfmt("round %d: the resumptions report ", round) + got + ", expected [" + expected + "]");
        } else { // only the native ones can be woken by the host
            for (size_t me : order)
                if (w.members[me].native) {
                    H v = vm.integer(10);
                    MUST(tiro_async_token_return_value(w.tokens[(int) me], v, must));
                    Err e;
                    tiro_async_token_return_value(w.tokens[(int) me], v, e);
                    if (e.ok()) c.fail(sfmt("round %d: member %zu was completed twice", round, me));
                    woken.push_back(me);
                }
            for (size_t me : woken) {
                auto& m = w.members[me];
                ++m.done_rounds;
                want.push_back(sfmt("%zu wakes %lld", me, (long long) bottom(me, m.done_rounds)));
                to_next(me);
            }
            run(sfmt("round %d", round).c_str());
        }
        wakes += woken.size();
        for (size_t me : woken)
            if (w.members[me].native && w.members[me].finished) {
                tiro_async_token_free(w.tokens[(int) me]);
                w.tokens.erase((int) me);
            }
    }
    for (auto& [me, t] : w.tokens) tiro_async_token_free(t);
    c.count("crowd wake-ups", wakes);
    c.label("a crowd of more than 200", n > 200);
    c.nontrivial = wakes >= 2 && rounds >= 1;
}

} // namespace

int main(int argc, char** argv) {
    pbt::Runner r("C09", "at least two coroutines of which one was resumed after a suspension", {
        Suite{"histories", 8000, 500000, histories},
        Suite{"crowds", 700, 60000, crowds},
    });
    return r.main(argc, argv);
}
