// C15: native functions. Generated programs call generated native functions (synchronous, asynchronous and resumable);
// everything the native functions and their callers see is compared with a model. Asynchronous calls are completed in a
// generated order.
#include "pbt.hpp"
#include "tiro_util.hpp"
#include "vm/heap/heap.hpp"

#include <climits>

using namespace tu;
using pbt::Case;
using pbt::Suite;
using pbt::Tape;

namespace {

// ------------------------------------------------------------------------------------------------ model values
struct Val;
using V = std::shared_ptr<Val>;
struct Val {
    enum Kind { null, boolean, integer, real, string, tuple } kind = null;
    i64 i = 0;
    f64 d = 0;
    std::string s;
    std::vector<V> items;
    // same format as Vm::show
    std::string show() const {
        switch (kind) {
        case null: return "null";
        case boolean: return i ? "true" : "false";
        case integer: return sfmt("%lld", (long long) i);
        case real: return sfmt("%a", d);
        case string: return "\"" + s + "\"";
        default: {
            std::string r = "(";
            for (size_t k = 0; k < items.size(); ++k) r += (k ? ", " : "") + items[k]->show();
            return r + ")";
        }
        }
    }
    std::string source() const {
        switch (kind) {
        case integer: return i < 0 ? sfmt("(-%lld)", -(long long) i) : sfmt("%lld", (long long) i);
        case real: return sfmt("%.4f", d);
        case tuple: {
            std::string r = "(";
            for (auto& x : items) r += x->source() + ", ";
            return r + ")";
        }
        default: return show();
        }
    }
};
V mk(Val::Kind k) {
    auto v = std::make_shared<Val>();
    v->kind = k;
    return v;
}
V mk_int(i64 i) {
    auto v = mk(Val::integer);
    v->i = i;
    return v;
}
V mk_str(std::string s) {
    auto v = mk(Val::string);
    v->s = std::move(s);
    return v;
}
V mk_tuple(std::vector<V> items) {
    auto v = mk(Val::tuple);
    v->items = std::move(items);
    return v;
}
V gen_val(Tape& t, int depth = 0) {
    switch (t.weighted({4, 2, 3, 1, 1, depth < 2 ? 2u : 0u})) {
    case 0: return mk_int(t.range(0, 99));
    case 1: return mk_int(t.pick({i64(4611686018427387904), i64(-1), i64(1) << 62, INT64_MAX, i64(1000000)}));
    case 2: return mk_str(sfmt("s%d", (int) t.below(50)));
    case 3: {
        auto v = mk(Val::real);
        v->d = (f64) t.below(64) / 4;
        return v;
    }
    case 4: return t.chance(1, 2) ? mk(Val::null) : [&] {
        auto v = mk(Val::boolean);
        v->i = t.below(2);
        return v;
    }();
    default: {
        std::vector<V> items;
        size_t n = t.below(4);
        for (size_t i = 0; i < n; ++i) items.push_back(gen_val(t, depth + 1));
        return mk_tuple(items);
    }
    }
}

// ------------------------------------------------------------------------------------------------ native functions
// The first argument of every native function is the number of the coroutine it runs in.
struct Source { // where a native function takes a value from
    enum Kind { literal, arg, all_args, local, invoked, closure, count } kind = literal;
    int index = 0;
    V value;
};
struct Action {
    enum Kind { set_local, log, collect } kind;
    int index = 0;
    Source src;
};
struct Step { // one invocation of a resumable function
    std::vector<Action> actions;
    enum End { ret, panic, invoke, go, finish, ret_nothing } end = ret;
    Source src;
    int target = 0;  // invoke: index of a function, see Spec
    int next = 0;    // invoke, go: index of the next step
    std::vector<Source> args;
    int fallthrough = 0;
};
struct Spec {
    enum Kind { sync, async_now, async_later, resumable, token_unused } kind = sync;
    int argc = 0, locals = 0;
    V closure; // null pointer: none given
    std::vector<Step> steps; // one for functions that are not resumable
    std::vector<int> states; // numbers of the states
    int number = 0;
};
// script functions that can be invoked by resumable functions; they follow the native functions in numbering
enum Script { sc_echo, sc_boom, sc_wait, sc_pair, sc_catch, sc_none, sc_COUNT };

struct Node { // an expression
    enum Kind { literal, call, wrapped, catching, too_few, launched } kind = literal;
    V value;
    int fn = 0;
    int form = 0;
    int me = 0; // launched: number of the new coroutine
    std::vector<Node> args;
};
struct Program {
    std::vector<Spec> fns;
    std::vector<std::vector<Node>> mains; // statements of each coroutine
};

struct Gen {
    Tape& t;
    Program& p;
    int budget = 40;
    int next_launch = 0;

    Source source(const Spec& s, int argc) {
        Source r;
        r.kind = (Source::Kind) t.weighted({3, 4, 2, s.locals ? 4u : 0u, s.kind == Spec::resumable ? 4u : 0u, 2, 1});
        r.index = (int) t.below(std::max(1, r.kind == Source::local ? s.locals : argc));
        if (r.kind == Source::literal) r.value = gen_val(t);
        return r;
    }
    Step step(const Spec& s, size_t nsteps) {
        Step r;
        int argc = s.argc + 1;
        size_t n = t.below(3);
        for (size_t i = 0; i < n; ++i) {
            Action a;
            a.kind = (Action::Kind) t.weighted({s.locals ? 4u : 0u, 3, 1});
            a.index = (int) t.below(std::max(1, s.locals));
            a.src = source(s, argc);
            r.actions.push_back(a);
        }
        if (s.kind == Spec::resumable) r.end = (Step::End) t.weighted({4, 1, 8, 4, 1, 1});
        else r.end = (Step::End) t.weighted({8, 2, 0, 0, 0, 1});
        r.src = source(s, argc);
        if (r.end == Step::invoke) {
            r.target = (int) t.below(p.fns.size() + sc_COUNT);
            size_t want = r.target < (int) p.fns.size() ? p.fns[r.target].argc + t.below(3) : 2;
            if (r.target < (int) p.fns.size() && t.chance(1, 16)) want = t.below(3);
            for (size_t i = 0; i < want; ++i) r.args.push_back(source(s, argc));
            if (want) {
                r.args[0] = {};
                r.args[0].kind = Source::arg;
            }
        }
        r.next = nsteps > 1 ? 1 + (int) t.below(nsteps - 1) : 0;
        return r;
    }
    void functions() {
        size_t n = 2 + t.below(5);
        p.fns.resize(n);
        for (size_t i = 0; i < n; ++i) {
            Spec& s = p.fns[i];
            s.number = (int) i;
            s.kind = (Spec::Kind) t.weighted({3, 2, 4, 6, 1});
            s.argc = 1 + (int) t.below(4);
            if (t.chance(1, 12)) s.argc = t.chance(1, 6) ? 250 + (int) t.below(20) : 5 + (int) t.below(30);
            s.locals = s.kind == Spec::resumable ? (int) t.below(4) : 0;
            if (t.chance(1, 16) && s.kind == Spec::resumable) s.locals = 200;
            if (t.chance(2, 3)) s.closure = gen_val(t);
        }
        for (Spec& s : p.fns) {
            size_t k = s.kind == Spec::resumable ? 2 + t.below(4) : 1;
            for (size_t i = 0; i < k; ++i) {
                s.steps.push_back(step(s, k));
                s.states.push_back(i == 0 ? 0 : t.chance(1, 4) ? INT_MAX - (int) i : (int) (i * 7 + t.below(7)));
            }
        }
    }
    Node node(int depth) {
        Node n;
        if (depth >= 3 || --budget < 0) n.kind = Node::literal;
        else n.kind = (Node::Kind) t.weighted({depth ? 4u : 0u, 10, 2, depth ? 2u : 0u, 1, depth ? 0u : 1u});
        n.value = gen_val(t);
        n.fn = (int) t.below(p.fns.size());
        n.form = (int) t.below(5);
        size_t want = 0;
        switch (n.kind) {
        case Node::call:
        case Node::launched: want = p.fns[n.fn].argc + (t.chance(1, 3) ? t.below(3) : 0); break;
        case Node::too_few:
            want = t.below(p.fns[n.fn].argc);
            break;
        case Node::wrapped:
        case Node::catching: want = 1; break;
        default: break;
        }
        for (size_t i = 0; i < want; ++i) n.args.push_back(node(depth + 1));
        if (n.kind == Node::launched) n.me = 100 + next_launch++;
        return n;
    }
    void program() {
        functions();
        size_t n = 1 + t.below(4);
        p.mains.resize(n);
        for (auto& m : p.mains) {
            size_t k = 1 + t.below(4);
            for (size_t i = 0; i < k; ++i) m.push_back(node(0));
        }
    }
};

// ------------------------------------------------------------------------------------------------ model
struct Panic {
    std::string message; // empty: unspecified
};
struct Model {
    const Program& p;
    std::map<int, std::vector<std::string>> logs; // per coroutine
    std::map<int, int> fuel;
    int next_me = 1;
    int calls = 0, invokes = 0, panics = 0, waits = 0, depth = 0;

    explicit Model(const Program& prog)
        : p(prog) {}
    void log(int me, std::string s) {
        logs[me].push_back(std::move(s));
        if (logs[me].size() > 2000) throw pbt::Discard{};
    }
    struct Frame {
        const Spec* s;
        int me;
        std::vector<V> args, locals;
        V invoked;
    };
    V get(const Source& s, Frame& f) {
        switch (s.kind) {
        case Source::literal: return s.value;
        case Source::arg: return s.index < (int) f.args.size() ? f.args[s.index] : mk(Val::null);
        case Source::all_args: return mk_tuple(f.args);
        case Source::local: return f.locals[s.index];
        case Source::invoked: return f.invoked;
        case Source::closure: return f.s->closure ? f.s->closure : mk(Val::null);
        default: return mk_int((i64) f.args.size());
        }
    }
    static std::string limited(const V& v) {
        std::string s = v->show();
        if (s.size() > 3000) throw pbt::Discard{};
        return s;
    }
    V call(int fn, int me, std::vector<V> args) {
        if (++depth > 40) throw pbt::Discard{};
        struct D {
            int& d;
            ~D() { --d; }
        } dd{depth};
        if (fn >= (int) p.fns.size()) {
            V a = args.size() < 2 ? mk(Val::null) : args[1];
            if (args.size() < 2) {
                ++panics;
                throw Panic{""};
            }
            switch (fn - (int) p.fns.size()) {
            case sc_echo: return a;
            case sc_boom: ++panics; throw Panic{"boom"};
            case sc_wait: ++waits; return mk_tuple({mk_str("waited"), a});
            case sc_pair: return mk_tuple({a, mk_int(me)});
            case sc_catch: return mk_str("caught boom");
            default: return mk_str("none");
            }
        }
        const Spec& s = p.fns[fn];
        if ((int) args.size() < s.argc) {
            ++panics;
            throw Panic{""};
        }
        ++calls;
        Frame f{&s, me, args, std::vector<V>(s.locals, mk(Val::null)), mk(Val::null)};
        log(me, sfmt("call %d ", fn) + limited(mk_tuple(args)) + " closure " + (s.closure ? s.closure->show() : "null"));
        size_t pc = 0;
        for (;;) {
            const Step& st = s.steps[pc];
            if (s.kind == Spec::resumable) log(me, sfmt("step %d state %d invoked %s", fn, s.states[pc], limited(f.invoked).c_str()));
            for (auto& a : st.actions) switch (a.kind) {
                case Action::set_local: f.locals[a.index] = get(a.src, f); break;
                case Action::log: log(me, sfmt("log %d ", fn) + limited(get(a.src, f))); break;
                default: break;
                }
            Step::End end = st.end;
            if (s.kind == Spec::resumable && (end == Step::invoke || end == Step::go) && --fuel[me] < 0) end = Step::ret;
            switch (end) {
            case Step::ret: {
                V r = get(st.src, f);
                limited(r);
                if (s.kind == Spec::async_later) ++waits;
                return r;
            }
            case Step::panic:
                ++panics;
                throw Panic{sfmt("native %d", fn)};
            case Step::ret_nothing: return mk(Val::null);
            case Step::finish: return mk(Val::null);
            case Step::go:
                f.invoked = mk(Val::null);
                pc = st.next;
                break;
            case Step::invoke: {
                ++invokes;
                std::vector<V> args2;
                for (auto& x : st.args) args2.push_back(get(x, f));
                f.invoked = call(st.target, me, args2);
                pc = st.next;
                break;
            }
            }
        }
    }
    V eval(const Node& n, int me) {
        switch (n.kind) {
        case Node::literal: return n.value;
        case Node::call:
        case Node::too_few: {
            auto args = arguments(n, me);
            return call(n.fn, me, args);
        }
        case Node::wrapped: return mk_tuple({mk_int(me), eval(n.args[0], me), mk_str("kept")});
        case Node::catching:
            try {
                return mk_tuple({mk_str("ok"), eval(n.args[0], me)});
            } catch (Panic& e) {
                if (e.message.empty()) return mk_tuple({mk_str("panic"), mk_str("arguments")});
                return mk_tuple({mk_str("panic"), mk_str(e.message)});
            }
        case Node::launched: break;
        }
        return mk(Val::null);
    }
    std::vector<V> arguments(const Node& n, int me) {
        std::vector<V> args;
        for (auto& a : n.args) args.push_back(eval(a, me));
        if (!args.empty()) args[0] = mk_int(n.kind == Node::launched ? n.me : me);
        return args;
    }
    void statement(const Node& n, int me, int index) {
        std::string s;
        try {
            if (n.kind == Node::launched) { // the native function is the outermost function of a coroutine
                auto args = arguments(n, me);
                s = "launched";
                fuel[n.me] = 25;
                try {
                    call(n.fn, n.me, args);
                } catch (Panic&) {}
            } else {
                s = "value " + limited(eval(n, me));
            }
        } catch (Panic& e) { s = "panic " + (e.message.empty() ? "arguments" : e.message); }
        log(me, sfmt("stmt %d ", index) + s);
    }
    void run() {
        for (size_t i = 0; i < p.mains.size(); ++i) {
            int me = (int) i + 1;
            fuel[me] = 25;
            for (size_t k = 0; k < p.mains[i].size(); ++k) statement(p.mains[i][k], me, (int) k);
            log(me, "end");
        }
    }
};

// ------------------------------------------------------------------------------------------------ script
struct Source_text {
    const Program& p;
    std::string args(const Node& n) {
        std::string r;
        // the number of the coroutine replaces the first argument, which is evaluated nevertheless
        for (size_t i = 0; i < n.args.size(); ++i) {
            std::string x = expr(n.args[i]), who = n.kind == Node::launched ? sfmt("%d", n.me) : "me";
            if (i == 0) x = n.args[i].kind == Node::literal ? who : "({ const ignored = " + x + "; " + who + "; })";
            r += (i ? ", " : "") + x;
        }
        return r;
    }
    std::string expr(const Node& n) {
        switch (n.kind) {
        case Node::literal: return n.value->source();
        case Node::call:
        case Node::too_few:
            switch (n.form) {
            case 0: return sfmt("env.f%d(", n.fn) + args(n) + ")";
            case 1: return sfmt("fs[%d](", n.fn) + args(n) + ")";
            case 2: return sfmt("rec.f%d(", n.fn) + args(n) + ")";
            case 3: return sfmt("({ const l1 = [1]; const f = env.f%d; const l2 = 2; f; })(", n.fn) + args(n) + ")";
            default: return sfmt("f%d(", n.fn) + args(n) + ")";
            }
        case Node::wrapped: return "wrap(me, func() = " + expr(n.args[0]) + ")";
        case Node::catching: return "attempt(func() = " + expr(n.args[0]) + ")";
        default: return "null";
        }
    }
    std::string program() {
        std::string r = "import std;\nimport env;\n";
        std::string fs, rec;
        for (size_t i = 0; i < p.fns.size(); ++i) {
            r += sfmt("const f%zu = env.f%zu;\n", i, i);
            fs += sfmt("f%zu, ", i);
            rec += sfmt("%sf%zu: f%zu", i ? ", " : "", i, i);
        }
        r += "const fs = [" + fs + "];\nconst rec = (" + rec + ");\n";
        r += "func message(e) { return if (env.known(e.message())) { e.message(); } else { \"arguments\"; }; }\n"
             "func wrap(me, f) { const a = [me]; const b = \"kept\"; const r = f(); return (a[0], r, b); }\n"
             "func attempt(f) { const r = std.catch_panic(f); return if (r.is_success()) { (\"ok\", r.value()); } else { (\"panic\", message(r.error())); }; }\n"
             "export func echo(me, a) { return a; }\n"
             "export func boom(me, a) { defer echo(me, a); return [std.panic(\"boom\")]; }\n"
             "export func waits(me, a) { const k = (\"waited\", a); env.pause(); return k; }\n"
             "export func pair(me, a) { const l = [a]; return (l[0], me); }\n"
             "export func catches(me, a) { return \"caught ${std.catch_panic(func() = boom(me, a)).error().message()}\"; }\n"
             "export func none(me, a) { const l = (me, a); return \"none\"; }\n";
        for (size_t i = 0; i < p.mains.size(); ++i) {
            r += sfmt("export func main%zu(me) {\n", i);
            for (size_t k = 0; k < p.mains[i].size(); ++k) {
                const Node& n = p.mains[i][k];
                std::string what = n.kind == Node::launched ? sfmt("std.launch(f%d%s%s)", n.fn, n.args.empty() ? "" : ", ", args(n).c_str()) : expr(n);
                r += sfmt("    { const k%zu = [me, %zu]; const r = std.catch_panic(func() = ", k, k) + what + ");\n";
                r += sfmt("      env.check(k%zu[0], k%zu[1], me, %zu);\n", k, k, k);
                if (n.kind == Node::launched)
                    r += sfmt("      if (r.is_success()) { env.note(me, \"stmt %zu launched\"); } else { env.note(me, \"stmt %zu panic ${message(r.error())}\"); } };\n", k, k);
                else
                    r += sfmt("      if (r.is_success()) { env.note_value(me, \"stmt %zu value \", r.value()); } else { env.note(me, \"stmt %zu panic ${message(r.error())}\"); } };\n", k, k);
            }
            r += "    env.note(me, \"end\");\n}\n";
        }
        return r;
    }
};

// ------------------------------------------------------------------------------------------------ the real thing
struct Real {
    const Program& p;
    Vm vm;
    std::map<int, std::vector<std::string>> logs;
    std::map<int, int> fuel;
    struct Pending {
        tiro_async_token_t token;
        H value;
        std::string panic;
        bool is_panic = false, done = false, freed = false;
    };
    std::vector<Pending> pending;
    std::vector<tiro_async_token_t> unused;
    std::vector<H> scripts, natives, coros;
    std::string trouble;

    static Real& of(tiro_vm_t v) { return *(Real*) Vm::of(v).user; }

    explicit Real(const Program& prog, size_t page)
        : p(prog)
        , vm(64u << 20, page) {
        vm.user = this;
    }
    ~Real() {
        for (auto& p : pending)
            if (!p.freed) tiro_async_token_free(p.token);
        for (auto t : unused) tiro_async_token_free(t);
    }
    void fail(std::string s) {
        if (trouble.empty()) trouble = std::move(s);
    }
    void log(int me, std::string s) { logs[me].push_back(std::move(s)); }
    H make(const V& x) {
        switch (x->kind) {
        case Val::null: return vm.null();
        case Val::boolean: return vm.boolean(x->i);
        case Val::integer: return vm.integer(x->i);
        case Val::real: return vm.flt(x->d);
        case Val::string: return vm.string(x->s);
        default: {
            std::vector<H> hs;
            std::vector<tiro_handle_t> raw;
            for (auto& i : x->items) hs.push_back(make(i));
            for (auto& h : hs) raw.push_back(h);
            return vm.tuple(raw);
        }
        }
    }
};

// One interface for the three kinds of frames.
struct SyncF {
    tiro_sync_frame_t f;
    size_t argc() { return tiro_sync_frame_arg_count(f); }
    void arg(size_t i, tiro_handle_t r, tiro_error_t* e) { tiro_sync_frame_arg(f, i, r, e); }
    void closure(tiro_handle_t r, tiro_error_t* e) { tiro_sync_frame_closure(f, r, e); }
    void ret(tiro_handle_t v, tiro_error_t* e) { tiro_sync_frame_return_value(f, v, e); }
    void panic(std::string_view m, tiro_error_t* e) { tiro_sync_frame_panic_msg(f, ts(m), e); }
};
struct AsyncF {
    tiro_async_frame_t f;
    size_t argc() { return tiro_async_frame_arg_count(f); }
    void arg(size_t i, tiro_handle_t r, tiro_error_t* e) { tiro_async_frame_arg(f, i, r, e); }
    void closure(tiro_handle_t r, tiro_error_t* e) { tiro_async_frame_closure(f, r, e); }
    void ret(tiro_handle_t v, tiro_error_t* e) { tiro_async_frame_return_value(f, v, e); }
    void panic(std::string_view m, tiro_error_t* e) { tiro_async_frame_panic_msg(f, ts(m), e); }
};
struct ResF {
    tiro_resumable_frame_t f;
    size_t argc() { return tiro_resumable_frame_arg_count(f); }
    void arg(size_t i, tiro_handle_t r, tiro_error_t* e) { tiro_resumable_frame_arg(f, i, r, e); }
    void closure(tiro_handle_t r, tiro_error_t* e) { tiro_resumable_frame_closure(f, r, e); }
    void ret(tiro_handle_t v, tiro_error_t* e) { tiro_resumable_frame_return_value(f, v, e); }
    void panic(std::string_view m, tiro_error_t* e) { tiro_resumable_frame_panic_msg(f, ts(m), e); }
};

void force_collect(Vm& vm) {
    auto old = tiro::vm::verif_alloc_hook;
    tiro::vm::verif_alloc_hook = [](tiro::vm::Heap&, size_t) { return tiro::vm::VerifAllocAction::Collect; };
    H x = vm.flt(2.5);
    tiro::vm::verif_alloc_hook = old;
}

template<typename F>
struct Ctx {
    Real& r;
    F f;
    const Spec& s;
    tiro_resumable_frame_t rf = nullptr;
    H get(const Source& src) {
        H h(r.vm);
        switch (src.kind) {
        case Source::literal: return r.make(src.value);
        case Source::arg:
            if (src.index < (int) f.argc()) MUST(f.arg(src.index, h, must));
            return h;
        case Source::all_args: return all();
        case Source::local: MUST(tiro_resumable_frame_local(rf, src.index, h, must)); return h;
        case Source::invoked: MUST(tiro_resumable_frame_invoke_return(rf, h, must)); return h;
        case Source::closure: MUST(f.closure(h, must)); return h;
        default: return r.vm.integer(f.argc());
        }
    }
    H all() {
        std::vector<H> hs;
        std::vector<tiro_handle_t> raw;
        for (size_t i = 0; i < f.argc(); ++i) {
            hs.push_back(r.vm.h());
            MUST(f.arg(i, hs.back(), must));
            raw.push_back(hs.back());
        }
        Err e;
        H x(r.vm);
        f.arg(f.argc(), x, e);
        if (e.code() != TIRO_ERROR_OUT_OF_BOUNDS) r.fail("an argument index beyond the end is not reported");
        return r.vm.tuple(raw);
    }
    int me() {
        H h(r.vm);
        MUST(f.arg(0, h, must));
        return (int) tiro_integer_value(r.vm, h);
    }
    void enter(int me) {
        H c(r.vm), a = all();
        MUST(f.closure(c, must));
        r.log(me, sfmt("call %d ", s.number) + r.vm.show(a) + " closure " + r.vm.show(c));
    }
    void actions(int me, const Step& st) {
        for (auto& a : st.actions) switch (a.kind) {
            case Action::set_local: {
                H x = get(a.src);
                MUST(tiro_resumable_frame_set_local(rf, a.index, x, must));
                break;
            }
            case Action::log: {
                H x = get(a.src);
                r.log(me, sfmt("log %d ", s.number) + r.vm.show(x));
                break;
            }
            default: force_collect(r.vm);
            }
    }
};

void do_sync(const Spec& s, tiro_vm_t v, tiro_sync_frame_t f) {
    Real& r = Real::of(v);
    Ctx<SyncF> c{r, {f}, s};
    int me = c.me();
    if (c.f.argc() < (size_t) s.argc) r.fail("a native function was called with too few arguments");
    c.enter(me);
    const Step& st = s.steps[0];
    c.actions(me, st);
    if (st.end == Step::panic) MUST(c.f.panic(sfmt("native %d", s.number), must));
    else if (st.end == Step::ret) {
        H x = c.get(st.src);
        MUST(c.f.ret(x, must));
    }
}
void do_async(const Spec& s, tiro_vm_t v, tiro_async_frame_t f) {
    Real& r = Real::of(v);
    Ctx<AsyncF> c{r, {f}, s};
    int me = c.me();
    if (c.f.argc() < (size_t) s.argc) r.fail("a native function was called with too few arguments");
    c.enter(me);
    const Step& st = s.steps[0];
    c.actions(me, st);
    if (s.kind == Spec::token_unused) {
        Must must("tiro_async_frame_token");
        r.unused.push_back(tiro_async_frame_token(f, must));
    }
    if (s.kind == Spec::async_later) {
        Real::Pending p;
        p.is_panic = st.end == Step::panic;
        p.panic = sfmt("native %d", s.number);
        p.value = st.end == Step::ret ? c.get(st.src) : r.vm.null();
        Must must("tiro_async_frame_token");
        p.token = tiro_async_frame_token(f, must);
        r.pending.push_back(std::move(p));
        MUST(tiro_async_frame_yield(f, must));
        return;
    }
    if (st.end == Step::panic) MUST(c.f.panic(sfmt("native %d", s.number), must));
    else {
        // without a result and without yield: the result is null
        H x = st.end == Step::ret ? c.get(st.src) : r.vm.null();
        MUST(c.f.ret(x, must));
    }
}
void do_resumable(const Spec& s, tiro_vm_t v, tiro_resumable_frame_t f) {
    Real& r = Real::of(v);
    Ctx<ResF> c{r, {f}, s, f};
    int me = c.me();
    if (c.f.argc() < (size_t) s.argc) r.fail("a native function was called with too few arguments");
    int state = tiro_resumable_frame_state(f);
    if (tiro_resumable_frame_local_count(f) != (size_t) s.locals) r.fail("wrong number of locals");
    size_t pc = 0;
    while (pc < s.states.size() && s.states[pc] != state) ++pc;
    if (pc == s.states.size()) {
        r.fail(sfmt("function %d is in state %d, which it never selected", s.number, state));
        MUST(tiro_resumable_frame_set_state(f, TIRO_RESUMABLE_STATE_END, must));
        return;
    }
    // the first call of this frame? Frames start in state 0; a local marker would change the frame, so a hidden
    // convention is used: state 0 of the first step is only entered once
    const Step& st = s.steps[pc];
    if (state == TIRO_RESUMABLE_STATE_START) c.enter(me);
    H inv(v);
    MUST(tiro_resumable_frame_invoke_return(f, inv, must));
    r.log(me, sfmt("step %d state %d invoked %s", s.number, state, r.vm.show(inv).c_str()));
    c.actions(me, st);
    Step::End end = st.end;
    if ((end == Step::invoke || end == Step::go) && --r.fuel[me] < 0) end = Step::ret;
    switch (end) {
    case Step::ret: {
        H x = c.get(st.src);
        MUST(c.f.ret(x, must));
        break;
    }
    case Step::panic: MUST(c.f.panic(sfmt("native %d", s.number), must)); break;
    case Step::ret_nothing:
    case Step::finish: MUST(tiro_resumable_frame_set_state(f, TIRO_RESUMABLE_STATE_END, must)); break;
    case Step::go: MUST(tiro_resumable_frame_set_state(f, s.states[st.next], must)); break;
    case Step::invoke: {
        std::vector<H> hs;
        std::vector<tiro_handle_t> raw;
        for (auto& a : st.args) hs.push_back(c.get(a));
        for (auto& h : hs) raw.push_back(h);
        tiro_handle_t fn = st.target < (int) r.p.fns.size() ? r.natives[st.target] : r.scripts[st.target - r.p.fns.size()];
        if (raw.empty()) {
            H none = r.vm.null();
            MUST(tiro_resumable_frame_invoke(f, s.states[st.next], fn, st.next % 2 ? (tiro_handle_t) none : nullptr, must));
        } else {
            H args = r.vm.tuple(raw);
            MUST(tiro_resumable_frame_invoke(f, s.states[st.next], fn, args, must));
        }
        break;
    }
    }
}

// One function pointer per specification.
template<typename F>
void guarded(tiro_vm_t v, F&& f) {
    try {
        f();
    } catch (Fail& e) {
        Real::of(v).fail(e.msg);
    }
}
constexpr int max_fns = 8;
const Program* active = nullptr;
template<int I>
void sync_n(tiro_vm_t v, tiro_sync_frame_t f) { guarded(v, [&] { do_sync(active->fns[I], v, f); }); }
template<int I>
void async_n(tiro_vm_t v, tiro_async_frame_t f) { guarded(v, [&] { do_async(active->fns[I], v, f); }); }
template<int I>
void res_n(tiro_vm_t v, tiro_resumable_frame_t f) { guarded(v, [&] { do_resumable(active->fns[I], v, f); }); }
#define EACH(F) {F<0>, F<1>, F<2>, F<3>, F<4>, F<5>, F<6>, F<7>}
tiro_sync_function_t sync_fns[max_fns] = EACH(sync_n);
tiro_async_function_t async_fns[max_fns] = EACH(async_n);
tiro_resumable_function_t res_fns[max_fns] = EACH(res_n);


void calls(Case& c) {
    Program p;
    Gen g{c.t, p};
    g.program();
    size_t page = 1u << (16 + c.t.below(5));
    std::string src = Source_text{p}.program();
    std::string text = src;
    static const char* kinds[] = {"sync", "async, returns at once", "async", "resumable", "async, takes an unused token"};
    for (auto& f : p.fns) {
        text += sfmt("\nf%d: %s, %d arguments, %d locals, closure %s", f.number, kinds[f.kind], f.argc, f.locals, f.closure ? f.closure->show().c_str() : "none");
        auto src_text = [](const Source& s) {
            static const char* n[] = {"literal", "argument", "arguments", "local", "invoked", "closure", "count"};
            return sfmt("%s%s", n[s.kind], s.kind == Source::literal ? (" " + s.value->show()).c_str() : sfmt(" %d", s.index).c_str());
        };
        for (size_t i = 0; i < f.steps.size(); ++i) {
            auto& st = f.steps[i];
            static const char* ends[] = {"return", "panic", "invoke", "go", "finish", "return without value"};
            text += sfmt("\n    state %d:", f.states[i]);
            for (auto& a : st.actions) text += a.kind == Action::collect ? " collect" : sfmt(" %s %d %s", a.kind == Action::log ? "log" : "set local", a.index, src_text(a.src).c_str());
            text += sfmt(" %s %s", ends[st.end], src_text(st.src).c_str());
            if (st.end == Step::invoke) {
                text += sfmt(" target %d then state %d (", st.target, f.states[st.next]);
                for (auto& a : st.args) text += src_text(a) + ", ";
                text += ")";
            }
            if (st.end == Step::go) text += sfmt(" state %d", f.states[st.next]);
        }
    }
    c.describe(text);
    Model m(p);
    m.run();

    auto mod = compile("main", src);
    if (!mod.ok()) c.fail("program rejected: " + mod.errors());
    active = &p;
    auto real = std::make_unique<Real>(p, page);
    Real& r = *real;
    Vm& vm = r.vm;
    std::vector<std::pair<std::string, H>> members;
    for (auto& s : p.fns) {
        H name = vm.string(sfmt("f%d", s.number)), h(vm), closure;
        if (s.closure) closure = r.make(s.closure);
        int i = s.number;
        switch (s.kind) {
        case Spec::sync: MUST(tiro_make_sync_function(vm, name, sync_fns[i], s.argc, closure, h, must)); break;
        case Spec::resumable: {
            tiro_resumable_frame_desc_t d{};
            d.name = name;
            d.arg_count = s.argc;
            d.local_count = s.locals;
            d.closure = closure;
            d.func = res_fns[i];
            MUST(tiro_make_resumable_function(vm, &d, h, must));
            break;
        }
        default: MUST(tiro_make_async_function(vm, name, async_fns[i], s.argc, closure, h, must));
        }
        r.natives.push_back(vm.h());
        tiro_value_copy(vm, h, r.natives.back(), nullptr);
        members.emplace_back(sfmt("f%d", i), std::move(h));
    }
    members.emplace_back("known", vm.sync_function("known", [](tiro_vm_t v, tiro_sync_frame_t f) {
        H a(v);
        MUST(tiro_sync_frame_arg(f, 0, a, must));
        Vm& vm = Vm::of(v);
        std::string s = vm.text(a);
        H b = vm.boolean(s == "boom" || s.rfind("native ", 0) == 0);
        MUST(tiro_sync_frame_return_value(f, b, must));
    }, 1));
    auto note = [](tiro_vm_t v, tiro_sync_frame_t f) {
        Real& r = Real::of(v);
        H a(v), b(v);
        MUST(tiro_sync_frame_arg(f, 0, a, must));
        MUST(tiro_sync_frame_arg(f, 1, b, must));
        std::string s = r.vm.text(b);
        if (tiro_sync_frame_arg_count(f) > 2) {
            H x(v);
            MUST(tiro_sync_frame_arg(f, 2, x, must));
            s += r.vm.show(x);
        }
        r.log((int) tiro_integer_value(v, a), s);
    };
    members.emplace_back("note", vm.sync_function("note", note, 2));
    members.emplace_back("note_value", vm.sync_function("note_value", note, 3));
    members.emplace_back("check", vm.sync_function("check", [](tiro_vm_t v, tiro_sync_frame_t f) {
        Real& r = Real::of(v);
        std::string s[4];
        for (int i = 0; i < 4; ++i) {
            H a(v);
            MUST(tiro_sync_frame_arg(f, i, a, must));
            s[i] = r.vm.show(a);
        }
        if (s[0] != s[2] || s[1] != s[3]) r.fail("the caller's variables changed during a call: " + s[0] + " " + s[1]);
    }, 4));
    {
        H name = vm.string("pause"), h(vm);
        MUST(tiro_make_async_function(vm, name, [](tiro_vm_t v, tiro_async_frame_t f) {
            Real& r = Real::of(v);
            Real::Pending p;
            p.value = r.vm.null();
            {
                Must must("tiro_async_frame_token");
                p.token = tiro_async_frame_token(f, must);
            }
            r.pending.push_back(std::move(p));
            MUST(tiro_async_frame_yield(f, must));
        }, 0, nullptr, h, must));
        members.emplace_back("pause", std::move(h));
    }
    vm.load_env_with(members);
    members.clear();
    vm.load(mod);
    for (const char* n : {"echo", "boom", "waits", "pair", "catches", "none"}) r.scripts.push_back(vm.get_export("main", n));
    for (size_t i = 0; i < p.mains.size(); ++i) {
        r.fuel[(int) i + 1] = 25;
        H fn = vm.get_export("main", sfmt("main%zu", i)), me = vm.integer((i64) i + 1), args = vm.tuple({me}), co(vm);
        MUST(tiro_make_coroutine(vm, fn, args, co, must));
        MUST(tiro_coroutine_start(vm, co, must));
        r.coros.push_back(std::move(co));
    }
    for (int i = 0; i < 32; ++i) r.fuel[100 + i] = 25;

    auto finish = [&](Real::Pending& p, bool expect) {
        Err e;
        // the values passed to a second completion must not matter
        if (p.is_panic == expect) tiro_async_token_panic_msg(p.token, ts(expect ? p.panic : "again"), e);
        else if (expect) tiro_async_token_return_value(p.token, p.value, e);
        else {
            H wrong = vm.string("again");
            tiro_async_token_return_value(p.token, wrong, e);
        }
        if (e.ok() != expect) c.fail(expect ? "completing an asynchronous call failed: " + e.text() : "completing an asynchronous call again was not reported as an error");
    };
    size_t rounds = 0, again = 0;
    for (;; ++rounds) {
        if (rounds > 20000) c.fail("the program does not end");
        if (tiro_vm_has_ready(vm)) {
            Err e;
            tiro_vm_run_ready(vm, e);
            if (!e.ok()) r.fail("run_ready failed: " + e.text());
            if (!r.trouble.empty()) c.fail(r.trouble);
            continue;
        }
        std::vector<size_t> open, done;
        for (size_t i = 0; i < r.pending.size(); ++i) {
            if (!r.pending[i].done) open.push_back(i);
            else if (!r.pending[i].freed) done.push_back(i);
        }
        if (!done.empty() && c.t.chance(1, 3)) {
            ++again;
            finish(r.pending[done[c.t.below(done.size())]], false);
        }
        if (c.t.chance(1, 8)) force_collect(vm);
        if (open.empty()) break;
        size_t n = 1 + c.t.below(std::min<size_t>(open.size(), 3));
        while (n-- && !open.empty()) {
            size_t k = c.t.below(open.size());
            auto& q = r.pending[open[k]];
            open.erase(open.begin() + k);
            finish(q, true);
            q.done = true;
            q.value.free();
            if (c.t.chance(1, 6)) {
                ++again;
                finish(q, false);
            }
            if (c.t.chance(1, 3)) {
                tiro_async_token_free(q.token);
                q.freed = true;
            }
            if (c.t.chance(1, 8)) force_collect(vm);
        }
    }
    for (auto t : r.unused) {
        Err e;
        tiro_async_token_panic_msg(t, ts("late"), e);
        if (e.ok()) c.fail("completing an asynchronous call that had returned already was not reported as an error");
    }
    if (tiro_vm_has_ready(vm)) c.fail("a refused completion made a coroutine ready");
    for (auto& co : r.coros) {
        if (!tiro_coroutine_completed(vm, co)) c.fail("a coroutine did not complete although every asynchronous call was completed");
        if (auto res = vm.result_of(co); !res.ok()) c.fail("a coroutine panicked: " + res.message);
    }
    for (auto& [me, want] : m.logs) {
        auto& got = r.logs[me];
        for (size_t i = 0; i < std::max(got.size(), want.size()); ++i) {
            std::string a = i < got.size() ? got[i] : "<end>", b = i < want.size() ? want[i] : "<end>";
            if (a == b) continue;
            std::string before;
            for (size_t k = i > 5 ? i - 5 : 0; k < i; ++k) before += "\n    " + want[k];
            c.fail(sfmt("coroutine %d, event %zu: ", me, i) + a + "\n  expected " + b + "\n  after" + before);
        }
    }
    for (auto& [me, got] : r.logs)
        if (!got.empty() && !m.logs.count(me)) c.fail(sfmt("unexpected events of coroutine %d: ", me) + got[0]);
    c.count("native calls", m.calls);
    c.count("invocations by native functions", m.invokes);
    c.count("asynchronous completions", m.waits);
    c.count("panics", m.panics);
    c.count("repeated completions", again);
    c.count("unused tokens", r.unused.size());
    c.nontrivial = m.calls >= 2 && m.waits + m.invokes >= 1;
    real.reset();
}


// A token is taken by a function that returns at once. The coroutine then waits for something else.
struct Kept {
    Vm vm;
    std::vector<tiro_async_token_t> tokens;
    H yield;
    int steps = 0;
};
void kept_tokens(Case& c) {
    auto k = std::make_unique<Kept>();
    Vm& vm = k->vm;
    vm.user = k.get();
    size_t n_tokens = 1 + c.t.below(3), depth = c.t.below(4);
    int kind = (int) c.t.below(4);
    size_t locals = c.t.chance(1, 2) ? 2 : c.t.below(6);
    int state = c.t.chance(1, 2) ? 1 : (int) (1 + c.t.below(5));
    static int s_state; // used by the native functions below
    s_state = state;
    const char* how[] = {"std.yield_coroutine()", "a closure that yields", "a resumable function that invokes std.yield_coroutine", "a resumable function that invokes a closure that yields"};
    std::vector<std::pair<std::string, H>> members;
    {
        H name = vm.string("take"), h(vm);
        MUST(tiro_make_async_function(vm, name, [](tiro_vm_t v, tiro_async_frame_t f) {
            Must must("tiro_async_frame_token");
            ((Kept*) Vm::of(v).user)->tokens.push_back(tiro_async_frame_token(f, must));
        }, 0, nullptr, h, must));
        members.emplace_back("take", std::move(h));
    }
    {
        H name = vm.string("via"), h(vm);
        tiro_resumable_frame_desc_t d{};
        d.name = name;
        d.arg_count = 1;
        d.local_count = locals;
        d.func = [](tiro_vm_t v, tiro_resumable_frame_t f) {
            Kept& k = *(Kept*) Vm::of(v).user;
            if (tiro_resumable_frame_state(f) == 0) {
                for (size_t i = 0; i < tiro_resumable_frame_local_count(f); ++i) {
                    H x = k.vm.integer(i);
                    MUST(tiro_resumable_frame_set_local(f, i, x, must));
                }
                H fn(v);
                MUST(tiro_resumable_frame_arg(f, 0, fn, must));
                MUST(tiro_resumable_frame_invoke(f, s_state, fn, nullptr, must));
                return;
            }
            H x(v), y(v);
            MUST(tiro_resumable_frame_invoke_return(f, x, must));
            std::string s = k.vm.show(x);
            for (size_t i = 0; i < tiro_resumable_frame_local_count(f); ++i) {
                MUST(tiro_resumable_frame_local(f, i, y, must));
                s += " " + k.vm.show(y);
            }
            H r = k.vm.string(s);
            MUST(tiro_resumable_frame_return_value(f, r, must));
        };
        MUST(tiro_make_resumable_function(vm, &d, h, must));
        members.emplace_back("via", std::move(h));
    }
    vm.load_env_with(members);
    members.clear();
    std::string wait;
    switch (kind) {
    case 0: wait = "std.yield_coroutine()"; break;
    case 1: wait = "({ const f = func() { const a = [1]; std.yield_coroutine(); return a[0]; }; f(); })"; break;
    case 2: wait = "env.via(std.yield_coroutine)"; break;
    default: wait = "env.via(func() { const a = [1]; std.yield_coroutine(); return a[0]; })";
    }
    std::string src = "import std;\nimport env;\nvar token = null;\nexport func wake() = token.resume();\nfunc run(n) {\n  const x = (n, \"x\");\n  if (n > 0) { const r = run(n - 1); return (r, x); }\n"
                      "  token = std.coroutine_token();\n";
    for (size_t i = 0; i < n_tokens; ++i) src += "  env.take();\n";
    src += "  const r = " + wait + ";\n  return (r, x);\n}\nexport func main(n) = run(n);\n";
    c.describe(src + sfmt("depth %zu, %zu locals, state %d, waits by %s", depth, locals, state, how[kind]));
    Compiled m = compile("main", src);
    if (!m.ok()) c.fail("rejected: " + m.errors());
    vm.load(m);
    std::string want;
    {
        std::string inner = kind == 0 ? "null" : kind == 1 ? "1" : "\"" + std::string(kind == 2 ? "null" : "1");
        if (kind >= 2) {
            for (size_t i = 0; i < locals; ++i) inner += sfmt(" %zu", i);
            inner += "\"";
        }
        want = inner;
        for (size_t i = 0; i <= depth; ++i) want = "(" + want + sfmt(", (%zu, \"x\"))", i);
    }
    H fn = vm.get_export("main", "main"), n = vm.integer(depth), args = vm.tuple({n}), co(vm), wake = vm.get_export("main", "wake");
    MUST(tiro_make_coroutine(vm, fn, args, co, must));
    MUST(tiro_coroutine_start(vm, co, must));
    MUST(tiro_vm_run_ready(vm, must));
    auto attempt = [&](const char* when) {
        for (auto t : k->tokens) {
            Err e;
            if (c.t.chance(1, 2)) tiro_async_token_panic_msg(t, ts("late"), e);
            else {
                H x = vm.integer(7);
                tiro_async_token_return_value(t, x, e);
            }
            if (e.ok()) c.fail(std::string("completing an asynchronous call that had returned already was not reported as an error ") + when);
        }
    };
    if (k->tokens.size() != n_tokens) c.fail("the coroutine did not reach its suspension");
    attempt("while the coroutine waits for something else");
    if (tiro_vm_has_ready(vm)) c.fail("the refused completion resumed the coroutine");
    if (c.t.chance(1, 2)) force_collect(vm);
    auto w = vm.call(wake);
    if (!w.ok() || vm.show(w.value) != "true") c.fail("the coroutine's own token did not resume it");
    attempt("after the coroutine ended");
    auto r = vm.result_of(co);
    if (!r.ok()) c.fail("the coroutine did not succeed: " + r.message);
    if (vm.show(r.value) != want) c.fail("the coroutine returned " + vm.show(r.value) + ", expected " + want);
    for (auto t : k->tokens) tiro_async_token_free(t);
    c.label(how[kind]);
    c.nontrivial = true;
}

// Calls of builtin methods with any number of arguments: through a bound method value, in every way a function value can
// be called, they do what the direct call `object.method(arguments)` does.
void bound(Case& c) {
    struct Obj {
        const char* make;
        const char* state; // expression over `o`
        std::vector<const char*> methods;
    };
    static const std::vector<Obj> objs = {
        {"({ const b = std.new_string_builder(); b.append(\"start;\"); b; })", "o.to_string()", {"append", "append", "append", "append_byte", "clear", "contains", "size", "to_string"}},
        {"[3, \"x\", 5]", "o", {"append", "append", "size", "clear"}},
        {"map{\"a\": 1, 2: \"b\", 7: 7}", "({ const r = []; for e in o { r.append(e); } r; })", {"remove", "contains", "size", "clear"}},
        {"set{\"a\", 2, 7}", "({ const r = []; for e in o { r.append(e); } r; })", {"insert", "remove", "contains", "size", "clear"}},
        {"\"some text a\"", "o", {"contains", "size", "slice", "slice_first", "slice_last"}},
        {"\"some text a\".slice(1, 9)", "o.to_string()", {"contains", "size", "slice", "slice_first", "slice_last", "to_string"}},
        {"(1, 2, \"x\")", "o", {"size"}},
        {"std.success(5)", "o", {"value", "error", "is_success", "type"}},
        {"std.new_buffer(9, 7)", "o.size()", {"size"}},
    };
    static const char* values[] = {"\"a\"", "2", "7", "\"text\"", "0", "1", "-1", "64", "null", "true", "1.5", "#sym", "\"xyz\"", "\"\"", "3", "300"};
    const Obj& o = objs[c.t.weighted({6, 3, 2, 2, 2, 2, 1, 1, 1})];
    std::string method = o.methods[c.t.below(o.methods.size())];
    size_t n = c.t.weighted({1, 3, 2, 1}) == 0 ? 0 : c.t.chance(1, 4) ? c.t.below(60) : c.t.below(9);
    std::string args, tuple;
    for (size_t i = 0; i < n; ++i) {
        std::string v = values[c.t.below(sizeof values / sizeof *values)];
        if (method == "append" && n > 1 && c.t.chance(2, 3)) v = sfmt("\"%zu,\"", i);
        args += (i ? ", " : "") + v;
        tuple += v + ", ";
    }
    size_t before = c.t.below(8), depth = c.t.below(4);
    std::string pads, probe;
    for (size_t i = 0; i < before; ++i) pads += sfmt("\"p%zu\", ", i);
    std::string m = "o." + method;
    std::string src = "import std;\nimport env;\nvar o = null;\nvar f = null;\n"
                      "func reset() { o = " + std::string(o.make) + "; f = " + m + "; }\n"
                      "func at(n, g) { if (n == 0) { return g(); } const x = [n, at(n - 1, g)]; return x[1]; }\n"
                      "export func state() = " + o.state + ";\n"
                      "export func bound() { reset(); return f; }\n"
                      "export func args() = (" + tuple + ");\n";
    std::vector<std::pair<std::string, std::string>> ways = {
        {"direct", m + "(" + args + ")"},
        {"value", "f(" + args + ")"},
        {"operand", "({ const all = [" + pads + "f(" + args + "), \"last\"]; for var i = 0; i < " + std::to_string(before) + "; i += 1 { if (all[i] != \"p${i}\") { std.panic(\"operand lost\"); } } if (all[" + std::to_string(before + 1) + "] != \"last\") { std.panic(\"last lost\"); } all[" + std::to_string(before) + "]; })"},
        {"member", "({ const r = (f: f, g: 1); const x = (" + pads + "r.f(" + args + "),); x." + std::to_string(before) + "; })"},
        {"element", "({ const r = map{1: f}; r[1](" + args + "); })"},
        {"optional", "f?(" + args + ")"},
        {"caught", "({ const r = std.catch_panic(func() = f(" + args + ")); if (r.is_error()) { std.panic(r.error()); } r.value(); })"},
        {"invoked", "env.invoke(f, args())"},
        {"method invoked", "env.invoke(" + m + ", args())"},
    };
    for (size_t i = 0; i < ways.size(); ++i) src += "export func way" + std::to_string(i) + "() { reset(); return at(" + std::to_string(depth) + ", func() = " + ways[i].second + "); }\n";
    src += "export func launched() { reset(); std.launch(f" + std::string(n ? ", " : "") + args + "); }\n";
    c.describe(src);
    Compiled mod = compile("main", src);
    if (!mod.ok()) c.fail("rejected: " + mod.errors());
    Vm vm;
    {
        std::vector<std::pair<std::string, H>> members;
        H name = vm.string("invoke"), h(vm);
        tiro_resumable_frame_desc_t d{};
        d.name = name;
        d.arg_count = 2;
        d.local_count = 1;
        d.func = [](tiro_vm_t v, tiro_resumable_frame_t f) {
            H fn(v), args(v), r(v);
            if (tiro_resumable_frame_state(f) == 0) {
                MUST(tiro_resumable_frame_arg(f, 0, fn, must));
                MUST(tiro_resumable_frame_arg(f, 1, args, must));
                MUST(tiro_resumable_frame_set_local(f, 0, args, must));
                MUST(tiro_resumable_frame_invoke(f, 1, fn, args, must));
                return;
            }
            H l(v);
            MUST(tiro_resumable_frame_local(f, 0, l, must));
            if (tiro_value_kind(v, l) != TIRO_KIND_TUPLE) {
                Err e;
                tiro_resumable_frame_panic_msg(f, ts("the local variable changed"), e);
                return;
            }
            MUST(tiro_resumable_frame_invoke_return(f, r, must));
            MUST(tiro_resumable_frame_return_value(f, r, must));
        };
        MUST(tiro_make_resumable_function(vm, &d, h, must));
        members.emplace_back("invoke", std::move(h));
        vm.load_env_with(members);
    }
    vm.load(mod);
    auto outcome = [&](const CallResult& r) {
        std::string s = r.kind == CallResult::success ? "value " + vm.show_limited(r.value) : r.kind == CallResult::panic ? "panic " + r.message : "error " + r.message;
        auto st = vm.call("main", "state");
        if (!st.ok()) c.fail("the state cannot be read: " + st.message);
        return s + ", then " + vm.show_limited(st.value);
    };
    std::string want = outcome(vm.call("main", "way0"));
    c.add("direct: " + want);
    if (want.compare(0, 5, "error") == 0) c.fail("the direct call failed with an error");
    if (method == "append" && std::string(o.state) == "o.to_string()" && want.compare(0, 5, "value") == 0) {
        // the only method that takes any number of arguments
        std::string text = "start;", tail = vm.text(vm.call("main", "state").value);
        if (args.find("1.5") == std::string::npos && args.find("#sym") == std::string::npos) {
            H tup = std::move(vm.call("main", "args").value);
            for (size_t i = 0; i < n; ++i) {
                H x(vm);
                MUST(tiro_tuple_get(vm, tup, i, x, must));
                text += tiro_value_kind(vm, x) == TIRO_KIND_STRING ? vm.text(x) : vm.show(x);
            }
            if (text != tail) c.fail("append built \"" + tail + "\" instead of \"" + text + "\"");
        }
    }
    auto same = [&](const std::string& way, const std::string& got) {
        if (got != want) c.fail(way + ": " + got + "; the direct call: " + want);
    };
    for (size_t i = 1; i < ways.size(); ++i) same(ways[i].first + " " + ways[i].second, outcome(vm.call("main", "way" + std::to_string(i))));
    { // from the API
        auto f = vm.call("main", "bound");
        if (!f.ok()) c.fail("the bound method cannot be made: " + f.message);
        auto tup = vm.call("main", "args");
        std::vector<H> hs;
        std::vector<tiro_handle_t> raw;
        for (size_t i = 0; i < n; ++i) {
            hs.emplace_back(vm);
            MUST(tiro_tuple_get(vm, tup.value, i, hs.back(), must));
        }
        for (auto& h : hs) raw.push_back(h);
        same("called from the API", outcome(vm.call(f.value, raw)));
    }
    { // as the function of a new coroutine; a panic ends that coroutine only
        auto r = vm.call("main", "launched");
        if (!r.ok()) c.fail("std.launch failed: " + r.message);
        MUST(tiro_vm_run_ready(vm, must));
        std::string got = outcome(r), w = want.substr(want.rfind(", then "));
        if (got.substr(got.rfind(", then ")) != w) c.fail("launched: the object became" + got.substr(got.rfind(", then ") + 6) + "; the direct call: " + want);
    }
    c.label(want.compare(0, 5, "value") == 0 ? "value" : "panic");
    c.count("arguments", n);
    c.nontrivial = true;
}

} // namespace

int main(int argc, char** argv) {
    pbt::Runner r("C15", "calls: at least two native calls, and an asynchronous completion or a call made by a resumable function; tokens, bound: all", {
        Suite{"calls", 8000, 400000, calls},
        Suite{"tokens", 1000, 40000, kept_tokens},
        Suite{"bound", 1500, 100000, bound},
    });
    return r.main(argc, argv);
}
