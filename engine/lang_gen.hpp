// Type-guided random program generator for lang.hpp.
#ifndef VERIF_LANG_GEN_HPP
#define VERIF_LANG_GEN_HPP

#include "lang.hpp"

namespace lang {

struct Cfg {
    int budget = 260;     // approximate number of nodes
    int depth = 4;        // nesting of expressions
    u32 trace = 5;        // weights
    u32 panic = 1;
    u32 katch = 2;
    u32 defer = 2;
    u32 assertion = 1;
    u32 closures = 3;
    u32 loops = 4;
    u32 early_exit = 2;
    u32 bad_type = 0;     // permille: expression of an unrelated type
    u32 alloc = 1;        // emphasis on container allocation
    int max_funcs = 3;
    bool floats = true;
    bool unicode = true;
};

class Gen {
public:
    Gen(Tape& t, Program& p, Cfg c)
        : t(t)
        , p(p)
        , cfg(c)
        , budget(c.budget) {}

    void program() {
        push(true);
        // names of functions are visible everywhere
        size_t nf = t.below(cfg.max_funcs + 1);
        for (size_t i = 0; i < nf; ++i) {
            FuncItem f;
            std::vector<TypeP> sig{T_int()};
            for (size_t k = t.below(3); k-- > 0;) sig.push_back(type(1));
            sig.push_back(type(1));
            f.d = p.decl(sfmt("fn%zu", i), mk(Type::Fun, sig));
            f.d->module = f.d->is_const = true;
            funcs.push_back(f.d);
            p.funcs.push_back(f);
        }
        for (size_t n = t.below(4); n-- > 0;) {
            in_globals = true;
            p.globals.push_back(var_decl(2, true));
            in_globals = false;
        }
        for (auto& f : p.funcs) {
            auto& ty = *f.d->type;
            std::vector<TypeP> args(ty.a.begin(), ty.a.end() - 1);
            f.fn = function(args, ty.a.back(), 3, true);
            f.exported = t.chance(1, 4);
        }
        p.main.d = p.decl("main", nullptr);
        p.main.d->module = true;
        p.main.exported = true;
        Node* fn = p.node(K::Func);
        fn_level++;
        push(true);
        FnState save = fs;
        fs = FnState{};
        fs.ret = type(1);
        int b = budget;
        budget = std::max(budget, cfg.budget / 2);
        (void) b;
        fn->c = {block(nullptr, 10, false, {}, [&](std::vector<Node*>& out) { out.push_back(st(p.node(K::Return, {expr(fs.ret, 2)}))); })};
        pop_keep();
        fs = save;
        fn_level--;
        p.main.fn = fn;
        pop_keep();
    }

    static TypeP T_int() { static TypeP x = mk(Type::Int); return x; }
    static TypeP T_float() { static TypeP x = mk(Type::Float); return x; }
    static TypeP T_bool() { static TypeP x = mk(Type::Bool); return x; }
    static TypeP T_str() { static TypeP x = mk(Type::Str); return x; }
    static TypeP T_sym() { static TypeP x = mk(Type::Sym); return x; }
    static TypeP T_null() { static TypeP x = mk(Type::Null); return x; }

private:
    Tape& t;
    Program& p;
    Cfg cfg;
    int budget;
    bool in_globals = false;

    struct Sc {
        std::vector<Decl*> decls;
        std::set<std::string> names, refd;
        bool fn = false;
        int level = 0;
    };
    std::vector<Sc> scopes;
    int fn_level = 0;
    int next_name = 0;
    std::vector<Decl*> funcs;
    struct FnState {
        TypeP ret;
        int loops = 0;
        bool in_defer = false;
        Decl* fuel = nullptr;
    } fs;

    void push(bool fn = false) {
        scopes.emplace_back();
        scopes.back().fn = fn;
        scopes.back().level = fn_level;
    }
    // leaving a scope: references to outer names were already recorded in all enclosing scopes
    void pop() { scopes.pop_back(); }
    void pop_keep() { scopes.pop_back(); }

    void declare(Decl* d) {
        scopes.back().decls.push_back(d);
        scopes.back().names.insert(d->name);
    }
    struct Vis { Decl* d; size_t scope; };
    std::vector<Vis> visible(const std::function<bool(Decl*)>& pred) {
        std::vector<Vis> r;
        std::set<std::string> seen;
        for (size_t s = scopes.size(); s-- > 0;)
            for (size_t i = scopes[s].decls.size(); i-- > 0;) {
                Decl* d = scopes[s].decls[i];
                if (!seen.insert(d->name).second) continue;
                if (pred(d)) r.push_back({d, s});
            }
        return r;
    }
    Node* use(const Vis& v) {
        for (size_t s = v.scope + 1; s < scopes.size(); ++s) scopes[s].refd.insert(v.d->name);
        if (scopes[v.scope].level != fn_level) v.d->captured = true;
        Node* n = p.node(K::Var);
        n->d = v.d;
        return n;
    }
    std::string new_name() {
        Sc& cur = scopes.back();
        if (t.chance(1, 4)) { // shadow an outer name
            std::vector<std::string> c;
            for (size_t s = 0; s + 1 < scopes.size(); ++s)
                for (auto* d : scopes[s].decls)
                    if (!cur.names.count(d->name) && !cur.refd.count(d->name) && !d->locked) c.push_back(d->name);
            if (!c.empty()) { ++p.stats["shadowing declarations"]; return c[t.below(c.size())]; }
        }
        static const char* base[] = {"a", "b", "c", "x", "y", "z", "val", "tmp"};
        return sfmt("%s%d", base[next_name % 8], next_name) + (++next_name ? "" : "");
    }
    Decl* new_decl(TypeP ty) {
        Decl* d = p.decl(new_name(), std::move(ty));
        return d;
    }

    // ---- types
    TypeP type(int d) {
        if (d <= 0) {
            switch (t.weighted({6, 3, 3, cfg.floats ? 2u : 0u, 1})) {
            case 0: return T_int();
            case 1: return T_str();
            case 2: return T_bool();
            case 3: return T_float();
            default: return T_sym();
            }
        }
        switch (t.weighted({6, 3, 3, 2, 2, 2, 1, cfg.closures, 2})) {
        case 0: return type(0);
        case 1: return mk(Type::Arr, {type(d - 1)}, {}, t.below(3));
        case 2: {
            std::vector<TypeP> a;
            for (size_t n = 1 + t.below(3); n-- > 0;) a.push_back(type(d - 1));
            return mk(Type::Tup, a);
        }
        case 3: {
            static const std::vector<std::string> ns = {"foo", "bar", "baz", "q"};
            std::vector<TypeP> a;
            std::vector<std::string> names;
            size_t n = 1 + t.below(3), at = t.below(4);
            for (size_t i = 0; i < n; ++i) { names.push_back(ns[(at + i) % 4]); a.push_back(type(d - 1)); }
            return mk(Type::Rec, a, names);
        }
        case 4: return mk(Type::Map, {key_type(), type(d - 1)});
        case 5: return mk(Type::Opt, {type(d - 1)});
        case 6: return mk(Type::Set, {key_type()});
        case 7: {
            std::vector<TypeP> a;
            for (size_t n = t.below(3); n-- > 0;) a.push_back(type(0));
            a.push_back(type(d - 1));
            return mk(Type::Fun, a);
        }
        default: return type(0);
        }
    }
    TypeP key_type() { return t.below(2) ? T_str() : T_int(); }

    Node* st(Node* e) {
        Node* n = p.node(K::ExprStmt, {e});
        return n;
    }

    // ---- statements
    Node* var_decl(int depth, bool module = false) {
        Node* n = p.node(K::VarDecl);
        n->flag = t.below(3) == 1;
        TypeP ty = type(2);
        if (t.chance(1, 6)) { // tuple pattern
            std::vector<TypeP> a;
            for (size_t k = 1 + t.below(3); k-- > 0;) a.push_back(type(1));
            Node* init = expr(mk(Type::Tup, a), depth);
            std::vector<Decl*> ds;
            for (auto& x : a) {
                Decl* d = new_decl(x);
                while (scopes.back().names.count(d->name)) d->name += "q";
                d->is_const = n->flag;
                d->module = module;
                scopes.back().names.insert(d->name);
                ds.push_back(d);
            }
            for (auto* d : ds) declare(d);
            n->c = {init};
            n->ds = ds;
            return n;
        }
        Node* init = expr(ty, depth);
        Decl* d = new_decl(ty);
        d->is_const = n->flag;
        d->module = module;
        declare(d);
        n->d = d;
        n->c = {init};
        return n;
    }

    // block with about n statements; with a value if ty is set
    using Part = std::function<void(std::vector<Node*>&)>;
    Node* block(TypeP ty, int n, bool loop_body, const Part& first = {}, const Part& last = {}) {
        (void) loop_body;
        Node* b = p.node(K::Block);
        push();
        if (first) first(b->c);
        int k = ty ? (int) t.below(std::min(n, 3) + 1) : n ? 1 + (int) t.below(n) : 0;
        for (int i = 0; i < k && budget > 0; ++i) stmt(b->c);
        if (ty) {
            b->flag = true;
            b->c.push_back(st_value(expr(ty, 2)));
        }
        if (last) last(b->c);
        pop();
        return b;
    }
    Node* st_value(Node* e) {
        Node* n = st(e);
        n->flag = true;
        return n;
    }

    Node* cond(int d) { return expr(T_bool(), d); }

    void stmt(std::vector<Node*>& out) {
        --budget;
        bool can_exit = !fs.in_defer && !in_globals;
        switch (t.weighted({6, cfg.trace + 3, 8, 4, cfg.loops, cfg.loops, cfg.loops, cfg.defer, cfg.assertion, cfg.early_exit, cfg.katch, cfg.closures, 4, 2, cfg.panic})) {
        case 0: out.push_back(var_decl(cfg.depth)); return;
        case 1: out.push_back(st(p.node(K::Trace, {expr(type(2), cfg.depth)}))); return;
        case 2: { Node* a = assignment(cfg.depth); out.push_back(st(a ? a : p.node(K::Trace, {expr(type(1), 2)}))); return; }
        case 3: { // if
            Node* n = p.node(K::If, {cond(3), block(nullptr, 3, false)});
            if (t.below(2)) n->c.push_back(t.chance(1, 4) ? p.node(K::If, {cond(2), block(nullptr, 2, false)}) : block(nullptr, 3, false));
            out.push_back(st(n));
            return;
        }
        case 4: while_loop(out); return;
        case 5: for_loop(out); return;
        case 6: foreach_loop(out); return;
        case 7: {
            if (fs.in_defer) return;
            FnState save = fs;
            fs.in_defer = true;
            fs.loops = 0;
            Node* e = nullptr;
            switch (t.below(4)) {
            case 0: e = p.node(K::Trace, {expr(type(1), 2)}); break;
            case 1: { e = assignment(2); if (!e) e = p.node(K::Trace, {expr(T_int(), 2)}); break; }
            case 2: e = block(nullptr, 3, false); break;
            default: {
                auto vs = visible([&](Decl* d) { return d->type && d->type->k != Type::Fun; });
                e = p.node(K::Trace, {vs.empty() ? leaf(T_int()) : use(vs[t.below(vs.size())])});
            }
            }
            fs = save;
            out.push_back(p.node(K::Defer, {e}));
            ++p.stats["defer statements"];
            return;
        }
        case 8: {
            Node* n = p.node(K::Assert, {t.below(4) ? p.node(K::Or, {cond(1), lit_true()}) : cond(2)});
            if (t.below(2)) n->c.push_back(expr(T_str(), 1));
            out.push_back(n);
            return;
        }
        case 9: {
            if (!can_exit) return;
            Node* e = nullptr;
            size_t w = t.below(fs.loops > 0 ? 4 : 1);
            if (w == 0) e = p.node(K::Return, {expr(fs.ret, 2)});
            else e = p.node(w == 1 ? K::Break : K::Continue);
            Node* b = p.node(K::Block);
            if (t.below(3) == 1) b->c.push_back(st(p.node(K::Trace, {expr(T_int(), 1)})));
            b->c.push_back(st(e));
            out.push_back(st(p.node(K::If, {cond(2), b})));
            ++p.stats["early exits"];
            return;
        }
        case 10: { // catch as a statement
            out.push_back(st(p.node(K::Trace, {katch(type(1))})));
            return;
        }
        case 11: closure_loop(out); return;
        case 12: swap(out); return;
        case 13: out.push_back(st(block(nullptr, 3, false))); return;
        default: {
            if (t.chance(2, 3)) { // guarded
                Node* b = p.node(K::Block);
                b->c.push_back(st(panic_expr()));
                out.push_back(st(p.node(K::If, {cond(2), b})));
            } else out.push_back(st(panic_expr()));
        }
        }
    }
    Node* lit_true() { return p.node(K::True); }
    Node* panic_expr() {
        ++p.stats["panic sites"];
        Node* s = p.node(K::Str);
        s->s = sfmt("P:%d", (int) t.below(100));
        return p.node(K::Panic, {s});
    }
    Node* int_lit(i64 v) {
        Node* n = p.node(K::Int);
        n->i = v;
        return n;
    }
    Node* var(Decl* d) {
        for (size_t s = scopes.size(); s-- > 0;)
            for (auto* x : scopes[s].decls)
                if (x == d) {
                    for (size_t o = s + 1; o < scopes.size(); ++o)
                        if (scopes[o].names.count(d->name)) abort(); // generator error: the name is shadowed
                    return use({d, s});
                }
        Node* n = p.node(K::Var);
        n->d = d;
        return n;
    }
    Node* bin(const char* op, Node* a, Node* b) {
        Node* n = p.node(K::Binary, {a, b});
        n->s = op;
        return n;
    }
    Decl* counter() {
        Decl* d = p.decl(sfmt("i%d", next_name++), T_int());
        d->locked = true;
        return d;
    }
    Node* decl_stmt(Decl* d, Node* init, bool is_const = false) {
        Node* n = p.node(K::VarDecl, {init});
        n->d = d;
        n->flag = is_const;
        d->is_const = is_const;
        declare(d);
        return n;
    }
    void while_loop(std::vector<Node*>& out) {
        Decl* d = counter();
        out.push_back(decl_stmt(d, int_lit(0)));
        i64 n = t.below(4);
        Node* c = bin("<", var(d), int_lit(n));
        if (t.below(2)) c = p.node(K::And, {c, cond(2)});
        ++fs.loops;
        Node* b = block(nullptr, 4, true);
        --fs.loops;
        // the counter advances first so that continue cannot loop forever
        Node* inc = p.node(K::Assign, {var(d), int_lit(1)});
        inc->s = "+";
        b->c.insert(b->c.begin(), st(inc));
        out.push_back(p.node(K::While, {c, b}));
        ++p.stats["loops"];
    }
    void for_loop(std::vector<Node*>& out) {
        push();
        Decl* d = counter();
        Node* init = decl_stmt(d, int_lit(t.below(3)));
        Node* c = bin("<", var(d), int_lit(t.below(5)));
        if (t.below(3) == 1) c = p.node(K::And, {c, cond(1)});
        Node* inc = p.node(K::Assign, {var(d), int_lit(1)});
        inc->s = "+";
        ++fs.loops;
        Node* b = block(nullptr, 4, true);
        --fs.loops;
        pop();
        out.push_back(p.node(K::For, {init, c, inc, b}));
        ++p.stats["loops"];
    }
    void foreach_loop(std::vector<Node*>& out) {
        Node* n = p.node(K::ForEach);
        Node* src;
        TypeP item;
        bool pair = false;
        switch (t.weighted({4, 2, 2, 1, 1})) {
        case 0: item = type(1); src = expr(mk(Type::Arr, {item}, {}, 1), 2); break;
        case 1: item = type(0); src = expr(mk(Type::Tup, {item, item}), 2); break;
        case 2: { auto k = key_type(), v = type(1); item = mk(Type::Tup, {k, v}); src = expr(mk(Type::Map, {k, v}), 2); pair = t.below(2); break; }
        case 3: item = key_type(); src = expr(mk(Type::Set, {item}), 2); break;
        default: item = T_str(); src = expr(T_str(), 2);
        }
        push();
        if (pair) {
            Decl *a = counter(), *b = counter();
            a->type = item->a[0]; b->type = item->a[1];
            a->is_const = b->is_const = true;
            declare(a); declare(b);
            n->ds = {a, b};
        } else {
            Decl* d = counter();
            d->type = item;
            d->is_const = true;
            declare(d);
            n->d = d;
        }
        ++fs.loops;
        Node* b = block(nullptr, 3, true);
        --fs.loops;
        pop();
        n->c = {src, b};
        out.push_back(n);
        ++p.stats["loops"];
    }
    // collects closures in a loop and calls them afterwards
    void closure_loop(std::vector<Node*>& out) {
        TypeP r = T_int();
        TypeP fty = mk(Type::Fun, {r});
        Decl* fsd = p.decl(sfmt("fs%d", next_name++), mk(Type::Arr, {fty}));
        fsd->locked = true;
        out.push_back(decl_stmt(fsd, p.node(K::ArrayLit), true));
        push();
        Decl* d = counter();
        Node* init = decl_stmt(d, int_lit(0));
        Node* c = bin("<", var(d), int_lit(1 + t.below(3)));
        Node* inc = p.node(K::Assign, {var(d), int_lit(1)});
        inc->s = "+";
        Node* b = p.node(K::Block);
        push();
        ++fs.loops;
        Decl* inner = p.decl(sfmt("in%d", next_name++), T_int());
        b->c.push_back(decl_stmt(inner, t.below(2) ? bin("*", var(d), int_lit(10)) : expr(T_int(), 2)));
        for (size_t k = t.below(3); k-- > 0 && budget > 0;) stmt(b->c);
        Node* app = p.node(K::Method, {var(fsd), function({}, r, 2, false)});
        app->s = "append";
        // make sure the loop variable and the inner variable are captured
        if (t.chance(2, 3)) {
            fn_level++;
            push(true);
            Node* f = p.node(K::Func);
            Node* as = p.node(K::Assign, {var(inner), int_lit(1)});
            as->s = "+";
            f->c = {t.below(2) ? as : bin("+", var(inner), var(d))};
            f->flag = true;
            pop();
            fn_level--;
            app->c[1] = f;
        }
        b->c.push_back(st(app));
        for (size_t k = t.below(2); k-- > 0 && budget > 0;) stmt(b->c);
        --fs.loops;
        pop();
        pop();
        out.push_back(p.node(K::For, {init, c, inc, b}));
        // call them all
        push();
        Node* fe = p.node(K::ForEach);
        Decl* fd = counter();
        fd->type = fty;
        fd->is_const = true;
        declare(fd);
        fe->d = fd;
        Node* body = p.node(K::Block);
        Node* cl = p.node(K::Call, {var(fd)});
        body->c.push_back(st(p.node(K::Trace, {cl})));
        if (t.below(2)) body->c.push_back(st(p.node(K::Trace, {p.node(K::Call, {var(fd)})})));
        pop();
        fe->c = {var(fsd), body};
        out.push_back(fe);
        ++p.stats["closures created in loops"];
    }
    // loop that rotates several variables: stresses phis and parallel copies
    void swap(std::vector<Node*>& out) {
        auto vs = visible([&](Decl* d) { return d->type && d->type->k == Type::Int && !d->is_const && !d->locked; });
        std::vector<Decl*> ds;
        for (auto& v : vs)
            if (ds.size() < 4) ds.push_back(v.d);
        while (ds.size() < 2) {
            Decl* d = p.decl(sfmt("s%d", next_name++), T_int());
            out.push_back(decl_stmt(d, expr(T_int(), 1)));
            ds.push_back(d);
        }
        auto assign = [&] {
            std::vector<Node*> l, r;
            size_t n = 2 + t.below(ds.size() - 1);
            size_t a = t.below(ds.size()), b = t.below(ds.size());
            for (size_t i = 0; i < n; ++i) l.push_back(var(ds[(a + i) % ds.size()]));
            for (size_t i = 0; i < n; ++i) r.push_back(t.chance(1, 4) ? expr(T_int(), 1) : var(ds[(b + i * (1 + t.below(2))) % ds.size()]));
            l.push_back(p.node(K::TupleLit, r));
            return st(p.node(K::TupleAssign, l));
        };
        if (t.below(3) == 0) out.push_back(assign());
        else {
            push();
            Decl* d = counter();
            Node* init = decl_stmt(d, int_lit(0));
            Node* c = bin("<", var(d), int_lit(1 + t.below(4)));
            Node* inc = p.node(K::Assign, {var(d), int_lit(1)});
            inc->s = "+";
            Node* b = p.node(K::Block);
            push();
            ++fs.loops;
            b->c.push_back(assign());
            if (t.below(2)) {
                Node* ib = p.node(K::Block, {assign()});
                if (t.below(3) == 1) ib->c.push_back(st(p.node(t.below(2) ? K::Continue : K::Break)));
                b->c.push_back(st(p.node(K::If, {cond(2), ib})));
            }
            if (t.below(2)) b->c.push_back(assign());
            --fs.loops;
            pop();
            pop();
            out.push_back(p.node(K::For, {init, c, inc, b}));
        }
        std::vector<Node*> l;
        for (auto* d : ds) l.push_back(var(d));
        out.push_back(st(p.node(K::Trace, {p.node(K::TupleLit, l)})));
        ++p.stats["variable rotations"];
    }

    // assignment expression of any type (null if there is nothing to assign)
    Node* assignment(int d) {
        switch (t.weighted({6, 4, 3, 2, 2, 2, 2})) {
        case 0: { // variable
            auto vs = visible([&](Decl* x) { return x->type && !x->is_const && !x->locked; });
            if (vs.empty()) return nullptr;
            auto v = vs[t.below(vs.size())];
            return p.node(K::Assign, {use(v), expr(v.d->type, d - 1)});
        }
        case 1: { // compound
            auto vs = visible([&](Decl* x) { return x->type && !x->is_const && !x->locked && (x->type->k == Type::Int || x->type->k == Type::Float); });
            if (vs.empty()) return nullptr;
            auto v = vs[t.below(vs.size())];
            Node* n = p.node(K::Assign, {use(v), expr(t.below(4) ? T_int() : v.d->type, d - 1)});
            n->s = t.pick<const char*>({"+", "-", "*", "+", "-", "%", "/", "**"});
            if (v.d->type->k == Type::Int) n->c[1] = expr(T_int(), d - 1);
            if (n->s == "**") n->c[1] = int_lit(t.below(3));
            return n;
        }
        case 2: { // array element
            auto vs = visible([&](Decl* x) { return x->type && x->type->k == Type::Arr && x->type->min > 0; });
            if (vs.empty()) return nullptr;
            auto v = vs[t.below(vs.size())];
            Node* ix = p.node(K::Index, {use(v), maybe_trace(int_lit(t.below(v.d->type->min)))});
            return store(ix, v.d->type->a[0], d);
        }
        case 3: { // record member
            auto vs = visible([&](Decl* x) { return x->type && x->type->k == Type::Rec; });
            if (vs.empty()) return nullptr;
            auto v = vs[t.below(vs.size())];
            size_t i = t.below(v.d->type->a.size());
            Node* f = p.node(K::Field, {use(v)});
            f->s = v.d->type->names[i];
            return store(f, v.d->type->a[i], d);
        }
        case 4: { // map element / set / array methods
            auto vs = visible([&](Decl* x) { return x->type && (x->type->k == Type::Map || x->type->k == Type::Set || x->type->k == Type::Arr); });
            if (vs.empty()) return nullptr;
            auto v = vs[t.below(vs.size())];
            auto& ty = *v.d->type;
            if (ty.k == Type::Arr) {
                Node* m = p.node(K::Method, {use(v), expr(ty.a[0], d - 1)});
                m->s = "append";
                return m;
            }
            if (ty.k == Type::Map && t.below(3)) return p.node(K::Assign, {p.node(K::Index, {use(v), expr(ty.a[0], 1)}), expr(ty.a[1], d - 1)});
            Node* m = p.node(K::Method, {use(v), expr(ty.a[0], 1)});
            m->s = ty.k == Type::Set && t.below(2) ? "insert" : "remove";
            return m;
        }
        case 5: { // tuple member
            auto vs = visible([&](Decl* x) { return x->type && x->type->k == Type::Tup && !x->type->a.empty(); });
            if (vs.empty()) return nullptr;
            auto v = vs[t.below(vs.size())];
            size_t i = t.below(v.d->type->a.size());
            Node* f;
            if (t.below(2)) {
                f = p.node(K::TupleField, {use(v)});
                f->i = i;
            } else f = p.node(K::Index, {use(v), maybe_trace(int_lit(i))});
            return store(f, v.d->type->a[i], d);
        }
        default: { // tuple assignment
            auto vs = visible([&](Decl* x) { return x->type && !x->is_const && !x->locked; });
            if (vs.empty()) return nullptr;
            std::vector<Node*> l, r;
            std::vector<TypeP> ts;
            for (size_t n = 1 + t.below(3); n-- > 0;) {
                auto v = vs[t.below(vs.size())];
                if (v.d->type->k == Type::Arr && v.d->type->min > 0 && t.below(2)) {
                    l.push_back(p.node(K::Index, {use(v), maybe_trace(int_lit(t.below(v.d->type->min)))}));
                    ts.push_back(v.d->type->a[0]);
                } else {
                    l.push_back(use(v));
                    ts.push_back(v.d->type);
                }
            }
            if (t.below(3)) {
                for (auto& x : ts) r.push_back(expr(x, d - 1));
                l.push_back(p.node(K::TupleLit, r));
            } else
                l.push_back(expr(mk(Type::Tup, ts), d - 1));
            return p.node(K::TupleAssign, l);
        }
        }
    }
    Node* store(Node* place, const TypeP& ty, int d) {
        Node* n = p.node(K::Assign, {place, nullptr});
        if (ty->k == Type::Int && t.below(2)) {
            n->s = t.pick<const char*>({"+", "-", "*"});
            n->c[1] = expr(T_int(), d - 1);
        } else
            n->c[1] = expr(ty, d - 1);
        return n;
    }
    Node* maybe_trace(Node* n) { return t.below(6) < cfg.trace / 2 ? p.node(K::Trace, {n}) : n; }

    // function literal
    Node* function(const std::vector<TypeP>& args, const TypeP& ret, int size, bool fuelled) {
        Node* fn = p.node(K::Func);
        fn_level++;
        push(true);
        FnState save = fs;
        Decl* outer_fuel = fs.fuel;
        fs = FnState{};
        fs.ret = ret;
        fs.fuel = outer_fuel;
        for (size_t i = 0; i < args.size(); ++i) {
            Decl* d = p.decl(sfmt("p%d", next_name++), args[i]);
            if (fuelled && i == 0) { d->locked = true; fs.fuel = d; d->name = sfmt("n%d", next_name++); }
            declare(d);
            fn->ds.push_back(d);
        }
        if (!fuelled && t.below(2) == 0) {
            fn->flag = true;
            fn->c = {expr(ret, 2)};
        } else if (!fuelled && t.chance(1, 4)) {
            fn->flag = true;
            fn->c = {block(ret, 2, false)};
        } else {
            Part guard, ret_stmt = [&](std::vector<Node*>& out) { out.push_back(st(p.node(K::Return, {expr(ret, 2)}))); };
            if (fuelled) guard = [&](std::vector<Node*>& out) {
                Node* g = block(nullptr, 0, false, [&](std::vector<Node*>& o) { o.push_back(st(p.node(K::Return, {leaf(ret)}))); });
                out.push_back(st(p.node(K::If, {bin("<=", var(fs.fuel), int_lit(0)), g})));
            };
            Node* b = block(nullptr, fuelled ? 5 : size, false, guard, ret_stmt);
            fn->c = {b};
        }
        fs = save;
        pop();
        fn_level--;
        ++p.stats["functions"];
        return fn;
    }

    Node* katch(const TypeP& ty) {
        Node* f = function({}, ty, 4, false);
        ++p.stats["catches"];
        return p.node(K::Catch, {f, leaf(ty)});
    }

    // ---- expressions
    Node* leaf(const TypeP& ty) {
        if (t.below(2) && !in_globals) {
            auto vs = visible([&](Decl* x) { return x->type && x->type->key == ty->key; });
            if (!vs.empty()) return use(vs[t.below(vs.size())]);
        }
        return literal(ty, 1);
    }

    Node* literal(const TypeP& ty, int d) {
        switch (ty->k) {
        case Type::Int: return int_lit(t.chance(1, 30) ? t.any_i64() : t.range(0, 9) * t.pick<i64>({1, 1, 1, -1, 7}));
        case Type::Float: {
            Node* n = p.node(K::Float);
            static const f64 fsv[] = {0.0, 0.5, 1.0, 1.5, 2.0, -1.25, 3.75, 100.0, 0.125};
            n->f = fsv[t.below(9)];
            return n;
        }
        case Type::Bool: return p.node(t.below(2) ? K::True : K::False);
        case Type::Str: {
            Node* n = p.node(K::Str);
            static const char* parts[] = {"a", "b", "xy", "Z9", " ", "$", "'", "\"", "\\", "\n", "\t", "{", "}", "-", "0"};
            static const char* uni[] = {"é", "λ", "😀"};
            for (size_t k = t.below(4); k-- > 0;) n->s += cfg.unicode && t.chance(1, 15) ? uni[t.below(3)] : parts[t.below(15)];
            return n;
        }
        case Type::Sym: {
            Node* n = p.node(K::Sym);
            n->s = t.pick<const char*>({"a", "foo", "bar_baz"});
            return n;
        }
        case Type::Null: return p.node(K::Null);
        case Type::Opt: return t.below(2) ? literal(ty->a[0], d) : p.node(K::Null);
        case Type::Arr: {
            Node* n = p.node(K::ArrayLit);
            for (size_t k = ty->min + t.below(2); k-- > 0;) n->c.push_back(sub(ty->a[0], d - 1));
            return n;
        }
        case Type::Tup: {
            Node* n = p.node(K::TupleLit);
            for (auto& x : ty->a) n->c.push_back(sub(x, d - 1));
            return n;
        }
        case Type::Rec: {
            Node* n = p.node(K::RecordLit);
            n->names = ty->names;
            for (auto& x : ty->a) n->c.push_back(sub(x, d - 1));
            return n;
        }
        case Type::Map: {
            Node* n = p.node(K::MapLit);
            for (size_t k = t.below(3); k-- > 0;) { n->c.push_back(sub(ty->a[0], d - 1)); n->c.push_back(sub(ty->a[1], d - 1)); }
            return n;
        }
        case Type::Set: {
            Node* n = p.node(K::SetLit);
            for (size_t k = t.below(4); k-- > 0;) n->c.push_back(sub(ty->a[0], d - 1));
            return n;
        }
        case Type::Fun: {
            std::vector<TypeP> args(ty->a.begin(), ty->a.end() - 1);
            if (d <= 0 || budget <= 0) {
                Node* fn = p.node(K::Func);
                fn->flag = true;
                fn_level++;
                push(true);
                for (auto& a : args) {
                    Decl* dd = p.decl(sfmt("p%d", next_name++), a);
                    declare(dd);
                    fn->ds.push_back(dd);
                }
                bool g = in_globals;
                fn->c = {leaf(ty->a.back())};
                in_globals = g;
                pop();
                fn_level--;
                return fn;
            }
            return function(args, ty->a.back(), 3, false);
        }
        default: return int_lit(0);
        }
    }
    Node* sub(const TypeP& ty, int d) { return d > 0 && budget > 0 ? expr(ty, d) : leaf(ty); }

    Node* call_args(Node* callee, const Type& fty, int d, size_t from = 0) {
        Node* n = p.node(K::Call, {callee});
        for (size_t i = from; i + 1 < fty.a.size(); ++i) n->c.push_back(expr(fty.a[i], d - 1));
        return n;
    }

    Node* expr(TypeP ty, int d) {
        --budget;
        if (cfg.bad_type && t.below(1000) >= 1000 - cfg.bad_type) ty = type(1);
        if (d <= 0 || budget <= 0) return leaf(ty);
        // type independent forms
        switch (t.weighted({9, 6, cfg.trace, 12, 2, 2, 2, 2, 3, 1, 2, 3, 1, cfg.panic ? 1u : 0u})) {
        case 0: return leaf(ty);
        case 1: {
            auto vs = visible([&](Decl* x) { return x->type && x->type->key == ty->key; });
            if (!vs.empty()) return use(vs[t.below(vs.size())]);
            break;
        }
        case 2: return p.node(K::Trace, {expr(ty, d - 1)});
        case 3: break; // type specific
        case 4: return p.node(K::If, {cond(d - 1), block(ty, 2, false), block(ty, 2, false)});
        case 5: return block(ty, 3, false);
        case 6: { // assignment as expression
            auto vs = visible([&](Decl* x) { return x->type && x->type->key == ty->key && !x->is_const && !x->locked; });
            if (vs.empty()) break;
            auto v = vs[t.below(vs.size())];
            return p.node(K::Assign, {use(v), expr(ty, d - 1)});
        }
        case 7: { // function values
            auto vs = visible([&](Decl* x) { return x->type && x->type->k == Type::Fun && x->type->a.back()->key == ty->key; });
            if (vs.empty()) break;
            auto v = vs[t.below(vs.size())];
            return call_args(use(v), *v.d->type, d);
        }
        case 8: { // module functions
            if (in_globals) break;
            std::vector<Decl*> c;
            for (auto* f : funcs)
                if (f->type->a.back()->key == ty->key) c.push_back(f);
            if (c.empty()) break;
            Decl* f = c[t.below(c.size())];
            Node* n = p.node(K::Var);
            n->d = f;
            Node* call = p.node(K::Call, {n, fs.fuel ? bin("-", var(fs.fuel), int_lit(1)) : int_lit(t.below(3) + 1)});
            for (size_t i = 1; i + 1 < f->type->a.size(); ++i) call->c.push_back(expr(f->type->a[i], d - 1));
            ++p.stats["module function calls"];
            return call;
        }
        case 9:
            if (cfg.katch && !in_globals) return katch(ty);
            break;
        case 10: { // e ?? e
            Node* rhs = expr(ty, d - 1);
            if (ty->k != Type::Null && !fs.in_defer && !in_globals && fs.ret && t.chance(1, 6)) {
                rhs = fs.loops > 0 && t.below(2) ? p.node(t.below(2) ? K::Break : K::Continue) : p.node(K::Return, {expr(fs.ret, 1)});
                ++p.stats["early exits in expressions"];
            }
            return p.node(K::Coalesce, {expr(mk(Type::Opt, {ty}), d - 1), rhs});
        }
        case 11: // member of a compound value
            if (Node* n = member(ty, d)) return n;
            break;
        case 12: { // immediately called function
            if (in_globals) break;
            TypeP a = type(0);
            return p.node(K::Call, {function({a}, ty, 2, false), expr(a, d - 1)});
        }
        case 13:
            if (t.chance(1, 8) && !in_globals) return panic_expr();
            break;
        }
        switch (ty->k) {
        case Type::Int: return int_expr(d);
        case Type::Float: return float_expr(d);
        case Type::Bool: return bool_expr(d);
        case Type::Str: return str_expr(d);
        case Type::Opt: return opt_expr(ty, d);
        default:
            if (t.chance(1, 5)) return p.node(t.below(2) ? K::And : K::Or, {expr(ty, d - 1), expr(ty, d - 1)});
            return literal(ty, d);
        }
    }

    // element, field, member of a visible variable or fresh value with a matching part
    Node* member(const TypeP& ty, int d) {
        auto has = [&](const Type& x) {
            if (x.k == Type::Arr) return x.min > 0 && x.a[0]->key == ty->key;
            if (x.k == Type::Tup || x.k == Type::Rec)
                for (auto& y : x.a)
                    if (y->key == ty->key) return true;
            return false;
        };
        auto vs = visible([&](Decl* x) { return x->type && has(*x->type); });
        Node* base;
        TypeP bt;
        if (!vs.empty() && t.below(4)) {
            auto v = vs[t.below(vs.size())];
            base = use(v);
            bt = v.d->type;
        } else {
            switch (t.below(3)) {
            case 0: bt = mk(Type::Tup, {type(0), ty}); break;
            case 1: bt = mk(Type::Rec, {ty, type(0)}, {"foo", "bar"}); break;
            default: bt = mk(Type::Arr, {ty}, {}, 1);
            }
            base = expr(bt, d - 1);
        }
        if (bt->k == Type::Arr) return p.node(K::Index, {base, maybe_trace(int_lit(t.below(bt->min)))});
        std::vector<size_t> at;
        for (size_t i = 0; i < bt->a.size(); ++i)
            if (bt->a[i]->key == ty->key) at.push_back(i);
        size_t i = at[t.below(at.size())];
        if (bt->k == Type::Rec) {
            Node* n = p.node(K::Field, {base});
            n->s = bt->names[i];
            return n;
        }
        if (t.below(3) == 1) return p.node(K::Index, {base, int_lit(i)});
        Node* n = p.node(K::TupleField, {base});
        n->i = i;
        return n;
    }

    Node* int_expr(int d) {
        switch (t.weighted({10, 3, 2, 2, 1, 2, 2, 3})) {
        case 0: return bin(t.pick<const char*>({"+", "-", "*"}), expr(T_int(), d - 1), expr(T_int(), d - 1));
        case 1: {
            Node* r = t.chance(4, 5) ? int_lit(1 + t.below(9)) : expr(T_int(), d - 1);
            return bin(t.pick<const char*>({"/", "%"}), expr(T_int(), d - 1), r);
        }
        case 2: {
            Node* n = p.node(K::Unary, {expr(T_int(), d - 1)});
            n->s = t.pick<const char*>({"-", "+", "~"});
            return n;
        }
        case 3: {
            TypeP c = t.below(2) ? T_str() : mk(Type::Arr, {type(0)}, {}, 0);
            Node* n = p.node(K::Method, {expr(c, d - 1)});
            n->s = "size";
            return n;
        }
        case 4: return bin("**", expr(T_int(), d - 1), t.below(4) ? int_lit(t.below(4)) : expr(T_int(), 1));
        case 5: { // compound assignment
            auto vs = visible([&](Decl* x) { return x->type && x->type->k == Type::Int && !x->is_const && !x->locked; });
            if (vs.empty()) return expr(T_int(), d - 1);
            Node* n = p.node(K::Assign, {use(vs[t.below(vs.size())]), expr(T_int(), d - 1)});
            n->s = t.pick<const char*>({"+", "-", "*"});
            return n;
        }
        case 6: {
            TypeP c = t.below(2) ? mk(Type::Map, {T_int(), T_int()}) : mk(Type::Set, {T_str()});
            Node* n = p.node(K::Method, {expr(c, d - 1)});
            n->s = "size";
            return n;
        }
        default: return bin("+", expr(T_int(), d - 1), expr(T_int(), d - 1));
        }
    }
    Node* float_expr(int d) {
        TypeP other = t.below(2) ? T_int() : T_float();
        Node *a = expr(T_float(), d - 1), *b = expr(other, d - 1);
        if (t.below(2)) std::swap(a, b);
        return bin(t.pick<const char*>({"+", "-", "*", "/", "%"}), a, b);
    }
    Node* bool_expr(int d) {
        switch (t.weighted({6, 4, 3, 3, 2, 2, 1})) {
        case 0: {
            TypeP x = cfg.floats && t.chance(1, 5) ? T_float() : T_int();
            return bin(t.pick<const char*>({"<", "<=", ">", ">=", "==", "!="}), expr(T_int(), d - 1), expr(x, d - 1));
        }
        case 1: {
            TypeP x = type(1);
            return bin(t.pick<const char*>({"==", "!="}), expr(x, d - 1), expr(x, d - 1));
        }
        case 2: return p.node(K::And, {expr(T_bool(), d - 1), expr(T_bool(), d - 1)});
        case 3: return p.node(K::Or, {expr(T_bool(), d - 1), expr(T_bool(), d - 1)});
        case 4: {
            Node* n = p.node(K::Unary, {expr(t.below(3) ? T_bool() : type(1), d - 1)});
            n->s = "!";
            return n;
        }
        case 5: {
            TypeP k = key_type();
            TypeP c = t.below(2) ? mk(Type::Set, {k}) : mk(Type::Map, {k, type(0)});
            Node* n = p.node(K::Method, {expr(c, d - 1), expr(k, d - 1)});
            n->s = "contains";
            return n;
        }
        default: {
            Node* n = p.node(K::Method, {expr(T_str(), d - 1), expr(T_str(), d - 1)});
            n->s = "contains";
            return n;
        }
        }
    }
    Node* str_expr(int d) {
        if (t.chance(1, 5)) {
            Node* n = p.node(K::Method, {expr(T_str(), d - 1), expr(T_int(), d - 1)});
            n->s = t.pick<const char*>({"slice_first", "slice_last", "slice"});
            if (n->s == "slice") n->c.push_back(expr(T_int(), d - 1));
            Node* m = p.node(K::Method, {n});
            m->s = "to_string";
            return m;
        }
        Node* n = p.node(K::Interp);
        size_t parts = 1 + t.below(3);
        bool any = false;
        for (size_t i = 0; i < parts; ++i) {
            if (t.below(3) == 0 && i + 1 < parts) {
                Node* s = literal(T_str(), 0);
                if (!s->s.empty()) n->c.push_back(s);
                // two literal parts in a row are not an interpolation of their own
                if (n->c.size() >= 2 && n->c[n->c.size() - 2]->k == K::Str) {
                    n->c[n->c.size() - 2]->s += s->s;
                    n->c.pop_back();
                }
                continue;
            }
            Node* e = expr(t.pick<TypeP>({T_int(), T_str(), T_bool(), T_sym(), cfg.floats ? T_float() : T_int()}), d - 1);
            if (e->k == K::Str) e->extra_parens = 1; // print as ${("...")}
            n->c.push_back(e);
            any = true;
        }
        if (!any) n->c.push_back(int_lit(1));
        ++p.stats["interpolations"];
        return n;
    }
    Node* opt_expr(const TypeP& ty, int d) {
        const TypeP& x = ty->a[0];
        switch (t.weighted({3, 4, 3, 2, 3, 2})) {
        case 0: return p.node(K::Null);
        case 1: return expr(x, d - 1);
        case 2: { // map lookup
            TypeP k = key_type();
            Node* m = expr(mk(Type::Map, {k, x}), d - 1);
            return p.node(K::Index, {m, expr(k, d - 1)});
        }
        case 3: { // optional record member, possibly followed by more accesses
            TypeP r = mk(Type::Rec, {x, type(0)}, {"foo", "bar"});
            if (t.below(2)) {
                TypeP outer = mk(Type::Tup, {r});
                Node* o = p.node(K::TupleField, {expr(mk(Type::Opt, {outer}), d - 1)});
                o->opt = true;
                Node* n = p.node(K::Field, {o});
                n->s = "foo";
                n->opt = t.below(2);
                return n;
            }
            Node* n = p.node(K::Field, {expr(mk(Type::Opt, {r}), d - 1)});
            n->s = "foo";
            n->opt = true;
            return n;
        }
        case 4: {
            TypeP a = mk(Type::Arr, {x}, {}, 1);
            Node* n = p.node(K::Index, {expr(mk(Type::Opt, {a}), d - 1), maybe_trace(int_lit(0))});
            n->opt = true;
            return n;
        }
        default: {
            TypeP f = mk(Type::Fun, {T_int(), x});
            Node* n = p.node(K::Call, {expr(mk(Type::Opt, {f}), d - 1), expr(T_int(), d - 1)});
            n->opt = true;
            return n;
        }
        }
    }
};

} // namespace lang
#endif
