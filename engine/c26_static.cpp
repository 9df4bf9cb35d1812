// C26: the static rules. Random programs over very few names, a reference implementation of the scopes and the static rules.
//
//  A program that breaks no rule is accepted, and every use of a name reads the declaration that the rules select;
//  a program that breaks a rule is rejected, and every reported position is one of a construct that breaks a rule.
#include "pbt.hpp"
#include "tiro_util.hpp"

#include <memory>
#include <set>

using namespace tu;
using pbt::Case;
using pbt::Suite;
using pbt::Tape;

namespace {

// ------------------------------------------------------------------------------------------------------ the program
struct Stmt;
struct Expr;
using SP = std::unique_ptr<Stmt>;
using EP = std::unique_ptr<Expr>;
struct Block {
    std::vector<SP> stmts;
    int line = 0;
};
struct Decl { // a declared name
    std::string name;
    int id = 0;
    int line = 0;
    enum Kind { import, function, parameter, variable } kind = variable;
    bool is_const = false;
    bool active = false, captured = false, has_init = false;
    int function_level = 0; // identity of the function it belongs to
    bool module_scope = false;
};
struct Func {
    std::unique_ptr<Decl> name; // may be missing
    std::unique_ptr<Decl> params[2];
    Block body;
    bool is_value = false; // = { body }
    int line = 0;
    bool exported = false;
};
struct Expr {
    enum Kind { number, use, block, if_value, assign, compound, lambda, logic, tuple, record, format } kind = number;
    int id = 0, line = 0;
    std::string name;        // use, assign, compound
    Decl* resolved = nullptr;
    Block b1, b2;            // block, if
    bool has_else = true;
    bool chain = false;      // else if
    std::unique_ptr<Func> f; // lambda
    std::vector<EP> sub;     // operands
    std::vector<std::string> keys;
};
struct Stmt {
    enum Kind { decl, expr, target_stmt, block, if_stmt, while_stmt, for_stmt, for_each, break_stmt, continue_stmt, return_stmt, defer, func, assert_stmt, nop } kind = nop;
    int line = 0;
    // decl, for_stmt, for_each: bindings, each of one name or several
    struct Binding {
        std::vector<std::unique_ptr<Decl>> names;
        EP init;
        int line = 0;
    };
    std::vector<Binding> bindings;
    bool is_const = false, exported = false;
    EP e, e2;
    Block b1, b2;
    bool has_else = false, chain = false;
    std::unique_ptr<Func> f;
    // target: assignments to something that is not a name
    std::string target;
    std::vector<std::string> names; // tuple assignment
    std::vector<Decl*> resolved;
    bool bad = false;
};
bool valid_target(const std::string& s) {
    static const std::set<std::string> all{"(NAME, NAME) =", "(box[0], NAME) =", "(NAME, box[0], NAME) =", "(rec.x, NAME) =", "(NAME,) =", "(box[1], rec.x, box[0], NAME) ="};
    return all.count(s);
}
bool is_chain(const Block& b, bool chain) { return chain && b.stmts.size() == 1 && b.stmts[0]->kind == Stmt::if_stmt; }
struct File {
    std::vector<std::unique_ptr<Decl>> imports;
    std::vector<SP> items; // decl and func
};

const std::vector<std::string> pool{"a", "b", "c", "d"};

// -------------------------------------------------------------------------------------------------------- generator
struct Gen {
    Tape& t;
    int ids = 0;
    int budget = 60;
    int names = 4;

    int next_id() { return ++ids; }
    std::string name() { return pool[t.below((size_t) names)]; }
    std::unique_ptr<Decl> decl(Decl::Kind k, bool is_const) {
        auto d = std::make_unique<Decl>();
        d->name = name();
        d->kind = k;
        d->is_const = is_const;
        d->id = next_id();
        return d;
    }
    EP literal() {
        auto e = std::make_unique<Expr>();
        e->id = next_id();
        return e;
    }
    EP expr(int depth) {
        --budget;
        auto e = std::make_unique<Expr>();
        e->id = next_id();
        static const std::vector<pbt::u32> w = {3, 10, 2, 2, 3, 1, 2, 1, 1, 1, 1};
        e->kind = depth > 3 || budget < 0 ? (t.chance(1, 3) ? Expr::number : Expr::use) : (Expr::Kind) t.weighted(w);
        switch (e->kind) {
        case Expr::number: break;
        case Expr::use: e->name = name(); break;
        case Expr::block: e->b1 = value_block(depth + 1); break;
        case Expr::if_value:
            e->sub.push_back(expr(depth + 1));
            e->b1 = value_block(depth + 1);
            e->has_else = !t.chance(1, 12);
            if (e->has_else && (e->chain = t.chance(1, 4))) e->b2.stmts.push_back(if_stmt(depth + 1, true));
            else if (e->has_else) e->b2 = value_block(depth + 1);
            break;
        case Expr::assign:
            e->name = name();
            e->sub.push_back(expr(depth + 1));
            break;
        case Expr::compound: e->name = name(); break;
        case Expr::lambda: e->f = func(depth + 1, t.chance(1, 2)); break;
        case Expr::logic:
        case Expr::tuple:
        case Expr::format:
            e->sub.push_back(expr(depth + 1));
            e->sub.push_back(expr(depth + 1));
            break;
        case Expr::record:
            e->sub.push_back(expr(depth + 1));
            e->sub.push_back(expr(depth + 1));
            for (size_t i = 0, n = 2 + t.weighted({4, 1, 1, 1}); i < n; ++i) e->keys.push_back(i && t.chance(1, 12) ? e->keys[t.below(i)] : sfmt("k%zu", i));
            break;
        }
        return e;
    }
    Block value_block(int depth) {
        Block b = block(depth, 2);
        if (t.chance(7, 8)) {
            auto s = std::make_unique<Stmt>();
            s->kind = Stmt::expr;
            s->e = expr(depth + 1);
            b.stmts.push_back(std::move(s));
        }
        return b;
    }
    std::unique_ptr<Func> func(int depth, bool named) {
        auto f = std::make_unique<Func>();
        if (named) f->name = decl(Decl::function, true);
        else next_id();
        for (auto& p : f->params) p = decl(Decl::parameter, false);
        f->is_value = t.chance(1, 6);
        f->body = f->is_value ? value_block(depth) : block(depth, 4);
        return f;
    }
    Block block(int depth, int max) {
        Block b;
        size_t n = t.below((size_t) max + 1);
        for (size_t i = 0; i < n && budget > 0; ++i) b.stmts.push_back(stmt(depth + 1));
        return b;
    }
    SP var_decl(int depth, bool module) {
        auto s = std::make_unique<Stmt>();
        s->kind = Stmt::decl;
        s->is_const = t.chance(1, 2);
        s->exported = module && t.chance(1, 6);
        size_t n = t.chance(1, 6) ? 2 : 1;
        for (size_t i = 0; i < n; ++i) {
            Stmt::Binding b;
            size_t k = t.chance(1, 6) ? 2 : 1;
            for (size_t j = 0; j < k; ++j) b.names.push_back(decl(Decl::variable, s->is_const));
            if (t.chance(s->is_const ? 15 : module ? 7 : 2, s->is_const ? 16 : module ? 8 : 3)) b.init = expr(depth);
            // printed as the value itself, which has the identity of the variable
            if (s->is_const && b.init && k == 1 && b.init->kind == Expr::lambda && !b.init->f->name) b.names[0]->id = b.init->f->params[0]->id - 1;
            s->bindings.push_back(std::move(b));
        }
        return s;
    }
    SP if_stmt(int depth, bool value) {
        auto s = std::make_unique<Stmt>();
        s->kind = Stmt::if_stmt;
        s->e = expr(depth + 1);
        s->b1 = value ? value_block(depth) : block(depth, 3);
        s->has_else = value ? !t.chance(1, 12) : t.chance(1, 2);
        if (s->has_else && (s->chain = t.chance(1, 4) && budget > 0)) s->b2.stmts.push_back(if_stmt(depth + 1, value));
        else if (s->has_else) s->b2 = value ? value_block(depth) : block(depth, 3);
        return s;
    }
    SP stmt(int depth) {
        --budget;
        auto s = std::make_unique<Stmt>();
        static const std::vector<pbt::u32> w = {10, 14, 3, 3, 5, 2, 2, 2, 1, 1, 1, 1, 3, 1, 1};
        auto k = (Stmt::Kind) t.weighted(w);
        if (depth > 5 && (k == Stmt::block || (k >= Stmt::if_stmt && k <= Stmt::for_each) || k == Stmt::defer || k == Stmt::func)) k = Stmt::expr;
        if (k == Stmt::decl) return var_decl(depth, false);
        s->kind = k;
        switch (k) {
        case Stmt::expr: s->e = expr(depth); break;
        case Stmt::target_stmt: {
            static const std::vector<std::string> targets{"(NAME, NAME) =", "(NAME, NAME) =", "(NAME, (NAME, NAME)) =", "1 =", "u(0, 0) =", "(NAME, NAME) +=", "u(0, 0)?.x =", "(1) +=", "(NAME + 1) =",
                "u(0, 0)?.x.y[0] =", "u(0, 0).x[0]?.y =", "u?(0, 0).x =", "u(0, 0)?[0].x +=", "(NAME, u(0, 0)?.x) =", "(NAME, 1) =", "u(0, 0)?.0.1 =",
                "u(0, 0)?.f().y =", "u(0, 0)?[0](1)[0].y +=", "u(0, 0).f?().y[1] =", "(NAME, u(0, 0)?.f().x) =",
                // valid ones
                "(box[0], NAME) =", "(NAME, box[0], NAME) =", "(rec.x, NAME) =", "(NAME,) =", "(box[1], rec.x, box[0], NAME) ="};
            s->target = targets[t.weighted({8, 8, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 3, 3, 3, 2, 2})];
            for (size_t i = 0; i + 4 <= s->target.size(); ++i)
                if (s->target.compare(i, 4, "NAME") == 0) s->names.push_back(name());
            s->e = literal();
            break;
        }
        case Stmt::block:
            s->b1 = block(depth, 4);
            if (t.chance(1, 25)) { // many levels
                for (size_t i = 0, n = 8 + t.below(40); i < n; ++i) {
                    auto o = std::make_unique<Stmt>();
                    o->kind = Stmt::block;
                    o->b1.stmts.push_back(std::move(s));
                    s = std::move(o);
                }
            } else if (t.chance(1, 8)) { // functions in functions
                for (size_t i = 0, n = 2 + t.below(8); i < n; ++i) {
                    auto o = std::make_unique<Stmt>();
                    o->kind = Stmt::expr;
                    o->e = std::make_unique<Expr>();
                    o->e->kind = Expr::lambda;
                    o->e->id = next_id();
                    o->e->f = std::make_unique<Func>();
                    next_id();
                    for (auto& p : o->e->f->params) p = decl(Decl::parameter, false), p->name = i % 2 ? p->name : sfmt("p%d", p->id);
                    o->e->f->body.stmts.push_back(std::move(s));
                    s = std::move(o);
                }
            }
            break;
        case Stmt::if_stmt:
            return if_stmt(depth, false);
        case Stmt::while_stmt:
            s->e = expr(depth + 1);
            s->b1 = block(depth, 4);
            break;
        case Stmt::for_stmt: {
            auto v = var_decl(depth + 1, false);
            s->is_const = v->is_const;
            s->bindings = std::move(v->bindings);
            s->e = expr(depth + 1);
            s->e2 = expr(depth + 1);
            s->b1 = block(depth, 4);
            break;
        }
        case Stmt::for_each: {
            Stmt::Binding b;
            size_t n = t.chance(1, 4) ? 2 : 1;
            for (size_t j = 0; j < n; ++j) b.names.push_back(decl(Decl::variable, true));
            b.init = expr(depth + 1);
            s->bindings.push_back(std::move(b));
            s->b1 = block(depth, 4);
            break;
        }
        case Stmt::return_stmt:
            if (t.chance(1, 2)) s->e = expr(depth + 1);
            break;
        case Stmt::defer: s->b1 = block(depth, 2); break;
        case Stmt::func: s->f = func(depth, true); break;
        case Stmt::assert_stmt:
            s->bad = t.chance(1, 4);
            s->e = expr(depth + 1);
            break;
        default: break;
        }
        return s;
    }
    std::vector<File> program() {
        names = (int) (2 + t.below(3));
        std::vector<File> files(t.chance(1, 3) ? 2 : 1);
        for (auto& f : files) {
            size_t imports = t.weighted({4, 2, 1});
            for (size_t i = 0; i < imports; ++i) f.imports.push_back(decl(Decl::import, true));
            size_t n = 1 + t.below(5);
            for (size_t i = 0; i < n; ++i) {
                if (t.chance(1, 3)) {
                    f.items.push_back(var_decl(0, true));
                } else {
                    auto s = std::make_unique<Stmt>();
                    s->kind = Stmt::func;
                    s->f = func(0, true);
                    s->f->exported = t.chance(1, 3);
                    f.items.push_back(std::move(s));
                }
            }
        }
        return files;
    }
};

// --------------------------------------------------------------------------------------------------------- reference
struct Scope {
    Scope* parent = nullptr;
    int function = 0;
    bool shared = false; // module or file
    std::vector<std::pair<std::string, Decl*>> names;
    Decl* find(const std::string& n) {
        for (auto& [k, d] : names)
            if (k == n) return d;
        return nullptr;
    }
};
enum Rule { duplicate, undefined, inactive, no_init, loop_control, stray_return, record_key, bad_target, no_value, unassigned, export_var, assert_args, RULES };
const char* rule_names[] = {"a name is declared twice", "an undefined name", "a name is used before its declaration", "a constant without a value", "break or continue outside a loop",
    "return outside a function", "a record key is repeated", "assignment to something that cannot be assigned", "a block or an if without a value", "a variable may be unassigned",
    "an exported variable", "assert with three arguments"};

struct Violation {
    Rule rule;
    int file, line;
    // what to do about it
    Stmt* stmt = nullptr;
    Expr* expr = nullptr;
    Decl* decl = nullptr;
    Block* block = nullptr;
};

struct Checker {
    std::vector<File>& files;
    std::vector<Violation> found;
    std::vector<std::unique_ptr<Scope>> scopes;
    int functions = 0;
    int file = 0;
    int fresh = 0;
    bool unspecified = false;
    bool may_panic = false; // a variable that is shared between functions may be read before it has a value

    // the state of the flow analysis
    struct Flow {
        bool dead = false;
        std::set<Decl*> assigned;
    };
    Flow flow;
    static Flow join(const Flow& x, const Flow& y) {
        if (x.dead) return y;
        if (y.dead) return x;
        Flow r;
        for (auto* d : x.assigned)
            if (y.assigned.count(d)) r.assigned.insert(d);
        return r;
    }
    struct Loop {
        Flow continues;
    };
    Loop* loop = nullptr;
    bool in_function = false;
    int in_defer = 0;
    Scope* scope = nullptr;
    Stmt* stmt = nullptr;

    explicit Checker(std::vector<File>& f)
        : files(f) {}

    Scope* open(Scope* parent, int function) {
        scopes.push_back(std::make_unique<Scope>());
        scopes.back()->parent = parent;
        scopes.back()->function = function;
        return scopes.back().get();
    }
    Violation& fail(Rule r, int line) {
        found.push_back({r, file, line, stmt});
        return found.back();
    }

    // First pass: the names of every scope. The scopes are found again by the address of the construct.
    std::map<const void*, Scope*> of;
    void declare(Decl* d, Scope* s) {
        d->active = d->captured = false;
        d->function_level = s->function;
        d->module_scope = s->shared;
        if (s->find(d->name)) {
            fail(duplicate, d->line).decl = d;
            return;
        }
        s->names.emplace_back(d->name, d);
    }
    void names_of(Block& b, Scope* parent, bool chain = false) {
        // "else if" has no scope between the two
        Scope* s = chain ? parent : open(parent, parent->function);
        of[&b] = s;
        for (auto& st : b.stmts) names_of(*st, s);
    }
    void names_of(Func& f, Scope* s) {
        if (f.name) declare(f.name.get(), s);
        Scope* fs = open(s, ++functions);
        of[&f] = fs;
        for (auto& p : f.params) declare(p.get(), fs);
        names_of(f.body, fs);
    }
    void names_of(Expr& e, Scope* s) {
        for (auto& x : e.sub) names_of(*x, s);
        if (e.kind == Expr::block || e.kind == Expr::if_value) names_of(e.b1, s);
        if (e.kind == Expr::if_value && e.has_else) names_of(e.b2, s, is_chain(e.b2, e.chain));
        if (e.kind == Expr::lambda) names_of(*e.f, s);
    }
    void names_of(Stmt& st, Scope* s) {
        auto* outer = stmt;
        stmt = &st;
        auto bindings = [&](Scope* in) {
            for (auto& b : st.bindings) {
                for (auto& d : b.names) declare(d.get(), in);
                if (b.init) names_of(*b.init, in);
            }
        };
        switch (st.kind) {
        case Stmt::decl: bindings(s); break;
        case Stmt::block:
        case Stmt::defer: names_of(st.b1, s); break;
        case Stmt::if_stmt:
            names_of(*st.e, s);
            names_of(st.b1, s);
            if (st.has_else) names_of(st.b2, s, is_chain(st.b2, st.chain));
            break;
        case Stmt::while_stmt:
            names_of(*st.e, s);
            names_of(st.b1, s);
            break;
        case Stmt::for_stmt: {
            Scope* in = open(s, s->function);
            of[&st] = in;
            bindings(in);
            names_of(*st.e, in);
            names_of(*st.e2, in);
            names_of(st.b1, in);
            break;
        }
        case Stmt::for_each: {
            names_of(*st.bindings[0].init, s);
            Scope* in = open(s, s->function);
            of[&st] = in;
            for (auto& d : st.bindings[0].names) declare(d.get(), in);
            names_of(st.b1, in);
            break;
        }
        case Stmt::func: names_of(*st.f, s); break;
        default:
            if (st.e) names_of(*st.e, s);
            break;
        }
        stmt = outer;
    }

    // Second pass: uses, in the order of the text. The flow analysis goes along.
    Decl* lookup(const std::string& n, int line, Expr* e) {
        for (Scope* s = scope; s; s = s->parent)
            if (Decl* d = s->find(n)) {
                if (!d->active) {
                    fail(inactive, line).expr = e;
                    return nullptr;
                }
                if (!s->shared && s->function != scope->function) d->captured = true;
                return d;
            }
        fail(undefined, line).expr = e;
        return nullptr;
    }
    struct Read {
        Decl* d;
        Stmt* stmt;
        Expr* expr;
        int file;
    };
    std::vector<Read> unassigned_reads; // reported only if the variable is not captured
    void read(Decl* d, Expr* e) {
        if (!d || d->module_scope || d->kind == Decl::parameter || flow.dead || d->function_level != scope->function) return;
        if (!flow.assigned.count(d)) {
            if (in_defer) unspecified = true;
            unassigned_reads.push_back({d, stmt, e, file});
        }
    }
    void assign(Decl* d, int line, Expr* e) {
        if (!d) return;
        if (d->is_const) fail(bad_target, line).expr = e;
        if (in_defer) unspecified = true;
        flow.assigned.insert(d);
    }
    void use(Block& b) {
        Scope* outer = scope;
        scope = of[&b];
        for (auto& s : b.stmts) use(*s);
        scope = outer;
    }
    // a block used as a value
    bool has_value(const Stmt& s) const { return s.kind == Stmt::expr || s.kind == Stmt::nop || s.kind == Stmt::break_stmt || s.kind == Stmt::continue_stmt || s.kind == Stmt::return_stmt; }
    void use_value(Block& b) {
        use(b);
        require(b);
    }
    void require(Block& b) {
        if (b.stmts.empty()) {
            fail(no_value, b.line).block = &b;
            return;
        }
        auto& l = *b.stmts.back();
        auto* outer = stmt;
        // blocks and ifs at the end have to produce the value
        if (l.kind == Stmt::block) {
            stmt = &l;
            require(l.b1);
        } else if (l.kind == Stmt::if_stmt) {
            stmt = &l;
            require(l.b1);
            if (l.has_else) require(l.b2);
            else fail(no_value, l.line).block = &b;
        } else if (l.kind == Stmt::func || l.kind == Stmt::target_stmt) {
            // expressions with a value
        } else if (!has_value(l))
            fail(no_value, b.line).block = &b;
        stmt = outer;
    }
    void use(Func& f) {
        if (f.name) f.name->active = true;
        Flow outer_flow = flow;
        auto* outer_loop = std::exchange(loop, nullptr);
        bool outer_in = std::exchange(in_function, true);
        int outer_defer = std::exchange(in_defer, 0);
        flow = {};
        flow.dead = outer_flow.dead; // functions in code that is never reached are never reached
        Scope* outer = scope;
        scope = of[&f];
        for (auto& p : f.params) p->active = true;
        use(f.body);
        if (f.is_value) require(f.body);
        scope = outer;
        in_function = outer_in;
        in_defer = outer_defer;
        loop = outer_loop;
        flow = outer_flow;
        if (f.name) flow.assigned.insert(f.name.get());
    }
    void use(Expr& e) {
        e.resolved = nullptr;
        switch (e.kind) {
        case Expr::number: break;
        case Expr::use:
            e.resolved = lookup(e.name, e.line, &e);
            read(e.resolved, &e);
            break;
        case Expr::block: use_value(e.b1); break;
        case Expr::if_value: {
            use(*e.sub[0]);
            Flow before = flow;
            use_value(e.b1);
            Flow one = flow;
            flow = before;
            if (e.has_else) use_value(e.b2);
            else fail(no_value, e.line).expr = &e;
            flow = join(one, flow);
            break;
        }
        case Expr::assign:
            e.resolved = lookup(e.name, e.line, &e);
            use(*e.sub[0]);
            assign(e.resolved, e.line, &e);
            break;
        case Expr::compound:
            e.resolved = lookup(e.name, e.line, &e);
            read(e.resolved, &e);
            assign(e.resolved, e.line, &e);
            break;
        case Expr::lambda: use(*e.f); break;
        case Expr::logic: {
            use(*e.sub[0]);
            Flow before = flow;
            use(*e.sub[1]);
            flow = join(before, flow);
            break;
        }
        case Expr::record:
            if (std::set<std::string>(e.keys.begin(), e.keys.end()).size() != e.keys.size()) fail(record_key, e.line).expr = &e;
            [[fallthrough]];
        default:
            for (auto& s : e.sub) use(*s);
            break;
        }
    }
    void use_bindings(Stmt& st, bool module) {
        for (auto& b : st.bindings) {
            if (st.is_const && !b.init) fail(no_init, b.line);
            if (b.init) use(*b.init);
            for (auto& d : b.names) {
                d->active = true;
                d->has_init = b.init != nullptr;
                if (b.init) flow.assigned.insert(d.get());
                if (module && st.exported && !st.is_const) fail(export_var, d->line);
            }
        }
    }
    void use(Stmt& st) {
        auto* outer_stmt = stmt;
        Scope* outer = scope;
        stmt = &st;
        auto loop_body = [&](Flow& continues) {
            Loop l;
            l.continues.dead = true;
            auto* outer_loop = std::exchange(loop, &l);
            use(st.b1);
            loop = outer_loop;
            continues = l.continues;
        };
        switch (st.kind) {
        case Stmt::decl: use_bindings(st, scope->shared); break;
        case Stmt::expr: use(*st.e); break;
        case Stmt::target_stmt: {
            st.resolved.clear();
            bool plain = valid_target(st.target);
            for (auto& n : st.names) {
                st.resolved.push_back(lookup(n, st.line, nullptr));
                if (st.resolved.back() && in_defer) unspecified = true;
            }
            if (!plain) fail(bad_target, st.line);
            else
                for (auto* d : st.resolved) assign(d, st.line, nullptr);
            break;
        }
        case Stmt::block: use(st.b1); break;
        case Stmt::if_stmt: {
            use(*st.e);
            Flow before = flow;
            use(st.b1);
            Flow one = flow;
            flow = before;
            if (st.has_else) use(st.b2);
            flow = join(one, flow);
            break;
        }
        case Stmt::while_stmt: {
            use(*st.e);
            Flow after = flow, ignored;
            loop_body(ignored);
            flow = after;
            break;
        }
        case Stmt::for_stmt: {
            scope = of[&st];
            use_bindings(st, false);
            use(*st.e);
            // the step comes before the body in the text, but its reads follow the ones of the body
            Flow after = flow, body, continues;
            size_t reads = unassigned_reads.size();
            use(*st.e2);
            unassigned_reads.resize(reads, {});
            flow = after;
            loop_body(continues);
            body = flow;
            flow = join(body, continues);
            size_t known = found.size();
            use(*st.e2);
            found.erase(found.begin() + (std::ptrdiff_t) known, found.end());
            flow = after;
            break;
        }
        case Stmt::for_each: {
            use(*st.bindings[0].init);
            scope = of[&st];
            Flow after = flow, ignored;
            for (auto& d : st.bindings[0].names) {
                d->active = true;
                d->has_init = true;
                flow.assigned.insert(d.get());
            }
            loop_body(ignored);
            flow = after;
            break;
        }
        case Stmt::break_stmt:
        case Stmt::continue_stmt:
            if (!loop) fail(loop_control, st.line);
            else if (in_defer) unspecified = true;
            else if (st.kind == Stmt::continue_stmt) loop->continues = join(loop->continues, flow);
            flow.dead = true;
            break;
        case Stmt::return_stmt:
            if (st.e) use(*st.e);
            if (!in_function) fail(stray_return, st.line);
            if (in_defer) unspecified = true;
            flow.dead = true;
            break;
        case Stmt::defer: {
            ++in_defer;
            Flow before = flow;
            use(st.b1);
            flow = before;
            --in_defer;
            break;
        }
        case Stmt::func: use(*st.f); break;
        case Stmt::assert_stmt:
            if (st.bad) fail(assert_args, st.line);
            use(*st.e);
            break;
        case Stmt::nop: break;
        }
        scope = outer;
        stmt = outer_stmt;
    }
    void run() {
        Scope* module = open(nullptr, 0);
        module->shared = true;
        std::vector<Scope*> file_scopes;
        for (file = 0; file < (int) files.size(); ++file) {
            auto& f = files[(size_t) file];
            Scope* fs = open(module, 0);
            fs->shared = true;
            file_scopes.push_back(fs);
            stmt = nullptr;
            for (auto& d : f.imports) declare(d.get(), fs);
            for (auto& s : f.items) {
                // items of a file are declared in the module, everything inside them belongs to the file
                stmt = s.get();
                if (s->kind == Stmt::decl) {
                    for (auto& b : s->bindings) {
                        for (auto& d : b.names) declare(d.get(), module);
                        if (b.init) module_names(*b.init, fs, module);
                    }
                } else {
                    declare(s->f->name.get(), module);
                    auto name = std::move(s->f->name); // already declared
                    names_of(*s->f, fs);
                    s->f->name = std::move(name);
                }
            }
        }
        for (auto& [n, d] : module->names)
            if (d->kind == Decl::function) d->active = d->active || top_level.count(d) || is_item(d);
        for (file = 0; file < (int) files.size(); ++file) {
            auto& f = files[(size_t) file];
            stmt = nullptr;
            for (auto& d : f.imports) d->active = true;
            for (auto& s : f.items) {
                scope = file_scopes[(size_t) file];
                flow = {};
                use(*s);
            }
        }
        // variables that are shared between functions are not checked
        for (auto& r : unassigned_reads) {
            if (r.d->captured) continue;
            stmt = r.stmt;
            file = r.file;
            auto& v = fail(unassigned, r.d->line);
            v.expr = r.expr;
        }
    }
    std::set<Decl*> top_level;
    bool is_item(Decl* d) {
        for (auto& f : files)
            for (auto& s : f.items)
                if (s->kind == Stmt::func && s->f->name.get() == d) return true;
        return false;
    }
    // Initializers at module level: a named function there belongs to the module
    void module_names(Stmt& i, Scope* fs, Scope* module) { // else if
        module_names(*i.e, fs, module);
        names_of(i.b1, fs);
        if (i.has_else && is_chain(i.b2, i.chain)) {
            of[&i.b2] = fs;
            module_names(*i.b2.stmts[0], fs, module);
        } else if (i.has_else) names_of(i.b2, fs);
    }
    void module_names(Expr& e, Scope* fs, Scope* module) {
        for (auto& x : e.sub) module_names(*x, fs, module);
        if (e.kind == Expr::block || e.kind == Expr::if_value) names_of(e.b1, fs);
        if (e.kind == Expr::if_value && e.has_else) {
            if (is_chain(e.b2, e.chain)) {
                of[&e.b2] = fs;
                auto& i = *e.b2.stmts[0];
                module_names(i, fs, module);
            } else names_of(e.b2, fs);
        }
        if (e.kind == Expr::lambda) {
            if (e.f->name) {
                declare(e.f->name.get(), module);
                top_level.insert(e.f->name.get());
            }
            auto name = std::move(e.f->name);
            names_of(*e.f, fs);
            e.f->name = std::move(name);
        }
    }
};

// ----------------------------------------------------------------------------------------------------------- printer
struct Printer {
    std::string out;
    int line = 1;
    void put(const std::string& s) {
        out += s;
        for (char c : s) line += c == '\n';
    }
    void nl(int ind) { put("\n" + std::string((size_t) ind * 2, ' ')); }
    bool resolved = false;
    std::string tag(const Decl* d) { return resolved ? std::to_string((d ? d->id : 0) * 1000) : "0"; }

    void block(Block& b, int ind) {
        b.line = line;
        put("{");
        for (auto& s : b.stmts) stmt(*s, ind + 1);
        nl(ind);
        put("}");
    }
    void names(std::vector<std::unique_ptr<Decl>>& ds) {
        if (ds.size() > 1) put("(");
        for (size_t i = 0; i < ds.size(); ++i) {
            if (i) put(", ");
            ds[i]->line = line;
            put(ds[i]->name);
        }
        if (ds.size() > 1) put(")");
    }
    // the value that a variable starts with names it
    void init(std::vector<std::unique_ptr<Decl>>& ds, Expr& e, int ind) {
        put("then(");
        expr(e, ind);
        put(", ");
        put(ds.size() == 1 ? tag(ds[0].get()) : "(" + tag(ds[0].get()) + ", " + tag(ds[1].get()) + ")");
        put(")");
    }
    void func(Func& f, int ind) {
        f.line = line;
        if (f.name) f.name->line = line;
        put(f.exported ? "export func" : "func");
        if (f.name) put(" " + f.name->name);
        put("(q");
        for (auto& p : f.params) {
            put(", ");
            p->line = line;
            put(p->name);
        }
        put(") ");
        // calls with 0 ask for the identity of the function
        int id = f.name ? f.name->id : f.params[0]->id - 1;
        if (f.is_value) put("= ");
        f.body.line = line;
        put("{");
        put(sfmt(" if (q == 0) { return %d; };", id * 1000));
        for (auto& s : f.body.stmts) stmt(*s, ind + 1);
        nl(ind);
        put("}");
    }
    void expr(Expr& e, int ind) {
        e.line = line;
        switch (e.kind) {
        case Expr::number: put(std::to_string(e.id)); break;
        case Expr::use: put(sfmt("u(%d, ", e.id) + e.name + ")"); break;
        case Expr::block:
            block(e.b1, ind);
            break;
        case Expr::if_value:
            put("if (go(");
            expr(*e.sub[0], ind);
            put(")) ");
            block(e.b1, ind);
            if (e.has_else) otherwise(e.b2, e.chain, ind);
            break;
        case Expr::assign:
            put("(" + e.name + " = then(");
            expr(*e.sub[0], ind);
            put(", " + tag(e.resolved) + "))");
            break;
        case Expr::compound: put("(" + e.name + " += 0)"); break;
        case Expr::lambda:
            put("inv(");
            func(*e.f, ind);
            put(")");
            break;
        case Expr::logic:
            put("(go(");
            expr(*e.sub[0], ind);
            put(e.id % 2 ? ") && go(" : ") || go(");
            expr(*e.sub[1], ind);
            put("))");
            break;
        case Expr::tuple:
            put("(");
            expr(*e.sub[0], ind);
            put(", ");
            expr(*e.sub[1], ind);
            put(")");
            break;
        case Expr::record:
            // the keys are on the line where the expression starts
            put("t2((");
            for (auto& k : e.keys) put(k + ": 0, ");
            put("), ");
            expr(*e.sub[0], ind);
            put(", ");
            expr(*e.sub[1], ind);
            put(")");
            break;
        case Expr::format:
            put("\"x ${");
            expr(*e.sub[0], ind);
            put("} ${");
            expr(*e.sub[1], ind);
            put("}\"");
            break;
        }
    }
    void otherwise(Block& b, bool chain, int ind) {
        put(" else ");
        if (is_chain(b, chain)) {
            b.line = b.stmts[0]->line = line;
            if_text(*b.stmts[0], ind);
        } else block(b, ind);
    }
    void if_text(Stmt& s, int ind) {
        put("if (go(");
        expr(*s.e, ind);
        put(")) ");
        block(s.b1, ind);
        if (s.has_else) otherwise(s.b2, s.chain, ind);
    }
    void bindings(Stmt& s, int ind) {
        put(s.is_const ? "const " : "var ");
        for (size_t i = 0; i < s.bindings.size(); ++i) {
            auto& b = s.bindings[i];
            if (i) put(", ");
            b.line = line;
            names(b.names);
            if (b.init) {
                put(" = ");
                if (s.is_const && b.names.size() == 1 && b.init->kind == Expr::lambda && !b.init->f->name) {
                    b.init->line = line;
                    func(*b.init->f, ind); // the function itself is the value
                } else init(b.names, *b.init, ind);
            }
        }
    }
    void stmt(Stmt& s, int ind) {
        nl(ind);
        s.line = line;
        switch (s.kind) {
        case Stmt::decl:
            if (s.exported) put("export ");
            bindings(s, ind);
            break;
        case Stmt::expr:
            put("t(");
            expr(*s.e, ind);
            put(")");
            break;
        case Stmt::target_stmt: {
            std::string text;
            size_t n = 0;
            for (size_t i = 0; i < s.target.size();) {
                if (s.target.compare(i, 4, "NAME") == 0) text += s.names[n++], i += 4;
                else text += s.target[i++];
            }
            // a value for every element, names get their tags
            std::string value = "0";
            if (valid_target(s.target) && s.resolved.size() == s.names.size()) {
                value = "(";
                size_t used = 0;
                for (size_t i = 1; i < s.target.size(); ++i) {
                    bool name = s.target.compare(i, 4, "NAME") == 0;
                    value += name ? tag(s.resolved[used++]) : "0";
                    value += ",";
                    i = s.target.find_first_of(",)", i);
                    if (s.target[i] == ')') break;
                    if (s.target[i + 1] == ')') break;
                    ++i;
                }
                value += ")";
            }
            put(text + " " + value);
            break;
        }
        case Stmt::block: block(s.b1, ind); break;
        case Stmt::if_stmt: if_text(s, ind); break;
        case Stmt::while_stmt:
            put("while (more(");
            expr(*s.e, ind);
            put(")) ");
            block(s.b1, ind);
            break;
        case Stmt::for_stmt:
            put("for ");
            bindings(s, ind);
            put("; more(");
            expr(*s.e, ind);
            put("); t(");
            expr(*s.e2, ind);
            put(") ");
            block(s.b1, ind);
            break;
        case Stmt::for_each: {
            auto& b = s.bindings[0];
            put("for ");
            names(b.names);
            put(" in then(");
            expr(*b.init, ind);
            put(", [");
            std::string v = b.names.size() == 1 ? tag(b.names[0].get()) : "(" + tag(b.names[0].get()) + ", " + tag(b.names[1].get()) + ")";
            put(v + ", " + v + "]) ");
            block(s.b1, ind);
            break;
        }
        case Stmt::break_stmt: put("break"); break;
        case Stmt::continue_stmt: put("continue"); break;
        case Stmt::return_stmt:
            put("return");
            if (s.e) {
                put(" ");
                expr(*s.e, ind);
            }
            break;
        case Stmt::defer:
            put("defer ");
            block(s.b1, ind);
            break;
        case Stmt::func: func(*s.f, ind); break;
        case Stmt::assert_stmt:
            put("assert(then(");
            expr(*s.e, ind);
            put(s.bad ? ", true), \"m\", 1)" : ", true), \"m\")");
            break;
        case Stmt::nop: put("t(0)"); break;
        }
        put(";");
    }
    std::string file(File& f, bool first) {
        out.clear();
        line = 1;
        for (auto& d : f.imports) {
            d->line = line;
            put("import m." + d->name + ";\n");
        }
        if (first)
            put("import std;\nimport env;\n"
                "const log = env.log; const go = env.go; const more = env.more;\n"
                "func t(v) = null;\nfunc t2(v, x, y) = null;\nfunc then(v, r) = r;\n"
                "func tag_of(v) = if (std.type_of(v) == std.Function) { v(0, null, null); } else if (std.type_of(v) == std.Module) { v.tag; } else { v; };\n"
                "func u(id, v) { log(id, tag_of(v)); if (std.type_of(v) == std.Function) { inv(v); }; return id; }\nconst box = [0, 0]; const rec = (x: 0);\n"
                "func inv(v) { if (more(0)) { const p = v(0, null, null); v(1, p + 1000, p + 2000); }; return 0; }\n");
        for (auto& s : f.items) stmt(*s, 0);
        put("\n");
        if (first) {
            put("export func run_all() {");
            put("\n");
        }
        return out;
    }
};

struct World {
    std::map<int, int> expected; // use -> declaration
    std::map<int, std::string> names;
    std::string wrong;
    pbt::u64 uses = 0;
    int fuel = 300;
    pbt::u64 state = 1;
};

// Replaces what breaks the rule
void repair(Violation& v, int& fresh) {
    if (v.decl && v.rule == duplicate) {
        v.decl->name = sfmt("n%d", ++fresh);
        return;
    }
    if (v.block) {
        auto s = std::make_unique<Stmt>();
        s->kind = Stmt::expr;
        s->e = std::make_unique<Expr>();
        v.block->stmts.push_back(std::move(s));
        return;
    }
    if (v.expr) {
        int id = v.expr->id;
        *v.expr = Expr{};
        v.expr->id = id;
        return;
    }
    if (v.stmt && v.stmt->kind == Stmt::decl && (v.rule == no_init || v.rule == export_var)) {
        if (v.rule == export_var) v.stmt->exported = false;
        else
            for (auto& b : v.stmt->bindings)
                if (!b.init) b.init = std::make_unique<Expr>();
        return;
    }
    if (v.stmt && v.stmt->kind == Stmt::for_stmt && v.rule == no_init) {
        for (auto& b : v.stmt->bindings)
            if (!b.init) b.init = std::make_unique<Expr>();
        return;
    }
    if (v.stmt && v.stmt->kind != Stmt::func) {
        *v.stmt = Stmt{};
        return;
    }
    throw pbt::Discard{};
}

void collect_uses(Expr& e, World& w);
void collect_uses(Block& b, World& w);
void collect_uses(Stmt& s, World& w) {
    for (auto& b : s.bindings)
        if (b.init) collect_uses(*b.init, w);
    if (s.e) collect_uses(*s.e, w);
    if (s.e2) collect_uses(*s.e2, w);
    collect_uses(s.b1, w);
    collect_uses(s.b2, w);
    if (s.f) collect_uses(s.f->body, w);
}
void collect_uses(Block& b, World& w) {
    for (auto& s : b.stmts) collect_uses(*s, w);
}
void collect_uses(Expr& e, World& w) {
    if (e.kind == Expr::use && e.resolved) w.expected[e.id] = e.resolved->id, w.names[e.id] = e.name;
    for (auto& x : e.sub) collect_uses(*x, w);
    collect_uses(e.b1, w);
    collect_uses(e.b2, w);
    if (e.f) collect_uses(e.f->body, w);
}

void programs(Case& c) {
    Gen g{c.t};
    g.budget = 6 + (int) c.t.below(70);
    auto files = g.program();
    // how many violations may stay
    size_t keep = c.t.weighted({5, 4, 1}) == 0 ? 0 : c.t.chance(4, 5) ? 1 : 1000;
    std::vector<Source> text;
    std::unique_ptr<Checker> ch;
    auto print = [&](bool resolved) {
        text.clear();
        for (size_t i = 0; i < files.size(); ++i) {
            Printer p;
            p.resolved = resolved;
            std::string s = p.file(files[i], i == 0);
            if (i == 0) {
                // calls every item of the module from another function
                for (auto& f : files)
                    for (auto& it : f.items)
                        if (resolved && ch->found.empty() && it->kind == Stmt::func) s += "  inv(" + it->f->name->name + ");\n";
                s += "  return 0;\n}\n";
            }
            text.push_back({sfmt("file%zu", i), s});
        }
    };
    int fresh = 0;
    for (int round = 0;; ++round) {
        print(false); // lines
        ch = std::make_unique<Checker>(files);
        ch->run();
        if (ch->found.size() <= keep) break;
        if (round > 60) c.discard();
        repair(ch->found[round % 2 ? ch->found.size() - 1 : 0], fresh);
    }
    print(true); // with the resolved names
    std::string all;
    for (auto& s : text) all += "// " + s.name + "\n" + s.text + "\n";
    for (auto& v : ch->found) all += sfmt("// violation: file%d:%d: %s\n", v.file, v.line, rule_names[v.rule]);
    c.describe(all);
    if (ch->unspecified) c.discard();
    // the calls at the end of the first file see that file's imports
    for (auto& f : files)
        for (auto& it : f.items)
            if (it->kind == Stmt::func)
                for (auto& d : files[0].imports)
                    if (d->name == it->f->name->name) c.discard();

    auto m = compile("main", text);
    if (!m.ok() && m.code != TIRO_ERROR_BAD_SOURCE) c.fail("an unexpected error: " + m.errors());
    if (ch->found.empty()) {
        if (!m.ok()) c.fail("the program follows all rules and is rejected: " + m.errors());
    } else {
        if (m.ok()) c.fail(sfmt("the program is accepted although it breaks a rule (file%d:%d: %s)", ch->found[0].file, ch->found[0].line, rule_names[ch->found[0].rule]));
        size_t errors = 0;
        for (auto& d : m.diags) {
            if (d.severity != TIRO_SEVERITY_ERROR) continue;
            ++errors;
            bool known = false;
            for (auto& v : ch->found) known |= d.file == sfmt("file%d", v.file) && (int) d.line == v.line;
            if (!known) c.fail(sfmt("an error is reported for %s:%u, where no rule is broken: %s", d.file.c_str(), d.line, d.text.c_str()));
        }
        if (!errors) c.fail("the program is rejected without an error message");
        for (auto& v : ch->found) c.label(rule_names[v.rule], true);
        c.label("rejected", true);
        c.nontrivial = true;
        return;
    }
    c.label("accepted", true);
    // the uses
    World w;
    for (auto& f : files)
        for (auto& s : f.items) collect_uses(*s, w);
    w.state = c.t.below(1u << 30) * 2 + 1;
    Vm vm;
    vm.user = &w;
    std::vector<std::pair<std::string, H>> env;
    env.emplace_back("log", vm.sync_function("log", [](tiro_vm_t v, tiro_sync_frame_t f) {
        auto& w = *(World*) Vm::of(v).user;
        H a(v), b(v);
        MUST(tiro_sync_frame_arg(f, 0, a, must));
        MUST(tiro_sync_frame_arg(f, 1, b, must));
        int id = (int) tiro_integer_value(v, a);
        ++w.uses;
        std::string got = Vm::of(v).show(b), want = std::to_string(w.expected[id] * 1000);
        if (got != want && w.wrong.empty()) w.wrong = sfmt("use %d of the name '%s' reads the value %s of another declaration, expected %s", id, w.names[id].c_str(), got.c_str(), want.c_str());
    }, 2));
    env.emplace_back("go", vm.sync_function("go", [](tiro_vm_t v, tiro_sync_frame_t f) {
        auto& w = *(World*) Vm::of(v).user;
        w.state = w.state * 6364136223846793005ull + 1442695040888963407ull;
        H r = Vm::of(v).boolean((w.state >> 40) & 1);
        MUST(tiro_sync_frame_return_value(f, r, must));
    }, 1));
    env.emplace_back("more", vm.sync_function("more", [](tiro_vm_t v, tiro_sync_frame_t f) {
        auto& w = *(World*) Vm::of(v).user;
        w.state = w.state * 6364136223846793005ull + 1442695040888963407ull;
        bool yes = w.fuel > 0 && ((w.state >> 40) & 3);
        --w.fuel;
        H r = Vm::of(v).boolean(yes);
        MUST(tiro_sync_frame_return_value(f, r, must));
    }, 1));
    vm.load_env_with(env);
    env.clear();
    // a module for every imported name; modules of the same name are shared, the tag is that of the last import with the name
    std::map<std::string, int> tags;
    for (auto& f : files)
        for (auto& d : f.imports) tags[d->name] = d->id;
    for (auto& [use, id] : w.expected)
        for (auto& f : files)
            for (auto& d : f.imports)
                if (d->id == id) id = tags[d->name];
    for (auto& [n, id] : tags) {
        auto im = compile("m." + n, sfmt("export const tag = %d;", id * 1000));
        if (!im.ok()) c.fail("a module was rejected");
        vm.load(im);
    }
    {
        Err e;
        tiro_vm_load_bytecode(vm, m.module, e);
        if (!e.ok()) c.fail("the module cannot be loaded: " + e.text());
    }
    H fn(vm), mod(vm);
    {
        H mn = vm.string("main"), en = vm.string("run_all");
        Err e;
        tiro_vm_get_export(vm, ts("main"), ts("run_all"), fn, e);
        if (!e.ok()) {
            // an initializer may read a variable that has no value yet
            c.label("initialization failed", true);
            if (!w.wrong.empty()) c.fail(w.wrong);
            c.nontrivial = w.uses > 0;
            return;
        }
    }
    auto r = vm.call(fn, {});
    if (!w.wrong.empty()) c.fail(w.wrong);
    for (auto& f : files)
        for (auto& s : f.items) {
            auto exported = [&](Decl& d, bool yes) {
                H v(vm);
                Err e;
                tiro_vm_get_export(vm, ts("main"), ts(d.name), v, e);
                if (e.ok() != yes) c.fail(sfmt("the export of '%s' should%s be there: ", d.name.c_str(), yes ? "" : " not") + e.text());
                if (!yes) {
                    if (e.code() != TIRO_ERROR_EXPORT_NOT_FOUND) c.fail("an unexpected error for a missing export: " + e.text());
                    return;
                }
                std::string got;
                if (tiro_value_kind(vm, v) == TIRO_KIND_FUNCTION) {
                    H zero = vm.integer(0), null(vm);
                    auto r = vm.call(v, {zero, null, null});
                    got = r.kind == CallResult::success ? vm.show(r.value) : r.message;
                } else got = vm.show(v);
                if (got != std::to_string(d.id * 1000)) c.fail(sfmt("the export '%s' is %s and not %d", d.name.c_str(), got.c_str(), d.id * 1000));
                c.count("exports", 1);
            };
            if (s->kind == Stmt::func) exported(*s->f->name, s->f->exported);
            for (auto& b : s->bindings)
                for (auto& d : b.names) exported(*d, s->exported);
        }
    if (r.kind == CallResult::panic) {
        bool uninit = r.message.find("is undefined") != std::string::npos;
        if (!uninit) c.fail("unexpected panic: " + r.message);
        c.label("a variable without a value was read", true);
    } else if (r.kind != CallResult::success) c.fail("the call failed: " + r.message);
    c.count("uses", w.uses);
    c.label("more than 20 uses", w.uses > 20);
    c.nontrivial = w.uses >= 2;
}

} // namespace

int main(int argc, char** argv) {
    pbt::Runner r("C26", "a rejected program, or at least two uses of names were executed", {
        Suite{"programs", 20000, 2000000, programs},
    });
    return r.main(argc, argv);
}
