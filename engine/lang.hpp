// A model of the tiro language: AST, type-guided random program generator, printer and reference interpreter.
// The interpreter is written from the language documentation and is independent of tiro's sources.
#ifndef VERIF_LANG_HPP
#define VERIF_LANG_HPP

#include "pbt.hpp"

#include <fmt/format.h>

#include <deque>

namespace lang {

using pbt::Discard;
using pbt::f64;
using pbt::i64;
using pbt::sfmt;
using pbt::Tape;
using pbt::u32;
using pbt::u8;
using pbt::u64;

// ---------------------------------------------------------------------------------------------- types
struct Type;
using TypeP = std::shared_ptr<const Type>;
struct Type {
    enum K { Any, Int, Float, Bool, Str, Sym, Null, Opt, Arr, Tup, Rec, Map, Set, Fun } k;
    std::vector<TypeP> a;          // parameters (Fun: arguments, then result)
    std::vector<std::string> names; // Rec
    unsigned min = 0;              // Arr: minimum length
    std::string key;
};
inline TypeP mk(Type::K k, std::vector<TypeP> a = {}, std::vector<std::string> names = {}, unsigned min = 0) {
    auto t = std::make_shared<Type>();
    t->k = k;
    t->a = std::move(a);
    t->names = std::move(names);
    t->min = min;
    t->key = std::to_string((int) k) + "<";
    for (auto& x : t->a) t->key += x->key + ",";
    for (auto& n : t->names) t->key += n + ";";
    t->key += std::to_string(min) + ">";
    return t;
}

// ---------------------------------------------------------------------------------------------- values
struct Obj;
struct Node;
struct Scope;
struct Val {
    enum T { Null, Bool, Int, Float, Str, Slice, Sym, Tuple, Array, Record, Map, Set, Func, Result, Builder } t = Null;
    i64 i = 0;
    f64 f = 0;
    Obj* o = nullptr;
    bool truthy() const { return !(t == Null || (t == Bool && !i)); }
    bool num() const { return t == Int || t == Float; }
};
struct Obj {
    std::string s;
    std::vector<Val> v, w;
    std::vector<std::string> names;
    Node* fn = nullptr;
    Scope* env = nullptr;
    int iterating = 0; // number of for-each loops over this set or map
};

// ---------------------------------------------------------------------------------------------- AST
enum class K {
    Int, Float, Str, Sym, True, False, Null, // literals
    Var, Unary, Binary, And, Or, Coalesce, If, Block, Call, Method, Index, Field, TupleField,
    ArrayLit, TupleLit, RecordLit, MapLit, SetLit, Func, Assign, TupleAssign, Interp,
    Return, Break, Continue, Trace, Catch, Panic,
    // statements
    VarDecl, While, For, ForEach, Defer, Assert, ExprStmt
};

struct Decl {
    std::string name;
    int id = 0;
    TypeP type;
    bool is_const = false;
    bool locked = false; // never assigned by generated code (loop counters)
    bool module = false;
    bool captured = false;
};

struct Node {
    K k;
    std::vector<Node*> c;
    std::string s;
    i64 i = 0;
    f64 f = 0;
    bool opt = false;   // optional access; For loops etc. unused
    bool flag = false;  // Func: expression body / Block: value is used / VarDecl: const
    Decl* d = nullptr;
    std::vector<Decl*> ds;               // Func: parameters; VarDecl/ForEach: tuple pattern
    std::vector<std::string> names;      // RecordLit
    int alt = 0;                         // spelling variant (literals)
    int extra_parens = 0;
};

struct FuncItem {
    Decl* d = nullptr;
    Node* fn = nullptr; // K::Func
    bool exported = false;
};

struct Program {
    std::deque<Node> nodes;
    std::deque<Decl> decls;
    std::vector<Node*> globals;   // VarDecl statements, in order
    std::vector<FuncItem> funcs;
    FuncItem main;
    std::map<std::string, u64> stats;
    Node* node(K k, std::vector<Node*> c = {}) {
        nodes.emplace_back();
        nodes.back().k = k;
        nodes.back().c = std::move(c);
        return &nodes.back();
    }
    Decl* decl(const std::string& name, TypeP t) {
        decls.emplace_back();
        decls.back().name = name;
        decls.back().id = (int) decls.size();
        decls.back().type = std::move(t);
        return &decls.back();
    }
};

// ---------------------------------------------------------------------------------------------- number formats
inline std::string norm_nan(std::string s) {
    if (s.size() > 3 && s[0] == '-' && s.find("nan") != std::string::npos) return s.substr(1);
    return s;
}

// ---------------------------------------------------------------------------------------------- reference interpreter
struct PanicEx {
    std::string msg; // "P:..." for explicit panics, otherwise unspecified
};

struct Scope {
    Scope* up = nullptr;
    std::vector<std::pair<int, Val>> vars;
};

class Interp {
public:
    std::vector<std::string> log;
    u64 fuel = 60000;
    std::map<std::string, u64> stats;

    // Result of running main(): the panic message or the shown result
    std::string run(Program& p) {
        Scope* g = scope(nullptr);
        global_ = g;
        for (auto& f : p.funcs) g->vars.push_back({f.d->id, closure(f.fn, g)});
        g->vars.push_back({p.main.d->id, closure(p.main.fn, g)});
        try {
            for (auto* v : p.globals) exec_decl(v, g);
        } catch (PanicEx& e) {
            return "init panic " + shown(e);
        }
        return run_main(p);
    }
    std::string run_main(Program& p) {
        try {
            Val r = call(closure(p.main.fn, global_), {});
            return "value " + repr(r);
        } catch (PanicEx& e) {
            return "panic " + shown(e);
        }
    }
    static std::string shown(const PanicEx& e) { return e.msg.rfind("P:", 0) == 0 ? e.msg : std::string("-"); }

    std::string repr(const Val& v, int depth = 0) {
        if (depth > 60) throw Discard{};
        auto list = [&](const std::vector<Val>& l) {
            std::string r;
            for (size_t i = 0; i < l.size(); ++i) r += (i ? ", " : "") + repr(l[i], depth + 1);
            return r;
        };
        switch (v.t) {
        case Val::Null: return "null";
        case Val::Bool: return v.i ? "true" : "false";
        case Val::Int: return sfmt("%lld", (long long) v.i);
        case Val::Float: return norm_nan(fmt::format("{:#}", v.f));
        case Val::Str: return quote(v.o->s);
        case Val::Slice: return "StringSlice{value: " + quote(v.o->s) + "}";
        case Val::Sym: return "#" + v.o->s;
        case Val::Tuple: return "(" + list(v.o->v) + (v.o->v.size() == 1 ? ",)" : ")");
        case Val::Array: return "[" + list(v.o->v) + "]";
        case Val::Set: return "set{" + list(v.o->v) + "}";
        case Val::Map: {
            std::string r = "map{";
            for (size_t i = 0; i < v.o->v.size(); ++i) r += (i ? ", " : "") + repr(v.o->v[i], depth + 1) + ": " + repr(v.o->w[i], depth + 1);
            return r + "}";
        }
        case Val::Record: {
            std::vector<std::pair<std::string, Val>> fs;
            for (size_t i = 0; i < v.o->v.size(); ++i) fs.push_back({v.o->names[i], v.o->v[i]});
            std::sort(fs.begin(), fs.end(), [](auto& a, auto& b) { return a.first < b.first; });
            if (fs.empty()) return "(:)";
            std::string r = "(";
            for (size_t i = 0; i < fs.size(); ++i) r += (i ? ", " : "") + fs[i].first + ": " + repr(fs[i].second, depth + 1);
            return r + ")";
        }
        case Val::Func: return "Function";
        case Val::Builder: return "StringBuilder";
        case Val::Result: return "Result";
        }
        return "?";
    }
    static std::string quote(const std::string& s) {
        std::string r = "\"";
        for (size_t i = 0; i < s.size();) {
            u8 c = s[i];
            size_t n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
            u32 cp = n == 1 ? c : c & (0xFF >> (n + 1));
            if (c >= 0x80 && c < 0xC0) n = 0;
            for (size_t k = 1; k < n; ++k) {
                if (i + k >= s.size() || ((u8) s[i + k] & 0xC0) != 0x80) { n = 0; break; }
                cp = cp << 6 | ((u8) s[i + k] & 0x3F);
            }
            // bytes that are not part of a valid sequence are shown one by one
            static const u32 least[] = {0, 0, 0x80, 0x800, 0x10000};
            if (n == 0 || (n > 1 && cp < least[n]) || cp > 0x10FFFF || (cp >= 0xD800 && cp < 0xE000)) n = 1, cp = c;
            i += n;
            switch (cp) {
            case '\n': r += "\\n"; break;
            case '\r': r += "\\r"; break;
            case '\t': r += "\\t"; break;
            case '$': r += "\\$"; break;
            case '\'': r += "\\'"; break;
            case '"': r += "\\\""; break;
            case '\\': r += "\\\\"; break;
            default:
                if (cp >= 0x20 && cp <= 0x7E) r += (char) cp;
                else r += cp <= 0xFF ? sfmt("\\x%02X", cp) : sfmt("\\u{%X}", cp);
            }
        }
        return r + "\"";
    }

private:
    struct RetEx { Val v; };
    // changing a set or map while iterating over it has no specified effect on the iteration
    struct It {
        Obj* o;
        explicit It(Obj* x) : o(x) { ++o->iterating; }
        ~It() { --o->iterating; }
    };
    static void structural(Obj* o) { if (o->iterating) throw Discard{}; }
    struct BrkEx {};
    struct ContEx {};

    std::deque<Obj> objs_;
    std::deque<Scope> scopes_;
    Scope* global_ = nullptr;
    int depth_ = 0;

    Scope* scope(Scope* up) {
        scopes_.emplace_back();
        scopes_.back().up = up;
        return &scopes_.back();
    }
    Obj* obj() {
        objs_.emplace_back();
        return &objs_.back();
    }
    void step(u64 n = 1) {
        if (fuel < n) throw Discard{};
        fuel -= n;
    }
    static Val null() { return Val{}; }
    static Val B(bool b) { Val v; v.t = Val::Bool; v.i = b; return v; }
    static Val I(i64 i) { Val v; v.t = Val::Int; v.i = i; return v; }
    static Val F(f64 f) { Val v; v.t = Val::Float; v.f = f; return v; }
    Val S(std::string s) {
        if (s.size() > 3000) throw Discard{};
        Val v; v.t = Val::Str; v.o = obj(); v.o->s = std::move(s); return v;
    }
    Val O(Val::T t, std::vector<Val> l) { Val v; v.t = t; v.o = obj(); v.o->v = std::move(l); return v; }
    Val closure(Node* fn, Scope* env) { Val v; v.t = Val::Func; v.o = obj(); v.o->fn = fn; v.o->env = env; return v; }
    [[noreturn]] void panic(const char* what = "") {
        ++stats["panics raised"];
        (void) what;
        throw PanicEx{"-"};
    }

    Val* find(Scope* s, Decl* d) {
        for (; s; s = s->up)
            for (auto it = s->vars.rbegin(); it != s->vars.rend(); ++it)
                if (it->first == d->id) return &it->second;
        fprintf(stderr, "internal: variable %s not found\n", d->name.c_str());
        abort();
    }

public:
    static bool equal(const Val& a, const Val& b) {
        if (a.num() && b.num()) {
            if (a.t == Val::Int && b.t == Val::Int) return a.i == b.i;
            if (a.t == Val::Float && b.t == Val::Float) return a.f == b.f;
            const Val &x = a.t == Val::Int ? a : b, &y = a.t == Val::Int ? b : a;
            return cmp_if(x.i, y.f) == 0;
        }
        bool sa = a.t == Val::Str || a.t == Val::Slice, sb = b.t == Val::Str || b.t == Val::Slice;
        if (sa && sb) return a.o->s == b.o->s;
        if (a.t != b.t) return false;
        switch (a.t) {
        case Val::Null: return true;
        case Val::Bool: return a.i == b.i;
        case Val::Sym: return a.o->s == b.o->s;
        default: return a.o == b.o;
        }
    }
    // exact comparison; 2 means unordered
    static int cmp_if(i64 a, f64 b) {
        if (b != b) return 2;
        __float128 x = a, y = b;
        return x < y ? -1 : x > y ? 1 : 0;
    }
    static int cmp(const Val& a, const Val& b) {
        if (a.t == Val::Int && b.t == Val::Int) return a.i < b.i ? -1 : a.i > b.i;
        if (a.t == Val::Int) return cmp_if(a.i, b.f);
        if (b.t == Val::Int) { int c = cmp_if(b.i, a.f); return c == 2 ? 2 : -c; }
        if (a.f != a.f || b.f != b.f) return 2;
        return a.f < b.f ? -1 : a.f > b.f;
    }
    // arithmetic; false means panic
    static bool arith(const std::string& op, const Val& a, const Val& b, Val& r) {
        if (!a.num() || !b.num()) return false;
        if (a.t == Val::Float || b.t == Val::Float) {
            f64 x = a.t == Val::Int ? (f64) a.i : a.f, y = b.t == Val::Int ? (f64) b.i : b.f;
            if (op == "+") r = F(x + y);
            else if (op == "-") r = F(x - y);
            else if (op == "*") r = F(x * y);
            else if (op == "/") r = F(x / y);
            else if (op == "%") r = F(fmod(x, y));
            else r = F(pow(x, y));
            return true;
        }
        __int128 x = a.i, y = b.i, z;
        if (op == "+") z = x + y;
        else if (op == "-") z = x - y;
        else if (op == "*") z = x * y;
        else if (op == "/" || op == "%") {
            if (y == 0) return false;
            if (a.i == INT64_MIN && b.i == -1) return false;
            z = op == "/" ? x / y : x % y;
        } else {
            if (b.i < 0) {
                if (a.i == 0) return false;
                z = a.i == 1 ? 1 : a.i == -1 ? ((b.i % 2 == 0) ? 1 : -1) : 0;
            } else if (a.i == 0 || a.i == 1) {
                z = b.i == 0 ? 1 : a.i;
            } else if (a.i == -1) {
                z = b.i % 2 == 0 ? 1 : -1;
            } else {
                z = 1;
                for (i64 k = 0; k < b.i; ++k) {
                    z *= x;
                    if (z > INT64_MAX || z < INT64_MIN) return false;
                }
            }
        }
        if (z > INT64_MAX || z < INT64_MIN) return false;
        r = I((i64) z);
        return true;
    }

private:
    Val binary(const std::string& op, const Val& a, const Val& b) {
        if (op == "==") return B(equal(a, b));
        if (op == "!=") return B(!equal(a, b));
        if (op == "<" || op == "<=" || op == ">" || op == ">=") {
            int c;
            if (a.t == Val::Null || b.t == Val::Null) c = a.t == b.t ? 0 : a.t == Val::Null ? -1 : 1;
            else if (a.num() && b.num()) c = cmp(a, b);
            else panic();
            if (c == 2) return B(false);
            return B(op == "<" ? c < 0 : op == "<=" ? c <= 0 : op == ">" ? c > 0 : c >= 0);
        }
        Val r;
        if (!arith(op, a, b, r)) panic();
        return r;
    }

    std::string text(const Val& v) {
        switch (v.t) {
        case Val::Null: return "null";
        case Val::Bool: return v.i ? "true" : "false";
        case Val::Int: return sfmt("%lld", (long long) v.i);
        case Val::Float:
            if (std::isnan(v.f)) throw Discard{}; // the sign of a NaN is not specified
            return fmt::format("{}", v.f);
        case Val::Str:
        case Val::Slice: return v.o->s;
        case Val::Sym: return "#" + v.o->s;
        default: throw Discard{}; // text contains addresses
        }
    }

    Val call(const Val& f, std::vector<Val> args) {
        step(3);
        if (f.t != Val::Func) panic();
        Node* fn = f.o->fn;
        if (fn->ds.size() != args.size()) panic();
        if (++depth_ > 60) throw Discard{};
        struct G { int& d; ~G() { --d; } } g{depth_};
        Scope* s = scope(f.o->env);
        for (size_t i = 0; i < args.size(); ++i) s->vars.push_back({fn->ds[i]->id, args[i]});
        try {
            Val r = eval(fn->c[0], s);
            return fn->flag ? r : null();
        } catch (RetEx& r) {
            return r.v;
        }
    }

    void exec_decl(Node* n, Scope* s) {
        Val v = eval(n->c[0], s);
        bind(n, v, s);
    }
    void bind(Node* n, const Val& v, Scope* s) {
        if (n->ds.empty()) {
            s->vars.push_back({n->d->id, v});
            return;
        }
        // patterns read the elements one after another
        for (size_t i = 0; i < n->ds.size(); ++i) {
            if (v.t != Val::Tuple || i >= v.o->v.size()) panic();
        }
        for (size_t i = 0; i < n->ds.size(); ++i) s->vars.push_back({n->ds[i]->id, v.o->v[i]});
    }

    // executes statements in a new scope; runs the deferred expressions of the scope when it is left in any way
    Val block(Node* n, Scope* up) {
        Scope* s = scope(up);
        std::vector<Node*> defers;
        Val r;
        auto run_defers = [&] {
            while (!defers.empty()) {
                Node* d = defers.back();
                defers.pop_back();
                ++stats["deferred statements run"];
                eval(d, s);
            }
        };
        // unwinding: the first panic wins over other reasons for leaving and over later panics
        auto leave = [&](auto ex) {
            bool panicking = std::is_same_v<decltype(ex), PanicEx>;
            if (panicking && !defers.empty()) ++stats["defers run while unwinding"];
            std::exception_ptr cur = nullptr;
            while (!defers.empty()) {
                try {
                    run_defers();
                } catch (PanicEx& p) {
                    ++stats["panic during defer"];
                    if (!cur && !panicking) cur = std::make_exception_ptr(p);
                }
            }
            if (cur) std::rethrow_exception(cur);
            throw ex;
        };
        try {
            for (auto* c : n->c) {
                step();
                r = Val{};
                if (c->k == K::Defer) defers.push_back(c->c[0]);
                else r = stmt(c, s);
            }
        } catch (PanicEx& e) {
            leave(e);
        } catch (RetEx& e) {
            leave(e);
        } catch (BrkEx& e) {
            leave(e);
        } catch (ContEx& e) {
            leave(e);
        }
        // normal exit
        try {
            run_defers();
        } catch (PanicEx& e) {
            leave(e);
        }
        return n->flag ? r : null();
    }

    Val stmt(Node* n, Scope* s) {
        switch (n->k) {
        case K::ExprStmt: return eval(n->c[0], s);
        case K::VarDecl: exec_decl(n, s); return null();
        case K::Assert: {
            Val c = eval(n->c[0], s);
            if (!c.truthy()) {
                if (n->c.size() > 1) eval(n->c[1], s);
                panic("assert");
            }
            return null();
        }
        case K::While: {
            while (1) {
                step(2);
                if (!eval(n->c[0], s).truthy()) break;
                try {
                    eval(n->c[1], s);
                } catch (BrkEx&) {
                    break;
                } catch (ContEx&) {}
            }
            return null();
        }
        case K::For: { // init (VarDecl or null), cond, step, body
            Scope* in = scope(s);
            if (n->c[0]) stmt(n->c[0], in);
            while (1) {
                step(2);
                if (n->c[1] && !eval(n->c[1], in).truthy()) break;
                try {
                    eval(n->c[3], in);
                } catch (BrkEx&) {
                    break;
                } catch (ContEx&) {}
                if (n->c[2]) eval(n->c[2], in);
            }
            return null();
        }
        case K::ForEach: {
            Val c = eval(n->c[0], s);
            auto body = [&](const Val& item) {
                step(2);
                Scope* in = scope(s);
                bind(n, item, in);
                try {
                    eval(n->c[1], in);
                } catch (BrkEx&) {
                    return false;
                } catch (ContEx&) {}
                return true;
            };
            switch (c.t) {
            case Val::Array:
            case Val::Tuple:
                for (size_t i = 0; i < c.o->v.size(); ++i)
                    if (!body(Val(c.o->v[i]))) break;
                break;
            case Val::Set: {
                It it(c.o);
                auto copy = c.o->v;
                for (auto& x : copy)
                    if (!body(x)) break;
                break;
            }
            case Val::Map: {
                It it(c.o);
                for (size_t i = 0; i < c.o->v.size(); ++i)
                    if (!body(O(Val::Tuple, {c.o->v[i], c.o->w[i]}))) break;
                break;
            }
            case Val::Str:
            case Val::Slice: {
                std::string t = c.o->s;
                for (char ch : t)
                    if (!body(S(std::string(1, ch)))) break;
                break;
            }
            default: panic();
            }
            return null();
        }
        default: return eval(n, s);
        }
    }

    // A place that can be assigned
    struct Place { Node* n; Val base, key; };
    Place place(Node* n, Scope* s) {
        Place p{n, {}, {}};
        if (n->k == K::Index) {
            p.base = eval(n->c[0], s);
            p.key = eval(n->c[1], s);
        } else if (n->k == K::Field || n->k == K::TupleField) {
            p.base = eval(n->c[0], s);
        }
        return p;
    }
    Val read(Place& p, Scope* s) {
        switch (p.n->k) {
        case K::Var: return *find(s, p.n->d);
        case K::Index: return index(p.base, p.key);
        case K::Field: return field(p.base, p.n->s);
        default: return tuple_field(p.base, p.n->i);
        }
    }
    void write(Place& p, Scope* s, const Val& v) {
        switch (p.n->k) {
        case K::Var: *find(s, p.n->d) = v; return;
        case K::Index: {
            if (p.base.t == Val::Map) {
                for (size_t i = 0; i < p.base.o->v.size(); ++i)
                    if (equal(p.base.o->v[i], p.key)) { p.base.o->w[i] = v; return; }
                p.base.o->v.push_back(p.key);
                structural(p.base.o);
                p.base.o->w.push_back(v);
                return;
            }
            if (p.base.t != Val::Array && p.base.t != Val::Tuple) panic();
            if (p.key.t != Val::Int || p.key.i < 0 || (u64) p.key.i >= p.base.o->v.size()) panic();
            p.base.o->v[p.key.i] = v;
            return;
        }
        case K::Field:
            if (p.base.t != Val::Record) panic();
            for (size_t i = 0; i < p.base.o->names.size(); ++i)
                if (p.base.o->names[i] == p.n->s) { p.base.o->v[i] = v; return; }
            panic();
        default:
            if (p.base.t != Val::Tuple || (u64) p.n->i >= p.base.o->v.size()) panic();
            p.base.o->v[p.n->i] = v;
        }
    }
    Val index(const Val& b, const Val& k) {
        if (b.t == Val::Map) {
            for (size_t i = 0; i < b.o->v.size(); ++i)
                if (equal(b.o->v[i], k)) return b.o->w[i];
            return null();
        }
        if (b.t != Val::Array && b.t != Val::Tuple) panic();
        if (k.t != Val::Int || k.i < 0 || (u64) k.i >= b.o->v.size()) panic();
        return b.o->v[k.i];
    }
    Val field(const Val& b, const std::string& n) {
        if (b.t != Val::Record) panic();
        for (size_t i = 0; i < b.o->names.size(); ++i)
            if (b.o->names[i] == n) return b.o->v[i];
        panic();
    }
    Val tuple_field(const Val& b, i64 i) {
        if (b.t != Val::Tuple || (u64) i >= b.o->v.size()) panic();
        return b.o->v[i];
    }

    struct NullChain {}; // optional access found null: the whole access chain is null

    Val eval(Node* n, Scope* s) {
        switch (n->k) {
        case K::Call:
        case K::Method:
        case K::Index:
        case K::Field:
        case K::TupleField:
            step();
            try {
                return access(n, s);
            } catch (NullChain&) {
                ++stats["optional chains cut"];
                return null();
            }
        default: return eval_other(n, s);
        }
    }
    // the receiver of an access expression is part of the same chain unless it is parenthesised
    Val receiver(Node* n, Scope* s) {
        switch (n->k) {
        case K::Call:
        case K::Method:
        case K::Index:
        case K::Field:
        case K::TupleField:
            if (!n->extra_parens) return access(n, s);
            return eval(n, s);
        default: return eval(n, s);
        }
    }
    Val access(Node* n, Scope* s) {
        step();
        Val b = receiver(n->c[0], s);
        if (n->opt && b.t == Val::Null) throw NullChain{};
        switch (n->k) {
        case K::Index: {
            Val k = eval(n->c[1], s);
            return index(b, k);
        }
        case K::Field: return field(b, n->s);
        case K::TupleField: return tuple_field(b, n->i);
        case K::Call: {
            std::vector<Val> args;
            for (size_t i = 1; i < n->c.size(); ++i) args.push_back(eval(n->c[i], s));
            return call(b, std::move(args));
        }
        default: { // Method: existence is checked before the arguments are evaluated
            check_method(b, n->s);
            std::vector<Val> args;
            for (size_t i = 1; i < n->c.size(); ++i) args.push_back(eval(n->c[i], s));
            return method(b, n->s, args);
        }
        }
    }
    void check_method(const Val& b, const std::string& m) {
        static const std::map<int, std::set<std::string>> ms = {
            {Val::Array, {"size", "append", "clear"}},
            {Val::Tuple, {"size"}},
            {Val::Map, {"size", "contains", "remove", "clear"}},
            {Val::Set, {"size", "contains", "remove", "insert", "clear"}},
            {Val::Str, {"size", "contains", "slice_first", "slice_last", "slice"}},
            {Val::Slice, {"size", "contains", "slice_first", "slice_last", "slice", "to_string"}},
        };
        auto it = ms.find(b.t);
        if (it == ms.end() || !it->second.count(m)) panic();
    }
    Val method(const Val& b, const std::string& m, const std::vector<Val>& a) {
        step();
        switch (b.t) {
        case Val::Array:
            if (m == "size") return I(b.o->v.size());
            if (m == "append") { b.o->v.push_back(a[0]); return null(); }
            b.o->v.clear();
            return null();
        case Val::Tuple: return I(b.o->v.size());
        case Val::Map:
        case Val::Set: {
            if (m == "size") return I(b.o->v.size());
            if (m == "clear") { structural(b.o); b.o->v.clear(); b.o->w.clear(); return null(); }
            size_t at = 0;
            for (; at < b.o->v.size(); ++at)
                if (equal(b.o->v[at], a[0])) break;
            bool has = at < b.o->v.size();
            if (m == "contains") return B(has);
            if (m == "insert") {
                if (!has) structural(b.o), b.o->v.push_back(a[0]);
                return B(!has);
            }
            if (has) {
                structural(b.o);
                b.o->v.erase(b.o->v.begin() + at);
                if (b.t == Val::Map) b.o->w.erase(b.o->w.begin() + at);
            }
            return null();
        }
        case Val::Str:
        case Val::Slice: {
            const std::string& str = b.o->s;
            if (m == "size") return I(str.size());
            if (m == "to_string") return S(str);
            if (m == "contains") {
                if (a[0].t != Val::Str && a[0].t != Val::Slice) panic();
                return B(str.find(a[0].o->s) != std::string::npos);
            }
            for (auto& x : a)
                if (x.t != Val::Int) panic();
            auto clamp = [](i64 v, i64 hi) { return std::max<i64>(0, std::min(v, hi)); };
            i64 n = str.size(), from = 0, len = 0;
            if (m == "slice_first") len = clamp(a[0].i, n);
            else if (m == "slice_last") { len = clamp(a[0].i, n); from = n - len; }
            else { from = clamp(a[0].i, n); len = clamp(a[1].i, n - from); }
            Val r = S(str.substr(from, len));
            r.t = Val::Slice;
            return r;
        }
        default: panic();
        }
    }

    Val eval_other(Node* n, Scope* s) {
        step();
        switch (n->k) {
        case K::Int: return I(n->i);
        case K::Float: return F(n->f);
        case K::Str: return S(n->s);
        case K::Sym: { Val v = S(n->s); v.t = Val::Sym; return v; }
        case K::True: return B(true);
        case K::False: return B(false);
        case K::Null: return null();
        case K::Var: return *find(s, n->d);
        case K::Unary: {
            Val v = eval(n->c[0], s);
            if (n->s == "!") return B(!v.truthy());
            if (n->s == "~") {
                if (v.t != Val::Int) panic();
                return I(~v.i);
            }
            if (!v.num()) panic();
            if (n->s == "+") return v;
            if (v.t == Val::Float) return F(-v.f);
            if (v.i == INT64_MIN) panic();
            return I(-v.i);
        }
        case K::Binary: {
            Val a = eval(n->c[0], s), b = eval(n->c[1], s);
            return binary(n->s, a, b);
        }
        case K::And: {
            Val a = eval(n->c[0], s);
            return a.truthy() ? eval(n->c[1], s) : a;
        }
        case K::Or: {
            Val a = eval(n->c[0], s);
            return a.truthy() ? a : eval(n->c[1], s);
        }
        case K::Coalesce: {
            Val a = eval(n->c[0], s);
            return a.t != Val::Null ? a : eval(n->c[1], s);
        }
        case K::If: {
            if (eval(n->c[0], s).truthy()) {
                Val r = eval(n->c[1], s);
                return n->c.size() > 2 ? r : null();
            }
            return n->c.size() > 2 ? eval(n->c[2], s) : null();
        }
        case K::Block: return block(n, s);
        case K::ArrayLit:
        case K::TupleLit: {
            std::vector<Val> l;
            for (auto* c : n->c) l.push_back(eval(c, s));
            return O(n->k == K::ArrayLit ? Val::Array : Val::Tuple, std::move(l));
        }
        case K::RecordLit: {
            std::vector<Val> l;
            for (auto* c : n->c) l.push_back(eval(c, s));
            Val v = O(Val::Record, std::move(l));
            v.o->names = n->names;
            return v;
        }
        case K::MapLit: {
            std::vector<Val> l;
            for (auto* c : n->c) l.push_back(eval(c, s));
            Val v = O(Val::Map, {});
            for (size_t i = 0; i < l.size(); i += 2) {
                size_t at = 0;
                for (; at < v.o->v.size(); ++at)
                    if (equal(v.o->v[at], l[i])) break;
                if (at < v.o->v.size()) v.o->w[at] = l[i + 1];
                else { v.o->v.push_back(l[i]); v.o->w.push_back(l[i + 1]); }
            }
            return v;
        }
        case K::SetLit: {
            std::vector<Val> l;
            for (auto* c : n->c) l.push_back(eval(c, s));
            Val v = O(Val::Set, {});
            for (auto& x : l) {
                bool has = false;
                for (auto& y : v.o->v) has |= equal(x, y);
                if (!has) v.o->v.push_back(x);
            }
            return v;
        }
        case K::Func: return closure(n, s);
        case K::Assign: {
            // place, (old value), right hand side, write
            Place p = place(n->c[0], s);
            Val v;
            if (n->s.empty()) v = eval(n->c[1], s);
            else {
                Val old = read(p, s);
                Val r = eval(n->c[1], s);
                v = binary(n->s, old, r);
            }
            write(p, s, v);
            return v;
        }
        case K::TupleAssign: { // targets..., rhs
            std::vector<Place> ps;
            for (size_t i = 0; i + 1 < n->c.size(); ++i) ps.push_back(place(n->c[i], s));
            Val v = eval(n->c.back(), s);
            if (v.t != Val::Tuple) panic();
            std::vector<Val> parts;
            for (size_t i = 0; i < ps.size(); ++i) {
                if (i >= v.o->v.size()) panic();
                parts.push_back(v.o->v[i]);
            }
            for (size_t i = 0; i < ps.size(); ++i) write(ps[i], s, parts[i]);
            return v;
        }
        case K::Interp: {
            std::vector<Val> l;
            for (auto* c : n->c) l.push_back(eval(c, s));
            std::string r;
            for (auto& v : l) r += text(v);
            return S(r);
        }
        case K::Return: throw RetEx{n->c.empty() ? null() : eval(n->c[0], s)};
        case K::Break: throw BrkEx{};
        case K::Continue: throw ContEx{};
        case K::Trace: {
            Val v = eval(n->c[0], s);
            std::string r = repr(v);
            if (r.size() > 4000) throw Discard{};
            log.push_back(r);
            if (log.size() > 1500) throw Discard{};
            return v;
        }
        case K::Catch: {
            Val f = eval(n->c[0], s), dflt = eval(n->c[1], s);
            try {
                return call(f, {});
            } catch (PanicEx& e) {
                ++stats["panics caught"];
                log.push_back("caught " + shown(e));
                return dflt;
            }
        }
        case K::Panic: {
            Val v = eval(n->c[0], s);
            ++stats["panics raised"];
            if (v.t != Val::Str) throw PanicEx{"-"};
            throw PanicEx{v.o->s};
        }
        default: return stmt(n, s);
        }
    }
};

// ---------------------------------------------------------------------------------------------- printer
struct Style {
    Tape* t = nullptr;         // random layout if set
    int rename = 0;            // systematic renaming of local names
    std::vector<int> func_order;
    bool spell = false; // alternative literal spellings
    bool parens = false;
    int prelude = 1;
};

inline const char* prelude() {
    return R"(
export func verif_repr(v) = std.debug_repr(v);
func T(v) { env.emit(std.debug_repr(v)); return v; }
func C(f, d) {
    const r = std.catch_panic(f);
    if r.is_success() { return r.value(); }
    env.hook(r.error());
    return d;
}
)";
}

class Printer {
public:
    explicit Printer(Style st = {})
        : st(st) {}
    Style st;
    std::string out;

    // one item of a module
    std::string item(Node* global) {
        out.clear();
        stmt(global);
        return out + "\n";
    }
    std::string item(const FuncItem& f) {
        out.clear();
        func_item(f);
        return out + "\n";
    }

    std::string program(Program& p) {
        out = "import std;\nimport env;\n";
        out += prelude();
        for (auto* g : p.globals) { nl(); stmt(g); }
        std::vector<const FuncItem*> fs;
        for (auto& f : p.funcs) fs.push_back(&f);
        fs.push_back(&p.main);
        if (!st.func_order.empty()) {
            std::vector<const FuncItem*> r;
            for (int i : st.func_order) r.push_back(fs[i]);
            fs = r;
        }
        for (auto* f : fs) { nl(); func_item(*f); }
        out += "\n";
        return out;
    }
    void func_item(const FuncItem& f) {
        if (f.exported) { w("export"); }
        w("func");
        w(name(f.d));
        params(f.fn);
        body(f.fn);
    }

    std::string name(Decl* d) {
        if (st.rename && !d->module) switch (st.rename) {
            case 1: return sfmt("renamed_%d_%s", d->id, d->name.substr(0, 1).c_str());
            case 2: return sfmt("_%d", 9999 - d->id);
            case 3: return sfmt("\u00e4\u03b2%d", d->id);
            default: return sfmt("v%d_%s", (d->id * 7919) % 100003, std::string(d->id % 40, 'x').c_str());
            }
        return d->name;
    }

private:
    int ind = 0;
    bool need_semi = false;
    bool word(char c) { return isalnum((unsigned char) c) || c == '_' || c == '#' || (unsigned char) c >= 128; }
    void gap() {
        if (!st.t) return;
        switch (st.t->below(14)) {
        case 1: out += " "; break;
        case 2: out += "\n"; break;
        case 3: out += " /* c */ "; break;
        case 4: out += "// x = \"}\n"; break;
        case 5: out += "\t"; break;
        case 6: out += "/* a /* nested */ ' */"; break;
        case 7: out += "\r\n"; break;
        }
    }
    // a token that must be separated from neighbouring words
    void w(const std::string& tok) {
        if (!out.empty() && !tok.empty() && ((word(out.back()) && word(tok[0])))) out += ' ';
        gap();
        if (!out.empty() && !tok.empty() && ((word(out.back()) && word(tok[0])))) out += ' ';
        out += tok;
        gap2();
    }
    void gap2() {}
    void sp() { if (!st.t) out += ' '; }
    void nl() {
        if (st.t) { if (st.t->below(3) == 0) out += "\n"; return; }
        out += "\n";
        out.append(ind * 2, ' ');
    }
    static int prec(Node* n) {
        switch (n->k) {
        case K::Assign:
        case K::TupleAssign: return 0;
        case K::Or: return 1;
        case K::And: return 2;
        case K::Coalesce: return 3;
        case K::Binary:
            if (n->s == "==" || n->s == "!=") return 7;
            if (n->s[0] == '<' || n->s[0] == '>') return 8;
            if (n->s == "+" || n->s == "-") return 10;
            if (n->s == "**") return 12;
            return 11;
        case K::Unary: return 13;
        case K::Int:
            return n->i < 0 ? 13 : 15;
        case K::Float: return std::signbit(n->f) || n->f != n->f || std::isinf(n->f) ? 13 : 15;
        case K::If:
        case K::Block:
        case K::Func:
        case K::Return:
        case K::Break:
        case K::Continue: return -1; // always in parentheses when nested in an operator
        default: return 15;
        }
    }
    void params(Node* fn) {
        w("(");
        for (size_t i = 0; i < fn->ds.size(); ++i) {
            if (i) { w(","); sp(); }
            w(name(fn->ds[i]));
        }
        if (st.t && !fn->ds.empty() && st.t->below(6) == 1) w(",");
        w(")");
        sp();
    }
    void body(Node* fn) {
        if (fn->flag && fn->c[0]->k != K::Block) {
            w("=");
            sp();
            expr(fn->c[0], 0);
            w(";");
        } else if (fn->flag) { // block with a value
            w("=");
            sp();
            expr(fn->c[0], 0);
            w(";");
        } else
            block(fn->c[0]);
    }
    void block(Node* b) {
        w("{");
        ++ind;
        for (size_t i = 0; i < b->c.size(); ++i) {
            nl();
            // "if x {} (a, b) = c;" continues the if expression: a semicolon separates the statements
            Node* next = i + 1 < b->c.size() ? b->c[i + 1] : nullptr;
            need_semi = next && next->k == K::ExprStmt && (next->flag || st.parens || next->c[0]->k == K::TupleAssign);
            stmt(b->c[i]);
        }
        --ind;
        if (!b->c.empty()) nl();
        w("}");
    }
    static bool block_like(Node* n) { return n->k == K::If || n->k == K::Block || n->k == K::Func; }
    static Node* leftmost(Node* n) {
        while (1) {
            switch (n->k) {
            case K::Binary:
            case K::And:
            case K::Or:
            case K::Coalesce:
            case K::Assign:
            case K::Call:
            case K::Method:
            case K::Index:
            case K::Field:
            case K::TupleField:
                if (n->extra_parens && n->k != K::Assign) return n;
                n = n->c[0];
                continue;
            default: return n;
            }
        }
    }
    void stmt(Node* n) {
        switch (n->k) {
        case K::ExprStmt: {
            Node* e = n->c[0];
            if (e->k == K::If || e->k == K::Block) { // statement form
                bool semi = n->flag || need_semi;
                expr(e, -2);
                if (semi) w(";");
                return;
            }
            expr(e, 0);
            w(";");
            return;
        }
        case K::VarDecl: var_decl(n); w(";"); return;
        case K::Assert:
            w("assert"); w("(");
            expr(n->c[0], 0);
            if (n->c.size() > 1) { w(","); sp(); expr(n->c[1], 0); }
            w(")"); w(";");
            return;
        case K::While:
            w("while"); sp();
            cond(n->c[0]);
            sp();
            block(n->c[1]);
            return;
        case K::For:
            w("for"); sp();
            if (n->c[0]) var_decl(n->c[0]);
            w(";"); sp();
            if (n->c[1]) cond(n->c[1]);
            w(";"); sp();
            if (n->c[2]) { cond(n->c[2]); sp(); }
            block(n->c[3]);
            return;
        case K::ForEach:
            w("for"); sp();
            pattern(n);
            w("in"); sp();
            cond(n->c[0]);
            sp();
            block(n->c[1]);
            return;
        case K::Defer:
            w("defer"); sp();
            expr(n->c[0], 0);
            w(";");
            return;
        default: expr(n, 0); w(";");
        }
    }
    // expressions directly followed by a block: parenthesised when they could swallow the brace
    void cond(Node* n) {
        if (has_brace(n)) {
            w("("); expr(n, 0); w(")");
        } else expr(n, 0);
    }
    static bool has_brace(Node* n) {
        if (n->k == K::MapLit || n->k == K::SetLit || block_like(n) || n->k == K::Return || n->k == K::Break || n->k == K::Continue) return true;
        for (auto* c : n->c)
            if (c && has_brace(c)) return true;
        return false;
    }
    void pattern(Node* n) {
        if (n->ds.empty()) w(name(n->d));
        else {
            w("(");
            for (size_t i = 0; i < n->ds.size(); ++i) {
                if (i) { w(","); sp(); }
                w(name(n->ds[i]));
            }
            if (n->ds.size() == 1) w(",");
            w(")");
        }
        sp();
    }
    void var_decl(Node* n) {
        w(n->flag ? "const" : "var");
        sp();
        pattern(n);
        w("=");
        sp();
        expr(n->c[0], 0);
    }
    void list(const std::vector<Node*>& l, size_t from = 0) {
        for (size_t i = from; i < l.size(); ++i) {
            if (i > from) { w(","); sp(); }
            expr(l[i], 0);
        }
    }
    static std::string group(const std::string& digits, Tape* t) {
        std::string r;
        for (size_t i = 0; i < digits.size(); ++i) {
            r += digits[i];
            if (i + 1 < digits.size() && t->below(4) == 1) r += '_';
        }
        return r;
    }
    std::string int_spelling(i64 v) {
        if (st.t && st.spell) {
            switch (st.t->below(5)) {
            case 1: return "0x" + group(sfmt("%llx", (long long) v), st.t);
            case 2: return "0o" + group(sfmt("%llo", (long long) v), st.t);
            case 3: {
                std::string b;
                u64 u = v;
                do { b.insert(b.begin(), '0' + (u & 1)); u >>= 1; } while (u);
                return "0b" + group(b, st.t);
            }
            case 4: return group(sfmt("%lld", (long long) v), st.t);
            }
        }
        return sfmt("%lld", (long long) v);
    }
    void str_char(std::string& r, unsigned char c, char q) {
        if (c == '\n') r += "\\n";
        else if (c == '\r') r += "\\r";
        else if (c == '\t') r += "\\t";
        else if (c == '$') r += "\\$";
        else if (c == '\\') r += "\\\\";
        else if (c == q) { r += '\\'; r += c; }
        else if (st.t && st.spell && c < 128 && st.t->below(8) == 1)
            r += st.t->below(2) ? sfmt("\\x%02X", c) : sfmt("\\u{%x}", c);
        else r += (char) c;
    }
    void str_lit(const std::string& s) {
        char q = st.t && st.spell && st.t->below(3) == 1 ? '\'' : '"';
        std::string r(1, q);
        for (size_t i = 0; i < s.size(); ++i) {
            str_char(r, s[i], q);
            // adjacent literals are one string
            if (st.t && st.spell && i + 1 < s.size() && (unsigned char) s[i] < 128 && st.t->below(12) == 1) { r += q; r += ' '; r += q; }
        }
        r += q;
        w(r);
    }

    // level: minimal precedence allowed without parentheses; -2: statement position
    void expr(Node* n, int level) {
        int extra = 0;
        if (st.parens && st.t && level != -2 && n->k != K::Panic && st.t->below(5) == 1) extra = 1;
        bool chain = n->k == K::Call || n->k == K::Method || n->k == K::Index || n->k == K::Field || n->k == K::TupleField;
        if (extra && chain && in_chain) extra = 0; // would change an optional chain
        if (n->extra_parens) extra = 1;
        int p = prec(n);
        bool paren = (p < level && !(level == 0)) || extra;
        if (level == -2) paren = false;
        if (paren) w("(");
        bool save = in_chain;
        in_chain = false;
        expr_inner(n);
        in_chain = save;
        if (paren) w(")");
    }
    void op(const std::string& o) {
        if (!st.t) { out += ' '; out += o; out += ' '; return; }
        // keep operators apart from each other
        if (!out.empty() && ispunct((unsigned char) out.back()) && !strchr(")]}_", out.back())) out += ' ';
        gap();
        out += o;
        out += ' ';
    }
    void receiver(Node* n) {
        in_chain_arg = true;
        int p = prec(n);
        bool lit = n->k == K::Int || n->k == K::Float || n->k == K::MapLit || n->k == K::SetLit;
        bool paren = p < 14 || lit || n->extra_parens;
        if (paren) w("(");
        expr_inner(n);
        if (paren) w(")");
    }
    bool in_chain = false, in_chain_arg = false;
    void expr_inner(Node* n) {
        switch (n->k) {
        case K::Int:
            if (n->i == INT64_MIN) { w("(-9223372036854775807 - 1)"); return; }
            if (n->i < 0) { w("-"); w(int_spelling(-n->i)); return; }
            w(int_spelling(n->i));
            return;
        case K::Float: {
            if (std::signbit(n->f)) w("-");
            w(fmt::format("{:f}", std::fabs(n->f)));
            return;
        }
        case K::Str: str_lit(n->s); return;
        case K::Sym: w("#" + n->s); return;
        case K::True: w("true"); return;
        case K::False: w("false"); return;
        case K::Null: w("null"); return;
        case K::Var: w(name(n->d)); return;
        case K::Unary:
            if (!st.t && !out.empty() && (out.back() == '-' || out.back() == '+')) out += ' ';
            if (st.t && !out.empty() && ispunct((unsigned char) out.back()) && !strchr("()[]{}_,;", out.back())) out += ' ';
            w(n->s);
            if (n->c[0]->k == K::Unary || prec(n->c[0]) == 13) out += ' ';
            expr(n->c[0], 13);
            return;
        case K::Binary:
        case K::And:
        case K::Or:
        case K::Coalesce: {
            int p = prec(n);
            std::string o = n->k == K::Binary ? n->s : n->k == K::And ? "&&" : n->k == K::Or ? "||" : "??";
            bool right = n->s == "**";
            expr(n->c[0], right ? p + 1 : p);
            op(o);
            expr(n->c[1], right ? p : p + 1);
            return;
        }
        case K::If:
            w("if"); sp();
            cond(n->c[0]);
            sp();
            block(n->c[1]);
            if (n->c.size() > 2) {
                sp(); w("else"); sp();
                if (n->c[2]->k == K::If) expr_inner(n->c[2]);
                else block(n->c[2]);
            }
            return;
        case K::Block: block(n); return;
        case K::Call:
            receiver(n->c[0]);
            w(n->opt ? "?(" : "(");
            list(n->c, 1);
            w(")");
            return;
        case K::Method:
            receiver(n->c[0]);
            w(n->opt ? "?." : ".");
            w(n->s);
            w("(");
            list(n->c, 1);
            w(")");
            return;
        case K::Index:
            receiver(n->c[0]);
            w(n->opt ? "?[" : "[");
            expr(n->c[1], 0);
            w("]");
            return;
        case K::Field:
            receiver(n->c[0]);
            w(n->opt ? "?." : ".");
            w(n->s);
            return;
        case K::TupleField:
            receiver(n->c[0]);
            w(n->opt ? "?." : ".");
            w(sfmt("%lld", (long long) n->i));
            return;
        case K::ArrayLit: w("["); list(n->c); w("]"); return;
        case K::TupleLit:
            w("(");
            list(n->c);
            if (n->c.size() == 1) w(",");
            w(")");
            return;
        case K::RecordLit:
            if (n->c.empty()) { w("("); w(":"); w(")"); return; }
            w("(");
            for (size_t i = 0; i < n->c.size(); ++i) {
                if (i) { w(","); sp(); }
                w(n->names[i]); w(":"); sp();
                expr(n->c[i], 0);
            }
            w(")");
            return;
        case K::MapLit:
            w("map"); w("{");
            for (size_t i = 0; i < n->c.size(); i += 2) {
                if (i) { w(","); sp(); }
                expr(n->c[i], 1);
                w(":"); sp();
                expr(n->c[i + 1], 0);
            }
            w("}");
            return;
        case K::SetLit: w("set"); w("{"); list(n->c); w("}"); return;
        case K::Func:
            w("func");
            params(n);
            if (n->flag) {
                w("="); sp();
                expr(n->c[0], 0);
            } else block(n->c[0]);
            return;
        case K::Assign:
            expr_inner(n->c[0]);
            op(n->s + "=");
            expr(n->c[1], 0);
            return;
        case K::TupleAssign:
            w("(");
            for (size_t i = 0; i + 1 < n->c.size(); ++i) {
                if (i) { w(","); sp(); }
                expr_inner(n->c[i]);
            }
            if (n->c.size() == 2) w(",");
            w(")");
            op("=");
            expr(n->c.back(), 0);
            return;
        case K::Interp: {
            w("\"");
            for (auto* c : n->c) {
                if (c->k == K::Str && !c->extra_parens) {
                    for (unsigned char ch : c->s) str_char(out, ch, '"');
                } else if (c->k == K::Var && c->alt) {
                    out += "$" + name(c->d);
                } else {
                    out += "${";
                    Style save = st;
                    st.t = nullptr; // line comments must not swallow the closing brace
                    expr(c, 0);
                    st = save;
                    out += "}";
                }
            }
            out += "\"";
            return;
        }
        case K::Return:
            w("return");
            if (!n->c.empty()) { out += ' '; expr(n->c[0], 0); }
            return;
        case K::Break: w("break"); return;
        case K::Continue: w("continue"); return;
        case K::Trace: w("T"); w("("); expr(n->c[0], 0); w(")"); return;
        case K::Catch: w("C"); w("("); expr(n->c[0], 0); w(","); sp(); expr(n->c[1], 0); w(")"); return;
        case K::Panic: w("std"); w("."); w("panic"); w("("); expr(n->c[0], 0); w(")"); return;
        default: fprintf(stderr, "printer: statement in expression\n"); abort();
        }
    }
};

} // namespace lang
#endif
