// C21: register assignment, copy sequencing and the analyses behind them.
//
//  copies     random sets of parallel register moves: simulate the emitted sequence
//  dominators random control flow graphs (with unreachable blocks): brute force dominance
//  liveness   random functions in SSA form: brute force data flow
//  functions  random functions in SSA form (irreducible graphs, phi functions, exception handlers): the IR is executed
//             symbolically, then compiled, and the decoded bytecode is executed on symbolic registers
//  programs   the functions of generated programs, the same comparison
#include "lang_run.hpp"
#include "bytecode_table.hpp"
#include "bytecode/module.hpp"
#include "bytecode/reader.hpp"
#include "compiler/ast/ast.hpp"
#include "compiler/ast_gen/build_ast.hpp"
#include "compiler/bytecode_gen/module.hpp"
#include "compiler/bytecode_gen/parallel_copy.hpp"
#include "compiler/diagnostics.hpp"
#include "compiler/ir/function.hpp"
#include "compiler/ir/module.hpp"
#include "compiler/ir/traversal.hpp"
#include "compiler/ir_gen/module.hpp"
#include "compiler/ir_passes/assignment_observers.hpp"
#include "compiler/ir_passes/construct_cssa.hpp"
#include "compiler/ir_passes/critical_edges.hpp"
#include "compiler/ir_passes/dead_code_elimination.hpp"
#include "compiler/ir_passes/dominators.hpp"
#include "compiler/ir_passes/liveness.hpp"
#include "compiler/ir_passes/visit.hpp"
#include "compiler/semantics/analysis.hpp"
#include "compiler/syntax/build_syntax_tree.hpp"
#include "compiler/syntax/grammar/item.hpp"
#include "compiler/syntax/lexer.hpp"
#include "compiler/syntax/parser.hpp"
#include <algorithm>
#include <map>
#include <memory>
#include <set>

using pbt::Case;
using pbt::Suite;
using pbt::Tape;
using tu::sfmt;
using u32 = uint32_t;
using u64 = uint64_t;
using i64 = int64_t;
namespace ir = tiro::ir;
using ir::BlockId;
using ir::InstId;
using tiro::BytecodeRegister;
using tiro::SymbolId;

namespace {

// ---------------------------------------------------------------------------------------------- parallel copies

void copies(Case& c) {
    Tape& t = c.t;
    tiro::ParallelCopyAlgorithm algo; // working memory is reused between runs
    u32 rounds = 1 + (u32) t.below(4);
    for (u32 round = 0; round < rounds; ++round) {
        u32 regs = 1 + (u32) t.size(24);
        u32 mode = (u32) t.below(4); // arbitrary, mostly permutation, chains, few sources
        std::vector<tiro::RegisterCopy> list;
        std::vector<u32> order(regs);
        for (u32 i = 0; i < regs; ++i) order[i] = i;
        for (u32 i = regs; i > 1; --i) std::swap(order[i - 1], order[t.below(i)]);
        std::vector<u32> perm = order;
        for (u32 i = regs; i > 1; --i) std::swap(perm[i - 1], perm[t.below(i)]);
        for (u32 i = 0; i < regs; ++i) {
            u32 dest = order[i], src;
            if (mode == 1) {
                if (t.chance(1, 10)) continue;
                src = perm[dest];
            } else if (mode == 2) {
                if (t.chance(1, 6)) continue;
                src = order[(i + 1) % regs];
            } else if (mode == 3) {
                if (t.chance(1, 4)) continue;
                src = (u32) t.below(std::min<u32>(regs, 3));
            } else {
                if (t.chance(1, 3)) continue;
                src = (u32) t.below(regs);
            }
            list.push_back({BytecodeRegister(src), BytecodeRegister(dest)});
        }
        std::string d = "copies:";
        std::vector<u64> want(regs + 8), have(regs + 8);
        for (u32 i = 0; i < want.size(); ++i) want[i] = have[i] = 1000 + i;
        u32 real = 0;
        std::map<u32, u32> source_of;
        for (auto& x : list) {
            d += sfmt(" r%u->r%u", x.src.value(), x.dest.value());
            want[x.dest.value()] = have[x.src.value()];
            if (x.src != x.dest) ++real, source_of[x.dest.value()] = x.src.value();
        }
        c.add(d + "\n");
        u32 cycles = 0; // moves that lie on a cycle need one extra move per cycle whose values have no other copy
        {
            std::set<u32> seen;
            for (auto& [dest, src] : source_of) {
                std::set<u32> path;
                u32 x = dest;
                while (source_of.count(x) && !seen.count(x) && path.insert(x).second) x = source_of[x];
                if (path.count(x)) ++cycles;
                seen.insert(path.begin(), path.end());
            }
        }
        u32 spares = 0;
        algo.sequentialize(list, [&]() { return BytecodeRegister(regs + spares++); });
        std::string got = "emitted:";
        for (auto& x : list) {
            if (!x.src || !x.dest) c.fail("a move with an invalid register");
            got += sfmt(" r%u->r%u", x.src.value(), x.dest.value());
            if (x.src.value() >= regs + spares || x.dest.value() >= regs + spares) c.fail("a register that is neither mentioned nor allocated: " + got);
            have[x.dest.value()] = have[x.src.value()];
        }
        c.add(got + "\n");
        if (spares > 1) c.fail(sfmt("%u spare registers were allocated", spares));
        for (u32 i = 0; i < regs; ++i)
            if (have[i] != want[i]) c.fail(sfmt("r%u has the old value of r%u instead of r%u", i, (u32) have[i] - 1000, (u32) want[i] - 1000));
        c.count("moves", real);
        c.label("copy sets that needed no spare register", !spares);
        c.label("copy sets with a cycle", cycles > 0);
        c.label("copy sets with two cycles or more", cycles > 1);
        c.label("copy sets where a source is copied twice", source_of.size() > 1 && mode == 3);
        if (real >= 3) c.nontrivial = true;
    }
}

// ---------------------------------------------------------------------------------------------- graphs

std::vector<BlockId> targets(const ir::Terminator& term) {
    std::vector<BlockId> r;
    ir::visit_targets(term, [&](BlockId b) { r.push_back(b); });
    return r;
}
std::set<u32> reachable(const ir::Function& f, u32 without = ~0u) {
    std::set<u32> seen;
    std::vector<BlockId> work;
    if (f.entry().value() != without) work.push_back(f.entry()), seen.insert(f.entry().value());
    while (!work.empty()) {
        BlockId b = work.back();
        work.pop_back();
        for (auto s : targets(f[b].terminator()))
            if (s.value() != without && seen.insert(s.value()).second) work.push_back(s);
    }
    return seen;
}
struct Fn {
    tiro::StringTable strings;
    ir::Function f;
    Fn()
        : f(strings.insert("func"), ir::FunctionType::Normal, strings) {}
};

void dominators(Case& c) {
    Tape& t = c.t;
    Fn fn;
    auto& f = fn.f;
    u32 n = 1 + (u32) t.size(t.chance(1, 10) ? 40 : 12);
    std::vector<BlockId> bs{f.body()};
    for (u32 i = 1; i < n; ++i) bs.push_back(f.make(ir::Block(fn.strings.insert(sfmt("b%u", i)))));
    auto edge = [&](BlockId a, BlockId b) { f[b].append_predecessor(a); };
    u32 handlers = (u32) t.below(3);
    for (u32 i = 0; i < handlers && i + 1 < n; ++i) {
        // additional roots
        BlockId h = bs[1 + t.below(n - 1)];
        auto& e = f[f.entry()].terminator().as_entry();
        if (std::find(e.handlers.begin(), e.handlers.end(), h) != e.handlers.end()) continue;
        e.handlers.push_back(h);
        edge(f.entry(), h);
    }
    std::string d = sfmt("%u blocks, %zu handlers\n", n, f[f.entry()].terminator().as_entry().handlers.size());
    bool local = t.chance(1, 3);
    for (u32 i = 0; i < n; ++i) {
        auto pick = [&]() -> BlockId {
            if (local && t.chance(3, 4)) return bs[std::min<u64>(n - 1, i + t.below(3))];
            u64 k = t.below(n + 1);
            return k == n ? f.exit() : bs[k];
        };
        u64 kind = t.weighted({5, 6, 1, 1});
        if (kind == 0) {
            BlockId a = pick();
            f[bs[i]].terminator(ir::Terminator::make_jump(a));
            edge(bs[i], a);
        } else if (kind == 1) {
            BlockId a = pick(), b = pick();
            f[bs[i]].terminator(ir::Terminator::make_branch(ir::BranchType::IfTrue, InstId(), a, b));
            edge(bs[i], a);
            edge(bs[i], b);
        } else if (kind == 2) {
            f[bs[i]].terminator(ir::Terminator::make_return(InstId(), f.exit()));
            edge(bs[i], f.exit());
        } else {
            f[bs[i]].terminator(ir::Terminator::make_rethrow(f.exit()));
            edge(bs[i], f.exit());
        }
    }
    std::vector<BlockId> all;
    for (auto b : f.block_ids()) all.push_back(b);
    for (auto b : all) {
        d += sfmt("%u ->", b.value());
        for (auto s : targets(f[b].terminator())) d += sfmt(" %u", s.value());
        d += "\n";
    }
    c.describe(d);
    auto check = [&] {
        ir::DominatorTree tree(f);
        tree.compute();
        auto live = reachable(f);
        std::map<u32, std::set<u32>> dom; // dominators of a block
        for (u32 a : live) {
            auto rest = reachable(f, a);
            for (u32 b : live)
                if (a == b || !rest.count(b)) dom[b].insert(a);
        }
        std::map<u32, u32> idom;
        for (u32 b : live) {
            u32 best = b;
            for (u32 a : dom[b])
                if (a != b && (best == b || dom[a].size() > dom[best].size())) best = a;
            idom[b] = best;
        }
        for (u32 b : live) {
            for (u32 a : live) {
                bool want = dom[b].count(a);
                if (tree.dominates(BlockId(a), BlockId(b)) != want) c.fail(sfmt("dominates(%u, %u) must be %d", a, b, want));
                if (tree.dominates_strict(BlockId(a), BlockId(b)) != (want && a != b)) c.fail(sfmt("dominates_strict(%u, %u)", a, b));
            }
            if (tree.immediate_dominator(BlockId(b)).value() != idom[b]) c.fail(sfmt("the immediate dominator of %u is %u, not %u", b, idom[b], tree.immediate_dominator(BlockId(b)).value()));
            std::multiset<u32> kids, want;
            for (auto k : tree.immediately_dominated(BlockId(b))) kids.insert(k.value());
            for (u32 k : live)
                if (k != b && idom[k] == b) want.insert(k);
            if (kids != want) c.fail(sfmt("the children of %u in the dominator tree are wrong", b));
        }
        // orders of visits
        std::map<u32, size_t> pre, post;
        size_t k = 0;
        for (auto b : ir::PreorderTraversal(f))
            if (!pre.emplace(b.value(), k++).second) c.fail("a block is visited twice");
        k = 0;
        for (auto b : ir::PostorderTraversal(f))
            if (!post.emplace(b.value(), k++).second) c.fail("a block is visited twice");
        if (pre.size() != live.size() || post.size() != live.size()) c.fail("a traversal misses blocks");
        for (u32 b : live) {
            if (!pre.count(b) || !post.count(b)) c.fail("a traversal misses a block");
            if (idom[b] != b && (pre[idom[b]] > pre[b] || post[idom[b]] < post[b])) c.fail("a traversal visits a block before its dominator");
        }
        return std::make_pair(live.size(), idom);
    };
    auto [live, idom] = check();
    size_t deep = 0;
    for (auto& [b, i] : idom) deep += i != f.entry().value() && i != b;
    c.count("reachable blocks", live);
    c.label("graphs with unreachable blocks", live < all.size());
    c.label("graphs with nested dominance", deep > 0);
    c.nontrivial = live >= 5 && deep >= 1;
    // splitting the critical edges
    bool simple = true; // no branch with two equal targets
    for (auto b : all)
        if (auto ts = targets(f[b].terminator()); f[b].terminator().type() == ir::TerminatorType::Branch && ts[0] == ts[1]) simple = false;
    if (!simple) return;
    std::set<std::pair<u32, u32>> edges_before;
    for (u32 b : reachable(f))
        for (auto s : targets(f[BlockId(b)].terminator())) edges_before.insert({b, s.value()});
    size_t critical = 0;
    for (auto [a, b] : edges_before)
        if (f[BlockId(a)].terminator().type() == ir::TerminatorType::Branch && f[BlockId(b)].predecessor_count() > 1) ++critical;
    bool changed = ir::split_critical_edges(f);
    if (changed != (critical > 0)) c.fail("the result of split_critical_edges is wrong");
    std::set<std::pair<u32, u32>> edges_after;
    size_t fresh = 0;
    for (u32 b : reachable(f)) {
        if (b >= all.size()) {
            ++fresh;
            continue;
        }
        for (auto s : targets(f[BlockId(b)].terminator())) {
            BlockId to = s;
            if (to.value() >= all.size()) {
                auto ts = targets(f[to].terminator());
                if (f[to].terminator().type() != ir::TerminatorType::Jump || ts.size() != 1 || f[to].inst_count()) c.fail("a block on a split edge is not a plain jump");
                if (f[to].predecessor_count() != 1 || f[to].predecessor(0).value() != b) c.fail("a block on a split edge has wrong predecessors");
                to = ts[0];
            }
            edges_after.insert({b, to.value()});
            if (f[BlockId(b)].terminator().type() == ir::TerminatorType::Branch && f[s].predecessor_count() > 1) c.fail(sfmt("the critical edge %u -> %u remains", b, s.value()));
        }
    }
    if (edges_before != edges_after) c.fail("splitting critical edges changed the graph");
    if (fresh != critical) c.fail("unneeded blocks on split edges");
    for (u32 b : reachable(f)) {
        // links in both directions
        for (auto s : targets(f[BlockId(b)].terminator())) {
            size_t k = 0;
            for (auto p : f[s].predecessors()) k += p.value() == b;
            if (k != 1) c.fail("the lists of predecessors do not match the graph");
        }
    }
    check();
    c.label("graphs with critical edges", critical > 0);
}

// ---------------------------------------------------------------------------------------------- random functions

struct FnGen {
    Tape& t;
    tiro::StringTable& strings;
    ir::Module& mod;
    ir::Function& f;
    bool handlers_allowed;
    std::vector<ir::ModuleMemberId> variables, functions;

    struct B {
        BlockId id;
        u32 region;
        bool root;
        std::vector<u32> succ, pred;
        std::set<u32> dom;
        std::vector<InstId> values, methods, iters, locals_v, locals_m, locals_i;
        std::vector<InstId> phis;
    };
    std::vector<B> bs;
    std::vector<u32> roots;
    u32 symbols = 0, phi_count = 0, observed = 0, inst_total = 0;

    InstId def(BlockId b, ir::Value v, bool at = true) {
        auto id = f.make(ir::Inst(std::move(v)));
        if (at) f[b].append_inst(id);
        ++inst_total;
        return id;
    }

    void graph() {
        u32 regions = 1;
        if (handlers_allowed && t.chance(1, 2)) regions += 1 + (u32) t.below(2);
        symbols = regions > 1 ? (u32) t.below(4) : 0;
        for (u32 r = 0; r < regions; ++r) {
            u32 n = r == 0 ? 1 + (u32) t.size(10) : 1 + (u32) t.below(4);
            u32 first = (u32) bs.size();
            roots.push_back(first);
            for (u32 i = 0; i < n; ++i) {
                B b;
                b.region = r;
                b.root = i == 0;
                b.id = r == 0 && i == 0 ? f.body() : f.make(ir::Block(strings.insert(sfmt("b%zu", bs.size()))));
                bs.push_back(b);
            }
            auto connect = [&](u32 a, u32 b) {
                auto& s = bs[a].succ;
                if (s.size() >= 2 || std::find(s.begin(), s.end(), b) != s.end()) return false;
                s.push_back(b);
                return true;
            };
            for (u32 i = 1; i < n; ++i) {
                u32 p = (u32) t.below(i);
                while (!connect(first + p, first + i)) p = (p + 1) % i; // a free slot exists: i blocks have 2 i slots
            }
            u32 extra = n > 1 ? (u32) t.below(n + 2) : 0;
            for (u32 i = 0; i < extra; ++i) connect(first + (u32) t.below(n), first + 1 + (u32) t.below(n - 1));
            for (u32 i = first; i < bs.size(); ++i)
                if (bs[i].succ.size() == 2 && t.chance(1, 2)) std::swap(bs[i].succ[0], bs[i].succ[1]);
        }
        // handlers
        for (u32 r = 1; r < regions; ++r) {
            auto& root = bs[roots[r]];
            f[root.id].is_handler(true);
            f[f.entry()].terminator().as_entry().handlers.push_back(root.id);
            f[root.id].append_predecessor(f.entry());
        }
        for (auto& b : bs) // every handler is used at least once
            if (b.region + 1 < regions && b.root) f[b.id].handler(bs[roots[b.region + 1]].id);
        for (auto& b : bs)
            if (b.region + 1 < regions && !b.root && t.chance(2, 3)) f[b.id].handler(bs[roots[b.region + 1 + t.below(regions - b.region - 1)]].id);
        // predecessors in a random order
        std::vector<std::pair<u32, u32>> edges;
        for (u32 i = 0; i < bs.size(); ++i)
            for (u32 s : bs[i].succ) edges.push_back({i, s});
        for (size_t i = edges.size(); i > 1; --i) std::swap(edges[i - 1], edges[t.below(i)]);
        for (auto [a, b] : edges) bs[b].pred.push_back(a), f[bs[b].id].append_predecessor(bs[a].id);
        // dominators within a region, brute force
        for (u32 r = 0; r < regions; ++r)
            for (u32 a = 0; a < bs.size(); ++a) {
                if (bs[a].region != r) continue;
                std::set<u32> seen;
                std::vector<u32> work;
                if (a != roots[r]) work.push_back(roots[r]), seen.insert(roots[r]);
                while (!work.empty()) {
                    u32 x = work.back();
                    work.pop_back();
                    for (u32 s : bs[x].succ)
                        if (s != a && seen.insert(s).second) work.push_back(s);
                }
                for (u32 b = 0; b < bs.size(); ++b)
                    if (bs[b].region == r && !seen.count(b)) bs[b].dom.insert(a);
            }
    }

    InstId pick(std::vector<InstId>& v) {
        if (t.chance(1, 3)) return v[v.size() - 1 - t.below(std::min<size_t>(v.size(), 4))];
        return v[t.below(v.size())];
    }
    ir::LocalListId list(B& b, u32 max) {
        ir::LocalList l;
        u32 n = (u32) t.below(max + 1);
        for (u32 i = 0; i < n; ++i) l.append(pick(b.values));
        return f.make(std::move(l));
    }
    ir::LValue lvalue(B& b) {
        switch (t.below(6)) {
        case 0: return ir::LValue::make_param(ir::ParamId((u32) t.below(f.param_count())));
        case 1: return ir::LValue::make_closure(pick(b.values), (u32) t.below(3), (u32) t.below(4));
        case 2: return ir::LValue::make_module(t.pick(variables));
        case 3: return ir::LValue::make_field(pick(b.values), strings.insert(sfmt("f%u", (u32) t.below(3))));
        case 4: return ir::LValue::make_tuple_field(pick(b.values), (u32) t.below(3));
        default: return ir::LValue::make_index(pick(b.values), pick(b.values));
        }
    }
    void add(B& b, InstId id) { b.values.push_back(id), b.locals_v.push_back(id); }
    void constant(B& b) {
        switch (t.below(6)) {
        case 0: add(b, def(b.id, ir::Constant::make_null())); break;
        case 1: add(b, def(b.id, ir::Constant::make_true())); break;
        case 2: add(b, def(b.id, ir::Constant::make_string(strings.insert(sfmt("s%u", (u32) t.below(4)))))); break;
        case 3: add(b, def(b.id, ir::Constant::make_symbol(strings.insert(sfmt("y%u", (u32) t.below(4)))))); break;
        default: add(b, def(b.id, ir::Constant::make_integer((i64) t.below(50)))); break;
        }
    }
    // Values that may contain a new record must not be written to: a record is created together with its contents
    // (both executions treat stores to a new record as part of its construction).
    std::set<u32> records;
    void instruction(B& b) {
        using V = ir::Value;
        switch (t.weighted({6, 3, 4, 5, 2, 4, 4, 2, 2, 2, 2, 3, 2, 1, 1, 1, 2, 2, 3, 4})) {
        case 0: constant(b); break;
        case 1: add(b, def(b.id, V::make_read(lvalue(b)))); break;
        case 2: {
            auto l = lvalue(b);
            InstId v = pick(b.values);
            if (l.type() == ir::LValueType::Field && records.count(l.as_field().object.value())) break;
            def(b.id, V::make_write(l, v));
            break;
        }
        case 3: {
            auto op = (ir::BinaryOpType) t.below(17);
            InstId l = pick(b.values), r = pick(b.values);
            add(b, def(b.id, V::make_binary_op(op, l, r)));
            break;
        }
        case 4: add(b, def(b.id, V::make_unary_op((ir::UnaryOpType) t.below(4), pick(b.values)))); break;
        case 5: {
            InstId fn = pick(b.values);
            add(b, def(b.id, V::make_call(fn, list(b, 4))));
            break;
        }
        case 6: {
            InstId v = pick(b.values);
            if (records.count(v.value())) break;
            add(b, def(b.id, V::make_alias(v)));
            break;
        }
        case 7: {
            auto id = def(b.id, ir::Aggregate::make_method(pick(b.values), strings.insert(sfmt("m%u", (u32) t.below(3)))));
            b.methods.push_back(id), b.locals_m.push_back(id);
            break;
        }
        case 8: {
            auto id = def(b.id, ir::Aggregate::make_iterator_next(pick(b.values)));
            b.iters.push_back(id), b.locals_i.push_back(id);
            break;
        }
        case 9:
            if (!b.iters.empty()) {
                InstId a = pick(b.iters);
                add(b, def(b.id, V::make_get_aggregate_member(a, t.chance(1, 2) ? ir::AggregateMember::IteratorNextValid : ir::AggregateMember::IteratorNextValue)));
            }
            break;
        case 10:
            if (!b.methods.empty()) {
                InstId a = pick(b.methods);
                add(b, def(b.id, V::make_get_aggregate_member(a, t.chance(1, 2) ? ir::AggregateMember::MethodInstance : ir::AggregateMember::MethodFunction)));
            }
            break;
        case 11:
            if (!b.methods.empty()) {
                InstId a = pick(b.methods);
                add(b, def(b.id, V::make_method_call(a, list(b, 3))));
            }
            break;
        case 12: add(b, def(b.id, V::make_make_environment(pick(b.values), 1 + (u32) t.below(4)))); break;
        case 13: add(b, def(b.id, V::make_make_closure(pick(b.values), t.pick(functions)))); break;
        case 14: add(b, def(b.id, V::make_outer_environment())); break;
        case 15: add(b, def(b.id, V::make_make_iterator(pick(b.values)))); break;
        case 16: {
            ir::Record r;
            u32 n = 1 + (u32) t.below(4);
            for (u32 i = 0; i < n; ++i) r.insert(strings.insert(sfmt("k%u", i)), pick(b.values));
            auto id = def(b.id, V::make_record(f.make(std::move(r))));
            records.insert(id.value());
            add(b, id);
            break;
        }
        case 17: add(b, def(b.id, V::make_container((ir::ContainerType) t.below(4), list(b, 4)))); break;
        case 18: add(b, def(b.id, V::make_format(list(b, 4)))); break;
        default:
            if (symbols) {
                InstId v = pick(b.values);
                if (records.count(v.value())) break;
                def(b.id, V::make_publish_assign(SymbolId(1 + (u32) t.below(symbols)), v));
            } else
                constant(b);
        }
    }

    void build() {
        u32 params = 1 + (u32) t.below(3);
        for (u32 i = 0; i < params; ++i) f.make(ir::Param(strings.insert(sfmt("p%u", i))));
        graph();
        std::vector<u32> order;
        for (u32 i = 0; i < bs.size(); ++i) order.push_back(i);
        std::stable_sort(order.begin(), order.end(), [&](u32 a, u32 b) { return bs[a].dom.size() < bs[b].dom.size(); });
        u32 density = 1 + (u32) t.below(8);
        for (u32 i : order) {
            auto& b = bs[i];
            std::vector<u32> doms(b.dom.begin(), b.dom.end());
            std::sort(doms.begin(), doms.end(), [&](u32 x, u32 y) { return bs[x].dom.size() < bs[y].dom.size(); });
            for (u32 d : doms)
                if (d != i) {
                    auto& o = bs[d];
                    b.values.insert(b.values.end(), o.locals_v.begin(), o.locals_v.end());
                    b.methods.insert(b.methods.end(), o.locals_m.begin(), o.locals_m.end());
                    b.iters.insert(b.iters.end(), o.locals_i.begin(), o.locals_i.end());
                }
            if (!b.root && b.pred.size() >= 2) {
                u32 n = (u32) t.below(5);
                for (u32 k = 0; k < n; ++k) {
                    auto id = def(b.id, ir::Phi());
                    b.phis.push_back(id);
                    add(b, id);
                    ++phi_count;
                }
            }
            if (b.root && b.region > 0)
                for (u32 s = 0; s < symbols; ++s)
                    if (t.chance(3, 4)) {
                        add(b, def(b.id, ir::Value::make_observe_assign(SymbolId(1 + s), {})));
                        ++observed;
                    }
            if (b.root)
                for (u32 k = 0, n = 1 + (u32) t.below(4); k < n; ++k) constant(b);
            for (u32 k = 0, n = (u32) t.below(density + 1); k < n; ++k) instruction(b);
            auto exits = [&](ir::Terminator term) {
                f[b.id].terminator(std::move(term));
                f[f.exit()].append_predecessor(b.id);
            };
            if (b.succ.empty()) {
                if (b.region > 0 && t.chance(1, 2)) exits(ir::Terminator::make_rethrow(f.exit()));
                else if (t.chance(1, 5)) {
                    InstId x = pick(b.values), y = pick(b.values);
                    exits(ir::Terminator::make_assert_fail(x, y, f.exit()));
                } else
                    exits(ir::Terminator::make_return(pick(b.values), f.exit()));
            } else if (b.succ.size() == 1)
                f[b.id].terminator(ir::Terminator::make_jump(bs[b.succ[0]].id));
            else {
                InstId v = pick(b.values);
                if (t.chance(1, 2)) add(b, v = def(b.id, ir::Value::make_unary_op(ir::UnaryOpType::LogicalNot, v)));
                f[b.id].terminator(ir::Terminator::make_branch((ir::BranchType) t.below(4), v, bs[b.succ[0]].id, bs[b.succ[1]].id));
            }
        }
        // the operands of the phi functions
        for (auto& b : bs)
            for (auto phi : b.phis) {
                ir::LocalList l;
                for (u32 p : b.pred) {
                    auto& v = bs[p].values;
                    InstId x;
                    for (int k = 0; k < 8 && (!x || records.count(x.value())); ++k) x = pick(v);
                    // swaps and rotations: the other phi functions of the same block
                    if (!b.phis.empty() && t.chance(1, 2)) {
                        InstId other = t.pick(b.phis);
                        if (std::find(v.begin(), v.end(), other) != v.end()) x = other;
                    }
                    if (records.count(x.value())) {
                        for (auto y : v)
                            if (!records.count(y.value())) {
                                x = y; // the first value of a region is a constant
                                break;
                            }
                    }
                    l.append(x);
                }
                f[phi].value(ir::Phi(f.make(std::move(l))));
            }
    }
};

struct Unit {
    tiro::StringTable strings;
    ir::Module mod;
    ir::FunctionId fid;
    std::vector<ir::ModuleMemberId> variables, functions;
    Unit()
        : mod(strings.insert("unit"), strings) {
        for (int i = 0; i < 2; ++i) variables.push_back(mod.make(ir::ModuleMemberData::make_variable(strings.insert(sfmt("v%d", i)))));
        variables.push_back(mod.make(ir::ModuleMemberData::make_import(strings.insert("imported"))));
        for (int i = 0; i < 2; ++i) {
            ir::Function g(strings.insert(sfmt("g%d", i)), i ? ir::FunctionType::Closure : ir::FunctionType::Normal, strings);
            auto v = g.make(ir::Inst(ir::Constant::make_integer(i)));
            g[g.body()].append_inst(v);
            g[g.body()].terminator(ir::Terminator::make_return(v, g.exit()));
            g[g.exit()].append_predecessor(g.body());
            functions.push_back(mod.make(ir::ModuleMemberData::make_function(mod.make(std::move(g)))));
        }
        fid = mod.make(ir::Function(strings.insert("func"), ir::FunctionType::Normal, strings));
        mod.make(ir::ModuleMemberData::make_function(fid));
    }
};

std::string dump(const ir::Function& f) {
    tiro::StringFormatStream s;
    ir::dump_function(f, s);
    return s.take_str();
}

// ---------------------------------------------------------------------------------------------- liveness

void liveness(Case& c) {
    Unit u;
    auto& f = u.mod[u.fid];
    FnGen g{c.t, u.strings, u.mod, f, true, u.variables, u.functions, {}, {}, 0, 0, 0, 0, {}};
    g.build();
    ir::connect_assignment_observers(f);
    ir::eliminate_dead_code(f);
    if (c.t.chance(2, 3)) ir::split_critical_edges(f);
    c.describe(dump(f));
    auto live = reachable(f);
    auto normal = [&](InstId v) {
        auto& val = f[v].value();
        return val.type() == ir::ValueType::GetAggregateMember ? val.as_get_aggregate_member().aggregate : v;
    };
    std::map<u32, std::set<u32>> use, defs, phi_out, in, out;
    std::map<u32, std::map<u32, u32>> last; // block -> value -> the last statement that uses it (terminator: number of instructions)
    std::map<u32, std::pair<u32, u32>> where;
    std::set<u32> used;
    for (u32 b : live) {
        auto& block = f[BlockId(b)];
        u32 k = 0;
        for (auto i : block.insts()) {
            auto& v = f[i].value();
            if (v.type() == ir::ValueType::Phi) {
                for (size_t p = 0; p < block.predecessor_count(); ++p) {
                    u32 x = normal(v.as_phi().operand(f, p)).value();
                    phi_out[block.predecessor(p).value()].insert(x);
                    used.insert(x);
                }
            } else if (v.type() != ir::ValueType::ObserveAssign) {
                ir::visit_inst_operands(f, i, [&](InstId o) {
                    u32 x = normal(o).value();
                    if (!defs[b].count(x)) use[b].insert(x);
                    last[b][x] = k;
                    used.insert(x);
                });
            }
            if (v.type() != ir::ValueType::GetAggregateMember) {
                defs[b].insert(i.value());
                where[i.value()] = {b, k};
            }
            ++k;
        }
        ir::visit_insts(f, block.terminator(), [&](InstId o) {
            u32 x = normal(o).value();
            if (!defs[b].count(x)) use[b].insert(x);
            last[b][x] = k;
            used.insert(x);
        });
    }
    for (bool again = true; again;) {
        again = false;
        for (u32 b : live) {
            std::set<u32> o = phi_out[b];
            for (auto s : targets(f[BlockId(b)].terminator())) o.insert(in[s.value()].begin(), in[s.value()].end());
            std::set<u32> i = use[b];
            for (u32 x : o)
                if (!defs[b].count(x)) i.insert(x);
            if (o != out[b] || i != in[b]) again = true, out[b] = o, in[b] = i;
        }
    }
    ir::Liveness lv(f);
    lv.compute();
    size_t carried = 0, deaths = 0;
    for (u32 b : live) {
        std::multiset<u32> got;
        for (auto x : lv.live_in_values(BlockId(b))) got.insert(x.value());
        std::multiset<u32> want(in[b].begin(), in[b].end());
        carried += want.size();
        if (got != want) {
            std::string m = sfmt("the values live on entry of block %u:", b);
            for (u32 x : got) m += sfmt(" %u", x);
            m += ", expected";
            for (u32 x : want) m += sfmt(" %u", x);
            c.fail(m);
        }
    }
    for (auto& [x, at] : where) {
        auto* r = lv.live_range(InstId(x));
        if (!r) c.fail(sfmt("no live range for %u", x));
        if (r->definition().block.value() != at.first || r->definition().start != at.second) c.fail(sfmt("wrong definition of %u", x));
        if (r->dead() == (used.count(x) > 0)) c.fail(sfmt("%u is %s", x, r->dead() ? "considered dead but used" : "never used but not dead"));
        std::set<u32> blocks;
        for (auto i : r->live_in_intervals())
            if (!blocks.insert(i.block.value()).second) c.fail("two intervals for the same block");
        for (u32 b : live) {
            bool want = in[b].count(x);
            if (r->live_in(BlockId(b)) != want || blocks.count(b) != want) c.fail(sfmt("%u live on entry of %u must be %d", x, b, want));
            if (!want && b != at.first) continue;
            u32 n = (u32) f[BlockId(b)].inst_count();
            for (u32 k = b == at.first ? at.second + 1 : 0; k < n; ++k) {
                bool w = !out[b].count(x) && last[b].count(x) && last[b][x] == k;
                deaths += w;
                if (r->last_use(BlockId(b), k) != w) c.fail(sfmt("statement %u of block %u being the last use of %u must be %d", k, b, x, w));
            }
        }
    }
    c.count("values", where.size());
    c.count("values live on entry of a block", carried);
    c.count("last uses", deaths);
    c.label("functions with phi functions", g.phi_count > 0);
    c.nontrivial = live.size() >= 4 && carried >= 4;
}

// ---------------------------------------------------------------------------------------------- symbolic execution

u64 mix(u64 x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
u64 H(std::initializer_list<u64> l) {
    u64 h = 17;
    for (u64 x : l) h = mix(h ^ x) + 0x1234567;
    return h;
}
u64 H(const std::vector<u64>& l) {
    u64 h = 18;
    for (u64 x : l) h = mix(h ^ x) + 0x1234567;
    return h;
}
u64 S(std::string_view s) {
    u64 h = 99;
    for (char ch : s) h = mix(h ^ (unsigned char) ch);
    return h;
}
const u64 k_null = H({1}), k_true = H({2}), k_false = H({3});
int cls(u64 h) { return h == k_null ? 0 : h == k_false ? 1 : h == k_true ? 2 : h % 5 == 0 ? 0 : h % 2 ? 1 : 2; }

// A value; objects are shared while they are being constructed.
struct Obj {
    bool frozen = false;
    u64 h = 0;
    std::vector<u64> parts;
    std::map<u64, u64> fields;
};
struct V {
    u64 h = 0;
    std::shared_ptr<Obj> o;
    bool set = false; // has been written
};
V val(u64 h) { return {h, nullptr, true}; }

struct Ev {
    std::string name;
    std::vector<u64> in;
    bool operator==(const Ev& e) const { return name == e.name && in == e.in; }
    std::string str() const {
        std::string s = name;
        for (u64 x : in) s += sfmt(" %05llx", (unsigned long long) (x & 0xfffff));
        return s;
    }
};
struct Trace {
    std::vector<Ev> events;
    std::string end;
    bool partial = false;
    size_t caught = 0;
};
struct Thrown {};
struct Stop {};

// What both executions have in common: events, decisions, mutable state outside of registers.
struct Machine {
    u64 seed;
    size_t max_events;
    Trace tr;
    std::map<u64, V> state;
    size_t throw_rate;

    u64 use(const V& v) {
        if (!v.o) return v.h;
        if (!v.o->frozen) {
            v.o->frozen = true;
            std::vector<u64> l{v.o->h};
            for (u64 p : v.o->parts) l.push_back(p);
            for (auto& [k, x] : v.o->fields) l.push_back(k), l.push_back(x);
            v.o->h = H(l);
        }
        return v.o->h;
    }
    V pure(const char* name, std::vector<u64> in) {
        in.push_back(S(name));
        in.push_back(tr.events.size());
        return val(H(in));
    }
    V event(std::string name, std::vector<u64> in) {
        if (tr.events.size() >= max_events) {
            tr.end = "limit";
            throw Stop();
        }
        tr.events.push_back({name, in});
        u64 n = tr.events.size();
        in.push_back(S(name));
        in.push_back(n);
        if (H({seed, n, 77}) % throw_rate == 0) throw Thrown();
        return val(H(in));
    }
    V read(u64 key) {
        auto it = state.find(key);
        return it == state.end() ? val(H({key, 5})) : it->second;
    }
    V load_closure() { return val(H({6})); }
    V new_record(std::vector<u64> keys) {
        V v;
        v.o = std::make_shared<Obj>();
        v.set = true;
        std::sort(keys.begin(), keys.end());
        v.o->h = H({S("record"), tr.events.size()});
        for (u64 k : keys) v.o->fields[k] = k_null;
        return v;
    }
    void store_member(const V& src, const V& object, u64 name) {
        if (object.o && !object.o->frozen && object.o->fields.count(name)) {
            object.o->fields[name] = use(src);
            return;
        }
        event("store_member", {use(src), use(object), name});
    }
    u64 member_key(u64 m) { return H({m, 8}); }
    u64 param_key(u64 i) { return H({i, 9}); }
    u64 env_key(u64 env, u64 level, u64 index) { return H({env, level, index, 10}); }
    bool decide(ir::BranchType type, const V& v) {
        int k = cls(use(v));
        switch (type) {
        case ir::BranchType::IfTrue: return k == 2;
        case ir::BranchType::IfFalse: return k != 2;
        case ir::BranchType::IfNull: return k == 0;
        case ir::BranchType::IfNotNull: return k != 0;
        }
        return false;
    }
};

const char* binary_name(ir::BinaryOpType t) {
    static const char* n[] = {"Add", "Sub", "Mul", "Div", "Mod", "Pow", "LSh", "RSh", "BAnd", "BOr", "BXor", "Lt", "Lte", "Gt", "Gte", "Eq", "NEq"};
    return n[(int) t];
}
const char* unary_name(ir::UnaryOpType t) {
    static const char* n[] = {"UAdd", "UNeg", "BNot", "LNot"};
    return n[(int) t];
}
const char* container_name(ir::ContainerType t) {
    static const char* n[] = {"Array", "Tuple", "Set", "Map"};
    return n[(int) t];
}

// Executes the intermediate representation.
struct IrMachine : Machine {
    const ir::Module& mod;
    const ir::Function& f;
    std::map<u32, V> vals;
    std::map<u32, std::array<V, 2>> aggs;
    std::map<u32, V> symbols;
    size_t unwritten = 0;

    std::string_view str(tiro::InternedString s) { return s ? f.strings().value(s) : std::string_view(); }
    u64 member(ir::ModuleMemberId id) {
        auto& m = mod[id];
        switch (m.type()) {
        case ir::ModuleMemberType::Import: return H({S("import"), S(str(m.data().as_import().name))});
        case ir::ModuleMemberType::Variable: return H({S("variable"), S(str(m.data().as_variable().name))});
        case ir::ModuleMemberType::Function: return H({S("function"), S(str(mod[m.data().as_function().id].name()))});
        }
        return 0;
    }
    V get(InstId i) {
        auto& v = f[i].value();
        if (v.type() == ir::ValueType::GetAggregateMember) {
            auto& g = v.as_get_aggregate_member();
            auto it = aggs.find(g.aggregate.value());
            if (it == aggs.end()) throw pbt::Fail{sfmt("generator: aggregate %u read before definition", g.aggregate.value())};
            bool second = g.member == ir::AggregateMember::MethodFunction || g.member == ir::AggregateMember::IteratorNextValue;
            return it->second[second];
        }
        auto it = vals.find(i.value());
        if (it == vals.end()) throw pbt::Fail{sfmt("generator: value %u read before definition", i.value())};
        return it->second;
    }
    u64 in(InstId i) { return use(get(i)); }
    std::vector<u64> list(ir::LocalListId id, std::vector<u64> first = {}) {
        if (id)
            for (auto i : f[id]) first.push_back(in(i));
        return first;
    }
    V constant(const ir::Constant& k) {
        switch (k.type()) {
        case ir::ConstantType::Integer: return val(H({S("int"), (u64) k.as_integer().value}));
        case ir::ConstantType::Float: {
            double d = k.as_float().value;
            return val(H({S("float"), bc::bits_of(d)}));
        }
        case ir::ConstantType::String: return val(H({S("string"), S(str(k.as_string().value))}));
        case ir::ConstantType::Symbol: return val(H({S("symbol"), S(str(k.as_symbol().value))}));
        case ir::ConstantType::Null: return val(k_null);
        case ir::ConstantType::True: return val(k_true);
        case ir::ConstantType::False: return val(k_false);
        }
        return {};
    }
    V read_lvalue(const ir::LValue& l) {
        switch (l.type()) {
        case ir::LValueType::Param: return read(param_key(l.as_param().target.value()));
        case ir::LValueType::Closure: return read(env_key(in(l.as_closure().env), l.as_closure().levels, l.as_closure().index));
        case ir::LValueType::Module: return read(member_key(member(l.as_module().member)));
        case ir::LValueType::Field: {
            u64 o = in(l.as_field().object);
            return event("load_member", {o, S(str(l.as_field().name))});
        }
        case ir::LValueType::TupleField: return event("load_tuple_member", {in(l.as_tuple_field().object), l.as_tuple_field().index});
        case ir::LValueType::Index: {
            u64 o = in(l.as_index().object), x = in(l.as_index().index);
            return event("load_index", {o, x});
        }
        }
        return {};
    }
    void write_lvalue(const ir::LValue& l, InstId src) {
        V v = get(src);
        switch (l.type()) {
        case ir::LValueType::Param:
            use(v);
            state[param_key(l.as_param().target.value())] = v;
            event("store_param", {use(v), l.as_param().target.value()});
            break;
        case ir::LValueType::Closure: {
            u64 e = in(l.as_closure().env);
            state[env_key(e, l.as_closure().levels, l.as_closure().index)] = v;
            event("store_env", {use(v), e, l.as_closure().levels, l.as_closure().index});
            break;
        }
        case ir::LValueType::Module: {
            u64 m = member(l.as_module().member);
            state[member_key(m)] = v;
            event("store_module", {use(v), m});
            break;
        }
        case ir::LValueType::Field: store_member(v, get(l.as_field().object), S(str(l.as_field().name))); break;
        case ir::LValueType::TupleField: event("store_tuple_member", {use(v), in(l.as_tuple_field().object), l.as_tuple_field().index}); break;
        case ir::LValueType::Index: {
            u64 o = in(l.as_index().object), x = in(l.as_index().index);
            event("store_index", {use(v), o, x});
            break;
        }
        }
    }
    void exec(InstId id) {
        auto& v = f[id].value();
        auto put = [&](V x) { vals[id.value()] = std::move(x); };
        switch (v.type()) {
        case ir::ValueType::Read: put(read_lvalue(v.as_read().target)); break;
        case ir::ValueType::Write: write_lvalue(v.as_write().target, v.as_write().value); break;
        case ir::ValueType::Alias: put(get(v.as_alias().target)); break;
        case ir::ValueType::Phi: break;
        case ir::ValueType::ObserveAssign: {
            auto it = symbols.find(v.as_observe_assign().symbol.value());
            if (it == symbols.end()) ++unwritten;
            put(it == symbols.end() ? val(k_null) : it->second);
            break;
        }
        case ir::ValueType::PublishAssign: symbols[v.as_publish_assign().symbol.value()] = get(v.as_publish_assign().value); break;
        case ir::ValueType::Constant: put(constant(v.as_constant())); break;
        case ir::ValueType::OuterEnvironment: put(load_closure()); break;
        case ir::ValueType::BinaryOp: {
            u64 l = in(v.as_binary_op().left), r = in(v.as_binary_op().right);
            put(event(binary_name(v.as_binary_op().op), {l, r}));
            break;
        }
        case ir::ValueType::UnaryOp: put(event(unary_name(v.as_unary_op().op), {in(v.as_unary_op().operand)})); break;
        case ir::ValueType::Call: {
            u64 fn = in(v.as_call().func);
            put(event("call", list(v.as_call().args, {fn})));
            break;
        }
        case ir::ValueType::Aggregate: {
            auto& a = v.as_aggregate();
            V r = a.type() == ir::AggregateType::Method ? event("load_method", {in(a.as_method().instance), S(str(a.as_method().function))}) : event("iterator_next", {in(a.as_iterator_next().iterator)});
            aggs[id.value()] = {val(H({r.h, 1})), val(H({r.h, 2}))};
            break;
        }
        case ir::ValueType::GetAggregateMember: break;
        case ir::ValueType::MethodCall: {
            auto& a = aggs.at(v.as_method_call().method.value());
            put(event("call_method", list(v.as_method_call().args, {a[1].h, a[0].h})));
            break;
        }
        case ir::ValueType::MakeEnvironment: put(pure("env", {in(v.as_make_environment().parent), v.as_make_environment().size})); break;
        case ir::ValueType::MakeClosure: put(pure("closure", {in(v.as_make_closure().env), member(v.as_make_closure().func)})); break;
        case ir::ValueType::MakeIterator: put(event("iterator", {in(v.as_make_iterator().container)})); break;
        case ir::ValueType::Record: {
            std::vector<u64> keys;
            for (auto& [k, x] : f[v.as_record().value]) keys.push_back(S(str(k)));
            V r = new_record(keys);
            for (auto& [k, x] : f[v.as_record().value]) store_member(get(x), r, S(str(k)));
            put(r);
            break;
        }
        case ir::ValueType::Container: put(pure(container_name(v.as_container().container), list(v.as_container().args))); break;
        case ir::ValueType::Format: put(pure("format", list(v.as_format().args))); break;
        case ir::ValueType::Error: throw pbt::Fail{"an error value in the intermediate representation"};
        case ir::ValueType::Nop: put(val(0)); break;
        }
    }
    void run(size_t max_steps) {
        BlockId cur = f.body(), prev;
        size_t steps = 0;
        try {
            while (1) {
                auto& b = f[cur];
                BlockId next;
                try {
                    // phi functions read their operands at the same time
                    std::vector<std::pair<u32, V>> phis;
                    for (auto i : b.insts()) {
                        if (f[i].value().type() != ir::ValueType::Phi) break;
                        size_t at = 0;
                        for (size_t p = 0; p < b.predecessor_count(); ++p)
                            if (b.predecessor(p) == prev) at = p;
                        phis.push_back({i.value(), get(f[i].value().as_phi().operand(f, at))});
                    }
                    for (auto& [i, v] : phis) vals[i] = v;
                    for (auto i : b.insts()) exec(i);
                    steps += 1 + b.inst_count();
                    if (steps > max_steps) {
                        tr.partial = true;
                        return;
                    }
                    auto& term = b.terminator();
                    switch (term.type()) {
                    case ir::TerminatorType::Jump: next = term.as_jump().target; break;
                    case ir::TerminatorType::Branch: next = decide(term.as_branch().type, get(term.as_branch().value)) ? term.as_branch().target : term.as_branch().fallthrough; break;
                    case ir::TerminatorType::Return: tr.end = sfmt("return %llx", (unsigned long long) in(term.as_return().value)); return;
                    case ir::TerminatorType::Rethrow: event("rethrow", {}); throw Thrown();
                    case ir::TerminatorType::AssertFail: {
                        u64 x = in(term.as_assert_fail().expr), y = in(term.as_assert_fail().message);
                        event("assert_fail", {x, y});
                        throw Thrown();
                    }
                    default: throw pbt::Fail{"generator: unexpected terminator"};
                    }
                } catch (Thrown&) {
                    next = b.handler();
                    if (!next) {
                        tr.end = "unwound";
                        return;
                    }
                    ++tr.caught;
                }
                prev = cur;
                cur = next;
            }
        } catch (Stop&) {
        }
    }
};

// Executes the bytecode.
struct Code {
    std::vector<bc::Ins> ins;
    std::vector<u32> pos;
    std::map<u32, u32> at;
};
Code decode(const tiro::BytecodeFunction& f) {
    Code k;
    tiro::BytecodeReader r(f.code());
    while (r.remaining() > 0) {
        k.at[(u32) r.pos()] = (u32) k.ins.size();
        k.pos.push_back((u32) r.pos());
        auto x = r.read();
        if (std::get_if<tiro::BytecodeReaderError>(&x)) throw pbt::Fail{"the bytecode cannot be decoded"};
        k.ins.push_back(bc::decode(std::get<tiro::BytecodeInstr>(x)));
    }
    return k;
}
struct BcMachine : Machine {
    const tiro::BytecodeModule& mod;
    const tiro::BytecodeFunction& f;
    const Code& code;
    std::vector<V> regs, stack;
    std::map<u32, size_t> bad; // instructions that read registers that were not written
    std::string where_bad;
    u32 pc = 0;

    std::string_view str(u64 id) {
        auto& m = mod[tiro::BytecodeMemberId((u32) id)];
        if (m.type() == tiro::BytecodeMemberType::Symbol) return str(m.as_symbol().name.value());
        if (m.type() != tiro::BytecodeMemberType::String) throw pbt::Fail{"a name is not a string"};
        return mod.strings().value(m.as_string().value);
    }
    u64 sym(u64 id) {
        if (mod[tiro::BytecodeMemberId((u32) id)].type() != tiro::BytecodeMemberType::Symbol) throw pbt::Fail{"a key is not a symbol"};
        return S(str(id));
    }
    bool constant(u64 id) {
        auto t = mod[tiro::BytecodeMemberId((u32) id)].type();
        return t == tiro::BytecodeMemberType::String || t == tiro::BytecodeMemberType::Symbol;
    }
    u64 member(u64 id) {
        using T = tiro::BytecodeMemberType;
        auto& m = mod[tiro::BytecodeMemberId((u32) id)];
        switch (m.type()) {
        case T::String: return H({S("string"), S(str(id))});
        case T::Symbol: return H({S("symbol"), S(str(id))});
        case T::Import: return H({S("import"), S(str(m.as_import().module_name.value()))});
        case T::Variable: return H({S("variable"), S(str(m.as_variable().name.value()))});
        case T::Function: {
            auto n = mod[m.as_function().id].name();
            return H({S("function"), S(n ? str(n.value()) : std::string_view())});
        }
        default: throw pbt::Fail{"unexpected member"};
        }
    }
    V get(u64 r) {
        if (r >= regs.size()) throw pbt::Fail{sfmt("register %llu of %zu", (unsigned long long) r, regs.size())};
        if (!regs[r].set) {
            if (!bad[pc]++) where_bad += sfmt(" %s at instruction %u reads register %llu;", bc::info((uint8_t) code.ins[pc].op)->name, pc, (unsigned long long) r);
            return val(k_null);
        }
        return regs[r];
    }
    u64 in(u64 r) { return use(get(r)); }
    void set(u64 r, V v) {
        if (r >= regs.size()) throw pbt::Fail{sfmt("register %llu of %zu", (unsigned long long) r, regs.size())};
        v.set = true;
        regs[r] = std::move(v);
    }
    std::vector<u64> pop_args(u64 n, std::vector<u64> first = {}) {
        if (stack.size() < n) throw pbt::Fail{"the value stack is too small"};
        for (size_t i = stack.size() - n; i < stack.size(); ++i) first.push_back(use(stack[i]));
        stack.resize(stack.size() - n);
        return first;
    }
    // returns false at the end
    bool step() {
        using Op = bc::Op;
        if (pc >= code.ins.size()) throw pbt::Fail{"execution leaves the code"};
        auto& i = code.ins[pc];
        auto& v = i.v;
        u32 next = pc + 1;
        auto jump = [&](u64 off) {
            auto it = code.at.find((u32) off);
            if (it == code.at.end()) throw pbt::Fail{"a jump into nowhere"};
            next = it->second;
        };
        auto args = [&](u64 n) { return pop_args(n); };
        switch (i.op) {
        case Op::LoadNull: set(v[0], val(k_null)); break;
        case Op::LoadFalse: set(v[0], val(k_false)); break;
        case Op::LoadTrue: set(v[0], val(k_true)); break;
        case Op::LoadInt: set(v[1], val(H({S("int"), v[0]}))); break;
        case Op::LoadFloat: set(v[1], val(H({S("float"), v[0]}))); break;
        case Op::LoadParam: set(v[1], read(param_key(v[0]))); break;
        case Op::StoreParam: {
            V x = get(v[0]);
            use(x);
            state[param_key(v[1])] = x;
            event("store_param", {use(x), v[1]});
            break;
        }
        case Op::LoadModule: set(v[1], constant(v[0]) ? val(member(v[0])) : read(member_key(member(v[0])))); break;
        case Op::StoreModule: {
            V x = get(v[0]);
            u64 m = member(v[1]);
            state[member_key(m)] = x;
            event("store_module", {use(x), m});
            break;
        }
        case Op::LoadMember: set(v[2], event("load_member", {in(v[0]), sym(v[1])})); break;
        case Op::StoreMember: store_member(get(v[0]), get(v[1]), sym(v[2])); break;
        case Op::LoadTupleMember: set(v[2], event("load_tuple_member", {in(v[0]), v[1]})); break;
        case Op::StoreTupleMember: event("store_tuple_member", {in(v[0]), in(v[1]), v[2]}); break;
        case Op::LoadIndex: set(v[2], event("load_index", {in(v[0]), in(v[1])})); break;
        case Op::StoreIndex: event("store_index", {in(v[0]), in(v[1]), in(v[2])}); break;
        case Op::LoadClosure: set(v[0], load_closure()); break;
        case Op::LoadEnv: set(v[3], read(env_key(in(v[0]), v[1], v[2]))); break;
        case Op::StoreEnv: {
            V x = get(v[0]);
            u64 e = in(v[1]);
            state[env_key(e, v[2], v[3])] = x;
            event("store_env", {use(x), e, v[2], v[3]});
            break;
        }
        case Op::Add: case Op::Sub: case Op::Mul: case Op::Div: case Op::Mod: case Op::Pow: case Op::LSh: case Op::RSh: case Op::BAnd: case Op::BOr: case Op::BXor: case Op::Gt: case Op::Gte: case Op::Lt: case Op::Lte: case Op::Eq: case Op::NEq: set(v[2], event(bc::info((uint8_t) i.op)->name, {in(v[0]), in(v[1])})); break;
        case Op::UAdd: case Op::UNeg: case Op::BNot: case Op::LNot: set(v[1], event(bc::info((uint8_t) i.op)->name, {in(v[0])})); break;
        case Op::Array: case Op::Tuple: case Op::Set: case Op::Map: set(v[1], pure(bc::info((uint8_t) i.op)->name, args(v[0]))); break;
        case Op::Env: set(v[2], pure("env", {in(v[0]), v[1]})); break;
        case Op::Closure: set(v[2], pure("closure", {in(v[1]), member(v[0])})); break;
        case Op::Record: {
            auto& m = mod[tiro::BytecodeMemberId((u32) v[0])];
            if (m.type() != tiro::BytecodeMemberType::RecordSchema) throw pbt::Fail{"not a record schema"};
            std::vector<u64> keys;
            for (auto k : mod[m.as_record_schema().id].keys()) keys.push_back(sym(k.value()));
            set(v[1], new_record(keys));
            break;
        }
        case Op::Iterator: set(v[1], event("iterator", {in(v[0])})); break;
        case Op::IteratorNext: {
            V r = event("iterator_next", {in(v[0])});
            if (v[1] == v[2]) throw pbt::Fail{"both results of iterator_next share a register"};
            set(v[1], val(H({r.h, 1})));
            set(v[2], val(H({r.h, 2})));
            break;
        }
        case Op::Formatter: {
            V x;
            x.o = std::make_shared<Obj>();
            x.o->h = S("formatter");
            set(v[0], x);
            break;
        }
        case Op::AppendFormat: {
            V x = get(v[1]);
            u64 a = in(v[0]);
            if (!x.o || x.o->frozen) throw pbt::Fail{"append_format on something that is not a formatter"};
            x.o->parts.push_back(a);
            break;
        }
        case Op::FormatResult: {
            V x = get(v[0]);
            if (!x.o || x.o->frozen) throw pbt::Fail{"format_result on something that is not a formatter"};
            auto parts = x.o->parts;
            set(v[1], pure("format", parts));
            break;
        }
        case Op::Copy: set(v[1], get(v[0])); break;
        case Op::Swap: {
            V a = get(v[0]), b = get(v[1]);
            set(v[0], b);
            set(v[1], a);
            break;
        }
        case Op::Push: stack.push_back(get(v[0])); break;
        case Op::Pop:
            if (stack.empty()) throw pbt::Fail{"pop from an empty stack"};
            stack.pop_back();
            break;
        case Op::PopTo: {
            if (stack.empty()) throw pbt::Fail{"pop from an empty stack"};
            V x = stack.back();
            stack.pop_back();
            set(v[0], x);
            break;
        }
        case Op::Jmp: jump(v[0]); break;
        case Op::JmpTrue:
            if (decide(ir::BranchType::IfTrue, get(v[0]))) jump(v[1]);
            break;
        case Op::JmpFalse:
            if (decide(ir::BranchType::IfFalse, get(v[0]))) jump(v[1]);
            break;
        case Op::JmpNull:
            if (decide(ir::BranchType::IfNull, get(v[0]))) jump(v[1]);
            break;
        case Op::JmpNotNull:
            if (decide(ir::BranchType::IfNotNull, get(v[0]))) jump(v[1]);
            break;
        case Op::Call: {
            auto a = pop_args(v[1], {in(v[0])});
            stack.push_back(event("call", a));
            break;
        }
        case Op::LoadMethod: {
            V r = event("load_method", {in(v[0]), sym(v[1])});
            if (v[2] == v[3]) throw pbt::Fail{"both results of load_method share a register"};
            set(v[2], val(H({r.h, 1})));
            set(v[3], val(H({r.h, 2})));
            break;
        }
        case Op::CallMethod: {
            u64 m = in(v[0]);
            auto a = pop_args(v[1]);
            auto self = pop_args(1, {m});
            self.insert(self.end(), a.begin(), a.end());
            stack.push_back(event("call_method", self));
            break;
        }
        case Op::Return: tr.end = sfmt("return %llx", (unsigned long long) in(v[0])); return false;
        case Op::Rethrow: event("rethrow", {}); throw Thrown();
        case Op::AssertFail: {
            u64 x = in(v[0]), y = in(v[1]);
            event("assert_fail", {x, y});
            throw Thrown();
        }
        }
        pc = next;
        return true;
    }
    void run(size_t max_steps) {
        regs.assign(f.locals(), V{});
        size_t steps = 0;
        try {
            while (1) {
                if (++steps > max_steps) {
                    tr.partial = true;
                    return;
                }
                try {
                    if (!step()) return;
                } catch (Thrown&) {
                    u32 off = code.pos[pc];
                    stack.clear();
                    bool found = false;
                    for (auto& h : f.handlers())
                        if (off >= h.from.value() && off < h.to.value()) {
                            auto it = code.at.find(h.target.value());
                            if (it == code.at.end()) throw pbt::Fail{"a handler in nowhere"};
                            pc = it->second;
                            found = true;
                            break;
                        }
                    if (!found) {
                        tr.end = "unwound";
                        return;
                    }
                    ++tr.caught;
                }
            }
        } catch (Stop&) {
        }
    }
};

// "" or the difference
std::string compare(const Trace& want, const Trace& got) {
    for (size_t i = 0;; ++i) {
        bool a = i < want.events.size(), b = i < got.events.size();
        if (!a && !b) break;
        if (!a && want.partial) return "";
        if (!b && got.partial) return "";
        if (a && b && want.events[i] == got.events[i]) continue;
        return sfmt("effect %zu is ", i) + (b ? got.events[i].str() : "the end (" + got.end + ")") + ", expected " + (a ? want.events[i].str() : "the end (" + want.end + ")");
    }
    if (want.partial || got.partial) return "";
    if (want.end != got.end) return "the end is " + got.end + ", expected " + want.end;
    return "";
}

constexpr size_t ir_steps = 3000, bc_steps = 60000;
struct Run {
    u64 seed;
    size_t events, throws;
};
Trace run_ir(const ir::Module& m, const ir::Function& f, Run r, size_t* unwritten = nullptr) {
    IrMachine a{{r.seed, r.events, {}, {}, r.throws}, m, f, {}, {}, {}, 0};
    a.run(ir_steps);
    if (unwritten) *unwritten += a.unwritten;
    return a.tr;
}
Trace run_bc(const tiro::BytecodeModule& m, const tiro::BytecodeFunction& f, const Code& code, Run r, std::string* unwritten) {
    BcMachine b{{r.seed, r.events, {}, {}, r.throws}, m, f, code, {}, {}, {}, {}, 0};
    b.run(bc_steps);
    if (unwritten && unwritten->empty()) *unwritten = b.where_bad;
    return b.tr;
}
std::string listing(const Code& k, const tiro::BytecodeFunction& f) {
    std::string s = sfmt("bytecode, %u registers\n", f.locals());
    for (size_t i = 0; i < k.ins.size(); ++i) {
        auto* info = bc::info((uint8_t) k.ins[i].op);
        s += sfmt("  %zu @%u %s", i, k.pos[i], info->name);
        for (size_t j = 0; j < k.ins[i].v.size(); ++j) s += sfmt(" %s%lld", info->kinds[j] == bc::Reg ? "r" : info->kinds[j] == bc::Offset ? "@" : info->kinds[j] == bc::Member ? "m" : "", (long long) k.ins[i].v[j]);
        s += "\n";
    }
    for (auto& h : f.handlers()) s += sfmt("  handler [%u, %u) -> %u\n", h.from.value(), h.to.value(), h.target.value());
    return s;
}

void functions(Case& c) {
    Unit u;
    auto& f = u.mod[u.fid];
    FnGen g{c.t, u.strings, u.mod, f, true, u.variables, u.functions, {}, {}, 0, 0, 0, 0, {}};
    g.build();
    c.describe(dump(f));
    std::vector<Run> runs;
    for (int i = 0; i < 6; ++i) runs.push_back({c.t.raw(), 40, g.roots.size() > 1 ? (size_t) 6 : (size_t) 40});
    size_t unwritten = 0;
    std::vector<Trace> want;
    for (auto& r : runs) want.push_back(run_ir(u.mod, f, r, &unwritten));
    auto stage = [&](const char* name) {
        for (size_t i = 0; i < runs.size(); ++i) {
            std::string d = compare(want[i], run_ir(u.mod, f, runs[i]));
            if (!d.empty()) c.add(sfmt("after %s\n", name) + dump(f)), c.fail(sfmt("after %s: ", name) + d);
        }
    };
    size_t before = 0, after = 0;
    for (u32 b : reachable(f)) before += f[BlockId(b)].inst_count();
    // observers are linked before dead assignments are removed
    ir::connect_assignment_observers(f);
    stage("connecting observers");
    ir::eliminate_dead_code(f);
    stage("eliminating dead code");
    for (u32 b : reachable(f)) after += f[BlockId(b)].inst_count();
    bool cssa = c.t.chance(1, 4);
    if (cssa || c.t.chance(1, 4)) ir::split_critical_edges(f);
    if (cssa) {
        ir::construct_cssa(f);
        stage("constructing cssa");
    }
    tiro::BytecodeModule m = tiro::compile_module(u.mod);
    const tiro::BytecodeFunction* bf = nullptr;
    for (auto id : m.function_ids()) {
        auto n = m[id].name();
        if (n && m.strings().value(m[n].as_string().value) == "func") bf = &m[id];
    }
    if (!bf) c.fail("the function is missing in the module");
    Code code = decode(*bf);
    c.add(listing(code, *bf));
    if (bf->params() != f.param_count()) c.fail("wrong number of parameters");
    std::string bad;
    for (size_t i = 0; i < runs.size(); ++i) {
        std::string b;
        Trace got;
        try {
            got = run_bc(m, *bf, code, runs[i], &b);
        } catch (pbt::Fail& e) {
            c.fail("run " + std::to_string(i) + ": " + e.msg);
        }
        std::string d = compare(want[i], got);
        if (!d.empty()) {
            std::string h;
            for (auto& e : want[i].events) h += "  " + e.str() + "\n";
            c.add("expected effects:\n" + h);
            h.clear();
            for (auto& e : got.events) h += "  " + e.str() + "\n";
            c.add("effects:\n" + h);
            c.fail(sfmt("run %zu: ", i) + d);
        }
        if (!b.empty() && !unwritten) c.fail("a register is read before it is written:" + b);
    }
    size_t events = 0, caught = 0, partial = 0;
    for (auto& w : want) events += w.events.size(), caught += w.caught, partial += w.partial;
    c.count("effects", events);
    c.count("exceptions caught", caught);
    c.count("runs cut off without effects", partial);
    c.label("functions with phi functions", g.phi_count > 0);
    c.label("functions with exception handlers", g.roots.size() > 1);
    c.label("functions where dead code was removed", after < before);
    c.label("functions in conventional form", cssa);
    c.label("functions with ten registers or more", bf->locals() >= 10);
    c.nontrivial = g.bs.size() >= 3 && events >= 10;
}

// ---------------------------------------------------------------------------------------------- programs

void programs(Case& c) {
    lang::Program p;
    lang::Cfg cfg;
    cfg.budget = (int) c.t.pick({80, 200, 300});
    cfg.defer = (int) c.t.below(3);
    cfg.panic = (int) c.t.below(3);
    lang::Gen g(c.t, p, cfg);
    g.program();
    std::string src = lang::Printer().program(p);
    c.describe(src);

    // as Compiler::run does
    tiro::StringTable strings;
    tiro::SourceDb sources;
    tiro::Diagnostics diag;
    auto file = sources.insert_new("main", src);
    std::string_view text = sources.content(file);
    tiro::Lexer lexer(text);
    lexer.ignore_comments(true);
    std::vector<tiro::Token> tokens;
    do tokens.push_back(lexer.next());
    while (tokens.back().type() != tiro::TokenType::Eof);
    tiro::Parser parser(text, tokens);
    tiro::parse_file(parser);
    std::vector<tiro::SyntaxTreeEntry> files;
    files.emplace_back(file, tiro::build_syntax_tree(text, parser.take_events()));
    auto ast = tiro::build_module_ast(files, strings, diag);
    if (diag.has_errors()) c.fail("a valid program is rejected");
    tiro::SemanticAst sem = tiro::analyze_ast(TIRO_NN(tiro::try_cast<tiro::AstModule>(ast.get())), strings, diag);
    if (diag.has_errors()) c.fail("a valid program is rejected");
    ir::Module mod(strings.insert("main"), strings);
    ir::ModuleContext ctx{sources, sem, diag};
    ir::ModuleIRGen(ctx, mod).compile_module();
    if (diag.has_errors()) c.fail("a valid program is rejected");

    std::vector<Run> runs;
    for (int i = 0; i < 4; ++i) runs.push_back({c.t.raw(), 60, i % 2 ? (size_t) 15 : (size_t) 100});
    struct F {
        std::string name;
        size_t params;
        bool closure;
        std::vector<Trace> traces;
        std::string text;
        size_t phis = 0;
    };
    std::vector<F> want;
    size_t events = 0, caught = 0, unwritten = 0, phis = 0, handlers = 0;
    for (auto id : mod.function_ids()) {
        auto& f = mod[id];
        F w;
        w.name = f.name() ? strings.value(f.name()) : std::string_view();
        w.params = f.param_count();
        w.closure = f.type() == ir::FunctionType::Closure;
        w.text = dump(f);
        handlers += f[f.entry()].terminator().as_entry().handlers.size();
        for (u32 b : reachable(f)) w.phis += f[BlockId(b)].phi_count(f);
        phis += w.phis;
        size_t un = 0;
        for (auto& r : runs) w.traces.push_back(run_ir(mod, f, r, &un));
        if (un) ++unwritten;
        for (auto& t : w.traces) events += t.events.size(), caught += t.caught;
        want.push_back(std::move(w));
    }
    tiro::BytecodeModule m = tiro::compile_module(mod);
    std::vector<bool> taken(want.size(), false);
    size_t count = 0;
    for (auto id : m.function_ids()) {
        auto& bf = m[id];
        ++count;
        Code code = decode(bf);
        std::string name, bad;
        if (bf.name()) name = m.strings().value(m[bf.name()].as_string().value);
        std::vector<Trace> got;
        try {
            for (auto& r : runs) got.push_back(run_bc(m, bf, code, r, &bad));
        } catch (pbt::Fail& e) {
            c.add("function '" + name + "'\n" + listing(code, bf));
            c.fail(e.msg);
        }
        if (!bad.empty()) {
            c.add("function '" + name + "'\n" + listing(code, bf));
            c.fail("a register is read before it is written:" + bad);
        }
        // functions without a name (or with equal names) are matched by what they do
        bool found = false;
        std::string why, text;
        for (size_t i = 0; i < want.size() && !found; ++i) {
            auto& w = want[i];
            if (taken[i] || w.name != name || w.params != bf.params() || w.closure != (bf.type() == tiro::BytecodeFunctionType::Closure)) continue;
            std::string d;
            for (size_t k = 0; k < runs.size() && d.empty(); ++k) d = compare(w.traces[k], got[k]);
            if (d.empty()) taken[i] = found = true;
            else why += (why.empty() ? "" : " / ") + d, text += w.text;
        }
        if (!found) {
            c.add("function '" + name + "'\n" + text + listing(code, bf));
            c.fail("the bytecode of function '" + name + "' does not do what its intermediate representation says: " + (why.empty() ? "no such function" : why));
        }
    }
    if (count != want.size()) c.fail("the number of functions differs");
    c.count("functions", count);
    c.count("effects", events);
    c.count("exceptions caught", caught);
    c.count("phi functions", phis);
    c.count("handlers", handlers);
    c.count("functions that observe unassigned variables", unwritten);
    c.nontrivial = phis >= 1 && events >= 20;
}

} // namespace

int main(int argc, char** argv) {
    pbt::Runner r("C21", "copies: at least three moves; dominators: at least five reachable blocks and nested dominance; liveness: at least four blocks and four values live across blocks; functions: at least three blocks and ten effects; programs: a phi function and twenty effects", {
        {"copies", 40000, 2000000, copies},
        {"dominators", 12000, 600000, dominators},
        {"liveness", 8000, 400000, liveness},
        {"functions", 10000, 500000, functions},
        {"programs", 2500, 120000, programs},
    }, {}, {"symbolic execution follows six (four) random paths per function, each up to 40 (60) effects"});
    return r.main(argc, argv);
}
