// Collections forced at generated allocation points (hook in Heap::allocate).
#pragma once
#include "pbt.hpp"
#include "tiro_util.hpp"
#include "vm/heap/heap.hpp"

namespace gc {
using namespace tu;
using pbt::Case;
using pbt::Tape;
using tiro::vm::VerifAllocAction;

// When to collect.
struct Plan {
    enum Mode { off, periodic, window, chance } mode = off;
    u64 every = 1, phase = 0, from = 0, len = 0, rng = 1, cap = 400;
    bool force_next = false;
    // counters
    u64 allocs = 0, collections = 0, bytes = 0;
    size_t max_total = 0, live_bytes = 0, live_objects = 0;
    bool measure = false;
};
inline Plan plan;

inline VerifAllocAction decide(tiro::vm::Heap& heap, size_t bytes) {
    Plan& p = plan;
    u64 n = p.allocs++;
    p.bytes += bytes;
    p.max_total = std::max(p.max_total, heap.stats().total_bytes);
    if (p.measure) { // directly after a collection
        p.measure = false;
        p.live_bytes = heap.stats().allocated_bytes;
        p.live_objects = heap.stats().allocated_objects;
        return VerifAllocAction::Default;
    }
    if (p.force_next) {
        p.force_next = false;
        ++p.collections;
        return VerifAllocAction::Collect;
    }
    if (p.collections >= p.cap) return VerifAllocAction::Default;
    bool yes = false;
    switch (p.mode) {
    case Plan::off: break;
    case Plan::periodic: yes = n % p.every == p.phase % p.every; break;
    case Plan::window: yes = n >= p.from && n < p.from + p.len; break;
    case Plan::chance:
        p.rng ^= p.rng << 13;
        p.rng ^= p.rng >> 7;
        p.rng ^= p.rng << 17;
        yes = p.rng % p.every == 0;
        break;
    }
    if (!yes) return VerifAllocAction::Default;
    ++p.collections;
    return VerifAllocAction::Collect;
}

struct Guard { // installs the hook for the duration of a case
    explicit Guard(const Plan& p) {
        plan = p;
        tiro::vm::verif_alloc_hook = decide;
    }
    ~Guard() { tiro::vm::verif_alloc_hook = nullptr; }
};

inline Plan pick_plan(Tape& t, u64 cap, u64 expected) {
    Plan p;
    p.cap = cap;
    switch (t.below(4)) {
    case 0:
        p.mode = Plan::periodic;
        p.every = 1 + t.below(3);
        p.phase = t.below(3);
        break;
    case 1:
        p.mode = Plan::periodic;
        p.every = 2 + t.below(std::max<u64>(2, expected / 40));
        p.phase = t.below(p.every);
        break;
    case 2:
        p.mode = Plan::window;
        p.from = t.below(expected);
        p.len = 1 + t.below(cap);
        break;
    default:
        p.mode = Plan::chance;
        p.every = 2 + t.below(std::max<u64>(2, expected / 60));
        p.rng = 88172645463325252ull ^ (t.below(1u << 30) + 1) * 2654435761u;
    }
    return p;
}
inline std::string describe(const Plan& p) {
    static const char* names[] = {"off", "periodic", "window", "chance"};
    return sfmt("collections: %s every=%llu phase=%llu from=%llu len=%llu cap=%llu", names[p.mode], (unsigned long long) p.every,
        (unsigned long long) p.phase, (unsigned long long) p.from, (unsigned long long) p.len, (unsigned long long) p.cap);
}

// runs a case of another engine
template<void (*F)(Case&)>
void forced(Case& c) {
    Plan p = pick_plan(c.t, 60, 200);
    c.label(p.mode == Plan::periodic ? "periodic" : p.mode == Plan::window ? "window" : "chance");
    Guard g(p);
    F(c);
    c.count("forced collections", plan.collections);
}

} // namespace gc
