// C08: the check of coroutines, with forced collections.
// std: gnu++20
#define PBT_NO_MAIN
#include "gc_plan.hpp"

#include <coroutine>
#include <deque>
#include <exception>

namespace c09 {
#include "c09_coroutines.cpp"
}

void gc_coroutines(pbt::Case& c) { gc::forced<c09::histories>(c); }
