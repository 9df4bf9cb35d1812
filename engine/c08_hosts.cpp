// C08: the checks of native functions, modules and API values, with forced collections.
#define PBT_NO_MAIN
#include "gc_plan.hpp"

#include <climits>
#include <cmath>
#include <deque>
#include <exception>
#include <optional>
#include <set>
#include <unordered_map>

namespace c14 {
#include "c14_capi.cpp"
}
namespace c15 {
#include "c15_native.cpp"
}
namespace c16 {
#include "c16_modules.cpp"
}

void gc_native(pbt::Case& c) { gc::forced<c15::calls>(c); }
void gc_tokens(pbt::Case& c) { gc::forced<c15::kept_tokens>(c); }
void gc_modules(pbt::Case& c) { gc::forced<c16::graphs>(c); }
void gc_values(pbt::Case& c) { gc::forced<c14::s_values>(c); }
void gc_frames(pbt::Case& c) { gc::forced<c14::frames>(c); }
