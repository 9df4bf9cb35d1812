// C08: the model based checks of containers and strings, with forced collections.
#define PBT_NO_MAIN
#include "gc_plan.hpp"

#include <optional>
#include <unordered_map>

namespace c05 {
#include "c05_maps.cpp"
}
namespace c06 {
#include "c06_sequences.cpp"
}
namespace c07 {
#include "c07_strings.cpp"
}

static void maps(pbt::Case& c) { c05::map_history(c, 20, 60); }
void gc_maps(pbt::Case& c) { gc::forced<maps>(c); }
void gc_sequences(pbt::Case& c) { gc::forced<c06::history>(c); }
void gc_strings(pbt::Case& c) { gc::forced<c07::history>(c); }
