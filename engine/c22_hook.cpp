// Failure injection for c22_cpp.cpp. A file of its own: the namespace tiro::vm of the implementation
// and the class tiro::vm of the C++ interface cannot meet in one translation unit.
#include "api/internal.hpp"

unsigned long long verif_fail_countdown = 0;

static tiro::vm::VerifAllocAction hook(tiro::vm::Heap&, size_t) {
    if (verif_fail_countdown && --verif_fail_countdown == 0) return tiro::vm::VerifAllocAction::Fail;
    return tiro::vm::VerifAllocAction::Default;
}

void verif_install_hook() {
    tiro::vm::verif_alloc_hook = &hook;
}

// number of handles in use
unsigned long long verif_used_handles(tiro_vm* vm) {
    return vm->ctx.externals().used_slots();
}
