// Runs a generated program on the real compiler and virtual machine and records the same observations as the
// reference interpreter.
#ifndef VERIF_LANG_RUN_HPP
#define VERIF_LANG_RUN_HPP

#include "lang_gen.hpp"
#include "tiro_util.hpp"

namespace lang {

struct Observed {
    std::vector<std::string> log;
    std::string result;
    bool operator==(const Observed& o) const { return log == o.log && result == o.result; }
    std::string str() const {
        std::string r;
        for (auto& l : log) r += l + "\n";
        return r + "=> " + result;
    }
};

inline void install_hooks(tu::Vm& vm) {
    vm.hook = [](tu::Vm& self, tiro_vm_t v, tiro_sync_frame_t f) {
        tu::Err e;
        tu::H x(v), m(v);
        tiro_sync_frame_arg(f, 0, x, e);
        tiro_exception_message(v, x, m, e);
        std::string s = e.ok() ? self.text(m) : "not an exception";
        self.log.push_back("caught " + Interp::shown(PanicEx{s}));
    };
}

// runs main() of an already loaded module
inline std::string run_main(tu::Vm& vm, const char* module = "main") {
    auto r = vm.call(module, "main");
    switch (r.kind) {
    case tu::CallResult::success: {
        auto t = vm.call(module, "verif_repr", {r.value});
        if (!t.ok()) return "debug_repr failed: " + t.message;
        return "value " + vm.text(t.value);
    }
    case tu::CallResult::panic: return "panic " + Interp::shown(PanicEx{r.message});
    case tu::CallResult::not_completed: return "not completed";
    default: return "error " + r.message;
    }
}

inline void normalise(Observed& o) {
    for (auto& l : o.log)
        for (size_t p; (p = l.find("-nan")) != std::string::npos;) l.erase(p, 1);
    for (size_t p; (p = o.result.find("-nan")) != std::string::npos;) o.result.erase(p, 1);
}

inline Observed observe(tu::Vm& vm, const tu::Compiled& c) {
    Observed o;
    install_hooks(vm);
    tu::Err e;
    tiro_vm_load_bytecode(vm, c.module, e);
    tu::H fn(vm);
    // modules are initialised on first use
    if (e.ok()) tiro_vm_get_export(vm, tu::ts("main"), tu::ts("main"), fn, e);
    if (!e.ok()) {
        o.result = "load: " + e.text();
        o.log = vm.log;
        normalise(o);
        return o;
    }
    o.result = run_main(vm);
    o.log = vm.log;
    normalise(o);
    return o;
}

inline Observed reference(Program& p, std::map<std::string, u64>* stats = nullptr, u64 fuel = 60000) {
    Interp in;
    in.fuel = fuel;
    Observed o;
    o.result = in.run(p);
    o.log = in.log;
    if (stats)
        for (auto& [k, v] : in.stats) (*stats)[k] += v;
    normalise(o);
    return o;
}

// first difference of two observations, empty if none
inline std::string difference(const Observed& got, const Observed& want) {
    for (size_t i = 0; i < std::max(got.log.size(), want.log.size()); ++i) {
        std::string a = i < got.log.size() ? got.log[i] : "<end>", b = i < want.log.size() ? want.log[i] : "<end>";
        if (a != b) return pbt::sfmt("effect %zu: ", i) + a + ", expected " + b + (i >= got.log.size() ? " (result " + got.result + ")" : "");
    }
    if (want.result.rfind("init panic", 0) == 0) return got.result.rfind("load:", 0) == 0 ? "" : "module initialisation should have panicked";
    if (got.result != want.result) return "result: " + got.result + ", expected " + want.result;
    return "";
}

} // namespace lang
#endif
