// debugging aid: compile and run FILE's main(), print the trace
#include "tiro_util.hpp"
#include <fstream>
#include <iostream>
#include <sstream>
using namespace tu;
int main(int argc, char** argv) {
    std::ifstream f(argv[1]); std::stringstream ss; ss << f.rdbuf();
    int at = argc > 2 ? atoi(argv[2]) : 0;
    auto c = compile("main", ss.str(), at);
    std::cout << c.ast << c.ir << c.bytecode;
    if (!c.ok()) { std::cout << "compile: " << c.errors() << "\n"; return 1; }
    try {
        Vm vm; vm.load_env(); vm.load(c);
        auto r = vm.call("main", "main");
        for (auto& l : vm.log) std::cout << l << "\n";
        std::cout << vm.out;
        if (r.kind == CallResult::success) std::cout << "=> " << vm.show(r.value) << "\n";
        else std::cout << "kind " << r.kind << " " << r.message << "\n";
    } catch (Fail& x) { std::cout << "FAIL " << x.msg << "\n"; return 1; }
}
