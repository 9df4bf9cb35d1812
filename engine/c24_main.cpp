// The runner of /repo under another name, so that the engine can call it.
// flags: -frtti
#define OptionException exceptions::exception // cxxopts 3, as in the build of /repo
#define main tiro_run_main
#include "run/main.cpp"
