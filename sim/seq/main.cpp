#include "scn.h"
#include <iostream>
#include <unistd.h>
#include <fcntl.h>
int main(int argc, char **argv) {
    // the library prints diagnostics for refused parameters; they are not observations
    std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit);
    inj::calibrate();
    if (argc > 1 && !strcmp(argv[1], "info")) { printf("toy=%d leaf=%d flat=%d rust=%d rusttoy=%d rustleaf=%d\n", inj::mode_ok(1), inj::mode_ok(2), inj::mode_ok(3), rust_available(), inj::rust_toy_ok(), inj::rust_leaf_ok()); return 0; }
    return sim::sim_main(argc, argv);
}
