#include "rt.h"
#include "wraps.h"
#include "glue.h"
#include <cstring>
#include <iostream>
int main(int argc, char **argv) {
    std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit);
    mt::init(); wr::calibrate();
    if (argc > 1 && !strcmp(argv[1], "info")) { printf("toy=%d leaf=%d keygen-seam=%d rust=%d rust-toy=%d rust-leaf=%d\n", wr::mode_ok(1), wr::mode_ok(2), wr::gen_seam(), r_ok(), r_ok() && r_mode(1), r_ok() && r_mode(2)); return 0; }
    sim::full_plan_text = [](const sim::Plan &p) { sim::Plan q = p; if (q.cs("sched") == "recorded") return q.text(); q.set("sched", std::string("recorded")); return q.text() + mt::schedule_text(); };
    sim::isolate = !getenv("VERIF_NO_ISOLATION");
    return sim::sim_main(argc, argv);
}
