#include "thr.h"
#include "sim.h"
#include "wl_base.h"
extern "C" { int sim_thr_val[T_COUNT] = {1000, 2000, 1000, 2000, 256, 1, 1000, 16, 30, 32, 64, 3000, 220, 1, 256, 256, 64, 64, 256}; }
// draw tuning knobs: every threshold either at its shipped value or small, so that
// small problems reach the parallel and recursive code.
void draw_thresholds(bool all_default) {
    if (all_default) return;
    using sim::Pick;
    static const char* nm[T_COUNT] = {"t.wino", "t.winof", "t.winob", "t.winobf", "t.pluq", "t.ludivine", "t.cp_luk_ap", "t.cp_dan_luk", "t.arithprog",
        "t.ftrtri", "t.fsytrf", "t.fsyrk", "t.seqpar", "t.dimk", "t.ptrsm", "t.mincut", "t.ftrstr", "t.ftrssyr2k", "t.gj"};
    static const std::vector<std::vector<long>> opts = {
        {1000, 20, 8, 4}, {2000, 20, 8, 4}, {1000, 20, 8, 4}, {2000, 20, 8, 4}, {256, 2, 4, 8, 16}, {1, 4, 16}, {1000, 8, 20}, {16, 2, 5}, {30, 2, 3, 8},
        {32, 1, 2, 5, 12}, {64, 1, 3, 8, 20}, {3000, 8, 16}, {220, 1, 2, 4, 8}, {1, 2}, {256, 1, 2, 5, 16}, {256, 1, 3, 7, 16}, {64, 1, 4, 12}, {64, 1, 4, 12}, {256, 1, 2, 5, 16}};
    for (int i = 0; i < T_COUNT; ++i) sim_thr_val[i] = (int)Pick(nm[i], opts[(size_t)i]);
}
