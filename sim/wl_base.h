#ifndef VERIF_WL_BASE_H
#define VERIF_WL_BASE_H
#include "sim.h"
#include "ref.h"
void draw_thresholds(bool all_default);
#endif
