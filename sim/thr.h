// Force-included before every repository header in simulation builds:
// tuning thresholds become per-run simulator knobs.
#ifndef VERIF_THR_H
#define VERIF_THR_H
#include <cstddef>
enum SimThr { T_WINO, T_WINOF, T_WINOB, T_WINOBF, T_PLUQ, T_LUDIVINE, T_CP_LUK_AP, T_CP_DAN_LUK, T_ARITHPROG,
              T_FTRTRI, T_FSYTRF, T_FSYRK, T_SEQPAR, T_DIMK, T_PTRSM, T_MINCUT, T_FTRSTR, T_FTRSSYR2K, T_GJ, T_COUNT };
extern "C" int sim_thr_val[T_COUNT];
inline int sim_thr(int i) { return sim_thr_val[i]; }
#define __FFLASFFPACK_WINOTHRESHOLD sim_thr(T_WINO)
#define __FFLASFFPACK_WINOTHRESHOLD_FLT sim_thr(T_WINOF)
#define __FFLASFFPACK_WINOTHRESHOLD_BAL sim_thr(T_WINOB)
#define __FFLASFFPACK_WINOTHRESHOLD_BAL_FLT sim_thr(T_WINOBF)
#define __FFLASFFPACK_PLUQ_THRESHOLD ((size_t)sim_thr(T_PLUQ))
#define __FFLASFFPACK_LUDIVINE_THRESHOLD ((size_t)sim_thr(T_LUDIVINE))
#define __FFLASFFPACK_CHARPOLY_LUKrylov_ArithProg_THRESHOLD ((size_t)sim_thr(T_CP_LUK_AP))
#define __FFLASFFPACK_CHARPOLY_Danilevskii_LUKrylov_THRESHOLD ((size_t)sim_thr(T_CP_DAN_LUK))
#define __FFLASFFPACK_ARITHPROG_THRESHOLD ((size_t)sim_thr(T_ARITHPROG))
#define __FFLASFFPACK_FTRTRI_THRESHOLD ((size_t)sim_thr(T_FTRTRI))
#define __FFLASFFPACK_FSYTRF_THRESHOLD ((size_t)sim_thr(T_FSYTRF))
#define __FFLASFFPACK_FSYRK_THRESHOLD ((size_t)sim_thr(T_FSYRK))
#define __FFLASFFPACK_GAUSSJORDAN_BASECASE ((size_t)sim_thr(T_GJ))
#define __FFLASFFPACK_SIMULATION 1
#define __FFLASFFPACK_SIM_SEQPARTHRESHOLD sim_thr(T_SEQPAR)
#define __FFLASFFPACK_SIM_DIMKPENALTY sim_thr(T_DIMK)
#define __FFLASFFPACK_SIM_PTRSM_HYBRID_THRESHOLD sim_thr(T_PTRSM)
#define __FFLASFFPACK_SIM_MINBLOCKCUTS ((size_t)sim_thr(T_MINCUT))
#define __FFLASFFPACK_SIM_FTRSTR_THRESHOLD ((size_t)sim_thr(T_FTRSTR))
#define __FFLASFFPACK_SIM_FTRSSYR2K_THRESHOLD ((size_t)sim_thr(T_FTRSSYR2K))
#endif
