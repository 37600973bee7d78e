// Routes the calls of the workloads through the C interface (fflas_c.h, ffpack_c.h) of the precompiled library:
// overloads for the field of the workload, preferred by the compiler to the templates.
#ifndef VERIF_CIF_H
#define VERIF_CIF_H
#include <stdbool.h>
#include <stdlib.h>
#include <inttypes.h>
namespace cns { // the enumerations of the C headers have the names of the C++ ones
#include "fflas-ffpack/interfaces/libs/fflas_c.h"
#include "fflas-ffpack/interfaces/libs/ffpack_c.h"
}
namespace cif {
typedef FIELD CF;
typedef CF::Element E;
static const bool pos = std::is_same<CF, Givaro::Modular<E>>::value;
static inline E ch(const CF& F) { return (E)F.characteristic(); }
static inline enum cns::FFLAS_C_SIDE c(FFLAS::FFLAS_SIDE x) { return x == FFLAS::FflasLeft ? cns::FflasLeft : cns::FflasRight; }
static inline enum cns::FFLAS_C_UPLO c(FFLAS::FFLAS_UPLO x) { return x == FFLAS::FflasUpper ? cns::FflasUpper : cns::FflasLower; }
static inline enum cns::FFLAS_C_TRANSPOSE c(FFLAS::FFLAS_TRANSPOSE x) { return x == FFLAS::FflasTrans ? cns::FflasTrans : cns::FflasNoTrans; }
static inline enum cns::FFLAS_C_DIAG c(FFLAS::FFLAS_DIAG x) { return x == FFLAS::FflasUnit ? cns::FflasUnit : cns::FflasNonUnit; }
static inline enum cns::FFPACK_C_LU_TAG c(FFPACK::FFPACK_LU_TAG x) { return x == FFPACK::FfpackSlabRecursive ? cns::FfpackSlabRecursive : x == FFPACK::FfpackTileRecursive ? cns::FfpackTileRecursive : (enum cns::FFPACK_C_LU_TAG)(int)x; }
}
#define VIA_P const cif::CF& F
#define VIA_S size_t
#define VIA_CE const cif::E
#define VIA_RD const cif::E*
#define VIA_WR cif::E*
#ifdef VIA_C_ALL // the double precision part covers everything
namespace FFLAS {
inline void freduce(VIA_P, VIA_S n, VIA_WR X, VIA_S ix) { cns::freducein_1_modular_double(cif::ch(F), n, X, ix, cif::pos); }
inline void freduce(VIA_P, VIA_S n, VIA_RD Y, VIA_S iy, VIA_WR X, VIA_S ix) { cns::freduce_1_modular_double(cif::ch(F), n, Y, iy, X, ix, cif::pos); }
inline void fnegin(VIA_P, VIA_S n, VIA_WR X, VIA_S ix) { cns::fnegin_1_modular_double(cif::ch(F), n, X, ix, cif::pos); }
inline void fneg(VIA_P, VIA_S n, VIA_RD Y, VIA_S iy, VIA_WR X, VIA_S ix) { cns::fneg_1_modular_double(cif::ch(F), n, Y, iy, X, ix, cif::pos); }
inline void fzero(VIA_P, VIA_S n, VIA_WR X, VIA_S ix) { cns::fzero_1_modular_double(cif::ch(F), n, X, ix, cif::pos); }
inline bool fiszero(VIA_P, VIA_S n, VIA_RD X, VIA_S ix) { return cns::fiszero_1_modular_double(cif::ch(F), n, X, ix, cif::pos); }
inline bool fequal(VIA_P, VIA_S n, VIA_RD X, VIA_S ix, VIA_RD Y, VIA_S iy) { return cns::fequal_1_modular_double(cif::ch(F), n, X, ix, Y, iy, cif::pos); }
inline void fassign(VIA_P, VIA_S n, VIA_RD Y, VIA_S iy, VIA_WR X, VIA_S ix) { cns::fassign_1_modular_double(cif::ch(F), n, Y, iy, X, ix, cif::pos); }
inline void fscalin(VIA_P, VIA_S n, VIA_CE al, VIA_WR X, VIA_S ix) { cns::fscalin_1_modular_double(cif::ch(F), n, al, X, ix, cif::pos); }
inline void fscal(VIA_P, VIA_S n, VIA_CE al, VIA_RD X, VIA_S ix, VIA_WR Y, VIA_S iy) { cns::fscal_1_modular_double(cif::ch(F), n, al, X, ix, Y, iy, cif::pos); }
inline void faxpy(VIA_P, VIA_S n, VIA_CE al, VIA_RD X, VIA_S ix, VIA_WR Y, VIA_S iy) { cns::faxpy_1_modular_double(cif::ch(F), n, al, X, ix, Y, iy, cif::pos); }
inline cif::E fdot(VIA_P, VIA_S n, VIA_RD X, VIA_S ix, VIA_RD Y, VIA_S iy) { return cns::fdot_1_modular_double(cif::ch(F), n, X, ix, Y, iy, cif::pos); }
inline void fswap(VIA_P, VIA_S n, VIA_WR X, VIA_S ix, VIA_WR Y, VIA_S iy) { cns::fswap_1_modular_double(cif::ch(F), n, X, ix, Y, iy, cif::pos); }
inline void fadd(VIA_P, VIA_S n, VIA_RD A, VIA_S ia, VIA_RD B, VIA_S ib, VIA_WR C, VIA_S ic) { cns::fadd_1_modular_double(cif::ch(F), n, A, ia, B, ib, C, ic, cif::pos); }
inline void fsub(VIA_P, VIA_S n, VIA_RD A, VIA_S ia, VIA_RD B, VIA_S ib, VIA_WR C, VIA_S ic) { cns::fsub_1_modular_double(cif::ch(F), n, A, ia, B, ib, C, ic, cif::pos); }
inline void faddin(VIA_P, VIA_S n, VIA_RD B, VIA_S ib, VIA_WR C, VIA_S ic) { cns::faddin_1_modular_double(cif::ch(F), n, B, ib, C, ic, cif::pos); }
inline void fsubin(VIA_P, VIA_S n, VIA_RD B, VIA_S ib, VIA_WR C, VIA_S ic) { cns::fsubin_1_modular_double(cif::ch(F), n, B, ib, C, ic, cif::pos); }
inline void fassign(VIA_P, VIA_S m, VIA_S n, VIA_RD A, VIA_S la, VIA_WR B, VIA_S lb) { cns::fassign_2_modular_double(cif::ch(F), m, n, A, la, B, lb, cif::pos); }
inline void fzero(VIA_P, VIA_S m, VIA_S n, VIA_WR A, VIA_S la) { cns::fzero_2_modular_double(cif::ch(F), m, n, A, la, cif::pos); }
inline bool fequal(VIA_P, VIA_S m, VIA_S n, VIA_RD A, VIA_S la, VIA_RD B, VIA_S lb) { return cns::fequal_2_modular_double(cif::ch(F), m, n, A, la, B, lb, cif::pos); }
inline bool fiszero(VIA_P, VIA_S m, VIA_S n, VIA_RD A, VIA_S la) { return cns::fiszero_2_modular_double(cif::ch(F), m, n, A, la, cif::pos); }
inline void fidentity(VIA_P, VIA_S m, VIA_S n, VIA_WR A, VIA_S la, VIA_CE& d) { cns::fidentity_2_modular_double(cif::ch(F), m, n, A, la, d, cif::pos); }
inline void freduce(VIA_P, VIA_S m, VIA_S n, VIA_WR A, VIA_S la) { cns::freducein_2_modular_double(cif::ch(F), m, n, A, la, cif::pos); }
inline void freduce(VIA_P, VIA_S m, VIA_S n, VIA_RD A, VIA_S la, VIA_WR B, VIA_S lb) { cns::freduce_2_modular_double(cif::ch(F), m, n, A, la, B, lb, cif::pos); }
inline void fnegin(VIA_P, VIA_S m, VIA_S n, VIA_WR A, VIA_S la) { cns::fnegin_2_modular_double(cif::ch(F), m, n, A, la, cif::pos); }
inline void fneg(VIA_P, VIA_S m, VIA_S n, VIA_RD A, VIA_S la, VIA_WR B, VIA_S lb) { cns::fneg_2_modular_double(cif::ch(F), m, n, A, la, B, lb, cif::pos); }
inline void fscalin(VIA_P, VIA_S m, VIA_S n, VIA_CE al, VIA_WR A, VIA_S la) { cns::fscalin_2_modular_double(cif::ch(F), m, n, al, A, la, cif::pos); }
inline void fscal(VIA_P, VIA_S m, VIA_S n, VIA_CE al, VIA_RD A, VIA_S la, VIA_WR B, VIA_S lb) { cns::fscal_2_modular_double(cif::ch(F), m, n, al, A, la, B, lb, cif::pos); }
inline void faxpy(VIA_P, VIA_S m, VIA_S n, VIA_CE al, VIA_RD A, VIA_S la, VIA_WR B, VIA_S lb) { cns::faxpy_2_modular_double(cif::ch(F), m, n, al, A, la, B, lb, cif::pos); }
inline void fmove(VIA_P, VIA_S m, VIA_S n, VIA_WR A, VIA_S la, VIA_WR B, VIA_S lb) { cns::fmove_2_modular_double(cif::ch(F), m, n, A, la, B, lb, cif::pos); }
inline void fadd(VIA_P, VIA_S m, VIA_S n, VIA_RD A, VIA_S la, VIA_RD B, VIA_S lb, VIA_WR C, VIA_S lc) { cns::fadd_2_modular_double(cif::ch(F), m, n, A, la, B, lb, C, lc, cif::pos); }
inline void fsub(VIA_P, VIA_S m, VIA_S n, VIA_RD A, VIA_S la, VIA_RD B, VIA_S lb, VIA_WR C, VIA_S lc) { cns::fsub_2_modular_double(cif::ch(F), m, n, A, la, B, lb, C, lc, cif::pos); }
inline void faddin(VIA_P, VIA_S m, VIA_S n, VIA_RD B, VIA_S lb, VIA_WR C, VIA_S lc) { cns::faddin_2_modular_double(cif::ch(F), m, n, B, lb, C, lc, cif::pos); }
inline void fsubin(VIA_P, VIA_S m, VIA_S n, VIA_RD B, VIA_S lb, VIA_WR C, VIA_S lc) { cns::fsubin_2_modular_double(cif::ch(F), m, n, B, lb, C, lc, cif::pos); }
inline VIA_WR fgemv(VIA_P, FFLAS_TRANSPOSE t, VIA_S m, VIA_S n, VIA_CE al, VIA_RD A, VIA_S la, VIA_RD X, VIA_S ix, VIA_CE be, VIA_WR Y, VIA_S iy) { return cns::fgemv_2_modular_double(cif::ch(F), cif::c(t), m, n, al, A, la, X, ix, be, Y, iy, cif::pos); }
inline void fger(VIA_P, VIA_S m, VIA_S n, VIA_CE al, VIA_RD X, VIA_S ix, VIA_RD Y, VIA_S iy, VIA_WR A, VIA_S la) { cns::fger_2_modular_double(cif::ch(F), m, n, al, X, ix, Y, iy, A, la, cif::pos); }
inline void ftrsv(VIA_P, FFLAS_UPLO u, FFLAS_TRANSPOSE t, FFLAS_DIAG d, VIA_S n, VIA_RD A, VIA_S la, VIA_WR X, int ix) { cns::ftrsv_2_modular_double(cif::ch(F), cif::c(u), cif::c(t), cif::c(d), n, A, la, X, ix, cif::pos); }
inline void ftrsm(VIA_P, FFLAS_SIDE s, FFLAS_UPLO u, FFLAS_TRANSPOSE t, FFLAS_DIAG d, VIA_S m, VIA_S n, VIA_CE al, VIA_RD A, VIA_S la, VIA_WR B, VIA_S lb) { cns::ftrsm_3_modular_double(cif::ch(F), cif::c(s), cif::c(u), cif::c(t), cif::c(d), m, n, al, A, la, B, lb, cif::pos); }
inline void ftrmm(VIA_P, FFLAS_SIDE s, FFLAS_UPLO u, FFLAS_TRANSPOSE t, FFLAS_DIAG d, VIA_S m, VIA_S n, VIA_CE al, VIA_RD A, VIA_S la, VIA_WR B, VIA_S lb) { cns::ftrmm_3_modular_double(cif::ch(F), cif::c(s), cif::c(u), cif::c(t), cif::c(d), m, n, al, (VIA_WR)A, la, B, lb, cif::pos); }
inline VIA_WR fgemm(VIA_P, FFLAS_TRANSPOSE ta, FFLAS_TRANSPOSE tb, VIA_S m, VIA_S n, VIA_S k, VIA_CE al, VIA_RD A, VIA_S la, VIA_RD B, VIA_S lb, VIA_CE be, VIA_WR C, VIA_S lc) { return cns::fgemm_3_modular_double(cif::ch(F), cif::c(ta), cif::c(tb), m, n, k, al, A, la, B, lb, be, C, lc, cif::pos); }
inline VIA_WR fsquare(VIA_P, FFLAS_TRANSPOSE ta, VIA_S n, VIA_CE al, VIA_RD A, VIA_S la, VIA_CE be, VIA_WR C, VIA_S lc) { return cns::fsquare_3_modular_double(cif::ch(F), cif::c(ta), n, al, A, la, be, C, lc, cif::pos); }
}
namespace FFPACK {
inline void MatrixApplyS(VIA_P, VIA_WR A, VIA_S la, VIA_S w, VIA_S M2, VIA_S R1, VIA_S R2, VIA_S R3, VIA_S R4) { cns::MatrixApplyS_modular_double(cif::ch(F), A, la, w, M2, R1, R2, R3, R4, cif::pos); }
inline void MatrixApplyT(VIA_P, VIA_WR A, VIA_S la, VIA_S w, VIA_S N2, VIA_S R1, VIA_S R2, VIA_S R3, VIA_S R4) { cns::MatrixApplyT_modular_double(cif::ch(F), A, la, w, N2, R1, R2, R3, R4, cif::pos); }
inline void cyclic_shift_row(VIA_P, VIA_WR A, VIA_S m, VIA_S n, VIA_S la) { cns::cyclic_shift_row_modular_double(cif::ch(F), A, m, n, la, cif::pos); }
inline void cyclic_shift_col(VIA_P, VIA_WR A, VIA_S m, VIA_S n, VIA_S la) { cns::cyclic_shift_col_modular_double(cif::ch(F), A, m, n, la, cif::pos); }
inline void applyP(VIA_P, FFLAS::FFLAS_SIDE s, FFLAS::FFLAS_TRANSPOSE t, VIA_S M, VIA_S ib, VIA_S ie, VIA_WR A, VIA_S la, const size_t* P) { cns::applyP_modular_double(cif::ch(F), cif::c(s), cif::c(t), M, ib, ie, A, la, P, cif::pos); }
inline void fgetrs(VIA_P, FFLAS::FFLAS_SIDE s, VIA_S M, VIA_S N, VIA_S R, VIA_WR A, VIA_S la, const size_t* P, const size_t* Q, VIA_WR B, VIA_S lb, int* info) { cns::fgetrsin_modular_double(cif::ch(F), cif::c(s), M, N, R, A, la, P, Q, B, lb, info, cif::pos); }
inline VIA_WR fgetrs(VIA_P, FFLAS::FFLAS_SIDE s, VIA_S M, VIA_S N, VIA_S K, VIA_S R, VIA_WR A, VIA_S la, const size_t* P, const size_t* Q, VIA_WR X, VIA_S lx, VIA_RD B, VIA_S lb, int* info) { return cns::fgetrs_modular_double(cif::ch(F), cif::c(s), M, N, K, R, A, la, P, Q, X, lx, B, lb, info, cif::pos); }
inline size_t fgesv(VIA_P, FFLAS::FFLAS_SIDE s, VIA_S M, VIA_S N, VIA_WR A, VIA_S la, VIA_WR B, VIA_S lb, int* info) { return cns::fgesvin_modular_double(cif::ch(F), cif::c(s), M, N, A, la, B, lb, info, cif::pos); }
inline size_t fgesv(VIA_P, FFLAS::FFLAS_SIDE s, VIA_S M, VIA_S N, VIA_S K, VIA_WR A, VIA_S la, VIA_WR X, VIA_S lx, VIA_RD B, VIA_S lb, int* info) { return cns::fgesv_modular_double(cif::ch(F), cif::c(s), M, N, K, A, la, X, lx, B, lb, info, cif::pos); }
inline void ftrtri(VIA_P, FFLAS::FFLAS_UPLO u, FFLAS::FFLAS_DIAG d, VIA_S N, VIA_WR A, VIA_S la) { cns::ftrtri_modular_double(cif::ch(F), cif::c(u), cif::c(d), N, A, la, cif::pos); }
inline void trinv_left(VIA_P, VIA_S N, VIA_RD L, VIA_S ll, VIA_WR X, VIA_S lx) { cns::trinv_left_modular_double(cif::ch(F), N, L, ll, X, lx, cif::pos); }
inline void ftrtrm(VIA_P, FFLAS::FFLAS_SIDE s, FFLAS::FFLAS_DIAG d, VIA_S N, VIA_WR A, VIA_S la) { cns::ftrtrm_modular_double(cif::ch(F), cif::c(s), cif::c(d), N, A, la, cif::pos); }
inline size_t PLUQ(VIA_P, FFLAS::FFLAS_DIAG d, VIA_S M, VIA_S N, VIA_WR A, VIA_S la, size_t* P, size_t* Q) { return cns::PLUQ_modular_double(cif::ch(F), cif::c(d), M, N, A, la, P, Q, cif::pos); }
inline size_t LUdivine(VIA_P, FFLAS::FFLAS_DIAG d, FFLAS::FFLAS_TRANSPOSE t, VIA_S M, VIA_S N, VIA_WR A, VIA_S la, size_t* P, size_t* Q, FFPACK_LU_TAG tag = FfpackSlabRecursive, VIA_S cut = 30) { return cns::LUdivine_modular_double(cif::ch(F), cif::c(d), cif::c(t), M, N, A, la, P, Q, cif::c(tag), cut, cif::pos); }
inline VIA_WR Invert(VIA_P, VIA_S M, VIA_WR A, VIA_S la, int& nul) { return cns::Invertin_modular_double(cif::ch(F), M, A, la, &nul, cif::pos); }
inline VIA_WR Invert(VIA_P, VIA_S M, VIA_RD A, VIA_S la, VIA_WR X, VIA_S lx, int& nul) { return cns::Invert_modular_double(cif::ch(F), M, A, la, X, lx, &nul, cif::pos); }
inline VIA_WR Invert2(VIA_P, VIA_S M, VIA_WR A, VIA_S la, VIA_WR X, VIA_S lx, int& nul) { return cns::Invert2_modular_double(cif::ch(F), M, A, la, X, lx, &nul, cif::pos); }
inline size_t SpecRankProfile(VIA_P, VIA_S M, VIA_S N, VIA_WR A, VIA_S la, VIA_S deg, size_t* rp) { return cns::SpecRankProfile_modular_double(cif::ch(F), M, N, A, la, deg, rp, cif::pos); }
inline size_t Rank(VIA_P, VIA_S M, VIA_S N, VIA_WR A, VIA_S la) { return cns::Rank_modular_double(cif::ch(F), M, N, A, la, cif::pos); }
inline bool IsSingular(VIA_P, VIA_S M, VIA_S N, VIA_WR A, VIA_S la) { return cns::IsSingular_modular_double(cif::ch(F), M, N, A, la, cif::pos); }
inline cif::E& Det(VIA_P, cif::E& d, VIA_S N, VIA_WR A, VIA_S la) { return d = cns::Det_modular_double(cif::ch(F), N, A, la, cif::pos); }
inline VIA_WR Solve(VIA_P, VIA_S M, VIA_WR A, VIA_S la, VIA_WR x, int ix, VIA_RD b, int ib) { return cns::Solve_modular_double(cif::ch(F), M, A, la, x, ix, b, ib, cif::pos); }
inline void solveLB(VIA_P, FFLAS::FFLAS_SIDE s, VIA_S M, VIA_S N, VIA_S R, VIA_WR L, VIA_S ll, const size_t* Q, VIA_WR B, VIA_S lb) { cns::solveLB_modular_double(cif::ch(F), cif::c(s), M, N, R, L, ll, Q, B, lb, cif::pos); }
inline void solveLB2(VIA_P, FFLAS::FFLAS_SIDE s, VIA_S M, VIA_S N, VIA_S R, VIA_WR L, VIA_S ll, const size_t* Q, VIA_WR B, VIA_S lb) { cns::solveLB2_modular_double(cif::ch(F), cif::c(s), M, N, R, L, ll, Q, B, lb, cif::pos); }
inline void RandomNullSpaceVector(VIA_P, FFLAS::FFLAS_SIDE s, VIA_S M, VIA_S N, VIA_WR A, VIA_S la, VIA_WR X, VIA_S ix) { cns::RandomNullSpaceVector_modular_double(cif::ch(F), cif::c(s), M, N, A, la, X, ix, cif::pos); }
inline size_t NullSpaceBasis(VIA_P, FFLAS::FFLAS_SIDE s, VIA_S M, VIA_S N, VIA_WR A, VIA_S la, VIA_WR& NS, size_t& ldn, size_t& dim) { return cns::NullSpaceBasis_modular_double(cif::ch(F), cif::c(s), M, N, A, la, &NS, &ldn, &dim, cif::pos); }
inline size_t RowRankProfile(VIA_P, VIA_S M, VIA_S N, VIA_WR A, VIA_S la, size_t*& rp, FFPACK_LU_TAG t) { return cns::RowRankProfile_modular_double(cif::ch(F), M, N, A, la, &rp, cif::c(t), cif::pos); }
inline size_t ColumnRankProfile(VIA_P, VIA_S M, VIA_S N, VIA_WR A, VIA_S la, size_t*& rp, FFPACK_LU_TAG t) { return cns::ColumnRankProfile_modular_double(cif::ch(F), M, N, A, la, &rp, cif::c(t), cif::pos); }
inline size_t RowRankProfileSubmatrixIndices(VIA_P, VIA_S M, VIA_S N, VIA_WR A, VIA_S la, size_t*& ri, size_t*& ci, size_t& R) { return cns::RowRankProfileSubmatrixIndices_modular_double(cif::ch(F), M, N, A, la, &ri, &ci, &R, cif::pos); }
inline size_t ColRankProfileSubmatrixIndices(VIA_P, VIA_S M, VIA_S N, VIA_WR A, VIA_S la, size_t*& ri, size_t*& ci, size_t& R) { return cns::ColRankProfileSubmatrixIndices_modular_double(cif::ch(F), M, N, A, la, &ri, &ci, &R, cif::pos); }
inline size_t RowRankProfileSubmatrix(VIA_P, VIA_S M, VIA_S N, VIA_WR A, VIA_S la, VIA_WR& X, size_t& R) { return cns::RowRankProfileSubmatrix_modular_double(cif::ch(F), M, N, A, la, &X, &R, cif::pos); }
inline size_t ColRankProfileSubmatrix(VIA_P, VIA_S M, VIA_S N, VIA_WR A, VIA_S la, VIA_WR& X, size_t& R) { return cns::ColRankProfileSubmatrix_modular_double(cif::ch(F), M, N, A, la, &X, &R, cif::pos); }
inline void getTriangular(VIA_P, FFLAS::FFLAS_UPLO u, FFLAS::FFLAS_DIAG d, VIA_S M, VIA_S N, VIA_S R, VIA_RD A, VIA_S la, VIA_WR T, VIA_S lt, bool nz) { cns::getTriangular_modular_double(cif::ch(F), cif::c(u), cif::c(d), M, N, R, A, la, T, lt, nz, cif::pos); }
inline void getTriangular(VIA_P, FFLAS::FFLAS_UPLO u, FFLAS::FFLAS_DIAG d, VIA_S M, VIA_S N, VIA_S R, VIA_WR A, VIA_S la) { cns::getTriangularin_modular_double(cif::ch(F), cif::c(u), cif::c(d), M, N, R, A, la, cif::pos); }
inline void getEchelonForm(VIA_P, FFLAS::FFLAS_UPLO u, FFLAS::FFLAS_DIAG d, VIA_S M, VIA_S N, VIA_S R, const size_t* P, VIA_RD A, VIA_S la, VIA_WR T, VIA_S lt, bool nz, FFPACK_LU_TAG t) { cns::getEchelonForm_modular_double(cif::ch(F), cif::c(u), cif::c(d), M, N, R, P, A, la, T, lt, nz, cif::c(t), cif::pos); }
inline void getEchelonForm(VIA_P, FFLAS::FFLAS_UPLO u, FFLAS::FFLAS_DIAG d, VIA_S M, VIA_S N, VIA_S R, const size_t* P, VIA_WR A, VIA_S la, FFPACK_LU_TAG t) { cns::getEchelonFormin_modular_double(cif::ch(F), cif::c(u), cif::c(d), M, N, R, P, A, la, cif::c(t), cif::pos); }
inline void getEchelonTransform(VIA_P, FFLAS::FFLAS_UPLO u, FFLAS::FFLAS_DIAG d, VIA_S M, VIA_S N, VIA_S R, const size_t* P, const size_t* Q, VIA_RD A, VIA_S la, VIA_WR T, VIA_S lt, FFPACK_LU_TAG t) { cns::getEchelonTransform_modular_double(cif::ch(F), cif::c(u), cif::c(d), M, N, R, P, Q, A, la, T, lt, cif::c(t), cif::pos); }
inline void getReducedEchelonForm(VIA_P, FFLAS::FFLAS_UPLO u, VIA_S M, VIA_S N, VIA_S R, const size_t* P, VIA_RD A, VIA_S la, VIA_WR T, VIA_S lt, bool nz, FFPACK_LU_TAG t) { cns::getReducedEchelonForm_modular_double(cif::ch(F), cif::c(u), M, N, R, P, A, la, T, lt, nz, cif::c(t), cif::pos); }
inline void getReducedEchelonForm(VIA_P, FFLAS::FFLAS_UPLO u, VIA_S M, VIA_S N, VIA_S R, const size_t* P, VIA_WR A, VIA_S la, FFPACK_LU_TAG t) { cns::getReducedEchelonFormin_modular_double(cif::ch(F), cif::c(u), M, N, R, P, A, la, cif::c(t), cif::pos); }
inline void getReducedEchelonTransform(VIA_P, FFLAS::FFLAS_UPLO u, VIA_S M, VIA_S N, VIA_S R, const size_t* P, const size_t* Q, VIA_RD A, VIA_S la, VIA_WR T, VIA_S lt, FFPACK_LU_TAG t) { cns::getReducedEchelonTransform_modular_double(cif::ch(F), cif::c(u), M, N, R, P, Q, A, la, T, lt, cif::c(t), cif::pos); }
}
#endif
// echelon forms exist for double, float and int32_t
namespace FFPACK {
#define VIA_ECH(NAME) \
inline size_t NAME(VIA_P, VIA_S M, VIA_S N, VIA_WR A, VIA_S la, size_t* P, size_t* Q, bool tf, FFPACK_LU_TAG t) { return cns::VCAT(NAME##_modular, VIA_C_TYPE)(cif::ch(F), M, N, A, la, P, Q, tf, cif::c(t), cif::pos); } \
inline size_t p##NAME(VIA_P, VIA_S M, VIA_S N, VIA_WR A, VIA_S la, size_t* P, size_t* Q, bool tf, VIA_S, FFPACK_LU_TAG t) { return cns::VCAT(p##NAME##_modular, VIA_C_TYPE)(cif::ch(F), M, N, A, la, P, Q, tf, cif::c(t), cif::pos); }
VIA_ECH(RowEchelonForm) VIA_ECH(ColumnEchelonForm) VIA_ECH(ReducedRowEchelonForm) VIA_ECH(ReducedColumnEchelonForm)
}
#endif
