// Concurrent callers: several simulated OS threads use the library at once on a shared field object and
// shared read-only operands; every caller must obtain what it obtains alone.
#include "wl_elim.h"
#include <givaro/givpoly1.h>
#include <givaro/zring.h>
#include <fflas-ffpack/fflas/fflas_sparse.h>
#include <fflas-ffpack/utils/fflas_randommatrix.h>
using namespace FFLAS;
typedef FIELD F;
namespace {
const int NOPS = 48;
const char* OPN[NOPS] = {"fgemm", "parallel fgemm", "ftrsm", "PLUQ", "Rank", "Det", "Invert", "CharPoly", "fgemv", "fsyrk", "NullSpaceBasis", "LUdivine", "MinPoly", "fspmv", "parallel PLUQ", "fgemm over Z", "ReducedRowEchelonForm", "ftrtri", "ftrmm", "fdot", "fsytrf", "RowRankProfileSubmatrix", "Solve", "fgesv", "applyP", "fadd/fscal/fger", "RandomMatrixWithRank", "ColumnEchelonForm", "fspmm", "parallel fdot", "RowRankProfile", "ColumnRankProfile", "leading rank profiles", "fsyr2k", "fsytrf_RPM", "Invert2", "MatVecMinPoly", "ColRankProfileSubmatrix", "determinant over Z", "fgemm checker", "PLUQ checker", "parallel ftrsm", "parallel fgemv", "CharPoly (other variants)", "permutation formats", "fgetrs/trinv/ftrtrm", "RandomRankProfileMatrix", "fgemm over Z/mZ big"};
struct Shared { const F& f; i64 p; size_t n; Mat<F>* A; Mat<F>* T; uint64_t seed; Sparse<F, SparseMatrix_t::CSR>* S; Mat<F>* X; };
// one call of the library: everything it produces is appended to out
void op(const Shared& h, int which, uint64_t sd, std::vector<i64>& out) {
    const F& f = h.f; size_t n = h.n; sim::Rng g(sd);
    auto mat = [&](size_t r, size_t c) { F::Element_ptr M = fflas_new(f, r, c ? c : 1); for (size_t i = 0; i < r * c; ++i) put(f, M[i], (i64)g.below((uint64_t)h.p)); return M; };
    auto low = [&](size_t r) { F::Element_ptr M = mat(r, r); size_t k = (size_t)g.below(r + 1); for (size_t i = k; i < r; ++i) for (size_t j = 0; j < r; ++j) f.assign(M[i * r + j], k ? M[(i % k) * r + j] : f.zero); return M; };
    auto emit = [&](F::ConstElement_ptr M, size_t c) { for (size_t i = 0; i < c; ++i) out.push_back((i64)M[i]); };
    switch (which) {
    case 0: { F::Element_ptr C = mat(n, n); F::Element be; put(f, be, (i64)g.below((uint64_t)h.p)); fgemm(f, FflasNoTrans, FflasTrans, n, n, n, f.one, h.A->p, h.A->ld, h.A->p, h.A->ld, be, C, n); emit(C, n * n); fflas_delete(C); break; }
    case 1: { F::Element_ptr C = mat(n, n); ParSeqHelper::Parallel<CuttingStrategy::Recursive, StrategyParameter::TwoDAdaptive> H((size_t)1 + g.below(4)); PAR_BLOCK { fgemm(f, FflasNoTrans, FflasNoTrans, n, n, n, f.one, h.A->p, h.A->ld, h.T->p, h.T->ld, f.one, C, n, H); } emit(C, n * n); fflas_delete(C); break; }
    case 2: { F::Element_ptr C = mat(n, n); ftrsm(f, FflasLeft, FflasUpper, FflasNoTrans, FflasUnit, n, n, f.one, h.T->p, h.T->ld, C, n); emit(C, n * n); fflas_delete(C); break; }
    case 3: case 14: { F::Element_ptr C = low(n); size_t *P = fflas_new<size_t>(n), *Q = fflas_new<size_t>(n); size_t r;
        if (which == 3) r = FFPACK::PLUQ(f, FflasNonUnit, n, n, C, n, P, Q); else { ParSeqHelper::Parallel<CuttingStrategy::Recursive, StrategyParameter::Threads> H((size_t)1 + g.below(4)); PAR_BLOCK { r = FFPACK::PLUQ(f, FflasNonUnit, n, n, C, n, P, Q, H); } }
        out.push_back((i64)r); emit(C, n * n); for (size_t i = 0; i < n; ++i) { out.push_back((i64)P[i]); out.push_back((i64)Q[i]); } fflas_delete(C); fflas_delete(P, Q); break; }
    case 4: { F::Element_ptr C = low(n); out.push_back((i64)FFPACK::Rank(f, n, n, C, n)); fflas_delete(C); break; }
    case 5: { F::Element_ptr C = mat(n, n); F::Element d; FFPACK::Det(f, d, n, C, n); out.push_back((i64)d); fflas_delete(C); break; }
    case 6: { F::Element_ptr C = mat(n, n); int nu = -1; FFPACK::Invert(f, n, C, n, nu); out.push_back(nu); if (!nu) emit(C, n * n); fflas_delete(C); break; }
    case 7: { F::Element_ptr C = mat(n, n); typedef Givaro::Poly1Dom<F> R; R D(f); R::Element c; F::RandIter G(f, 1 + sd % 1000000007); FFPACK::CharPoly(D, c, n, C, n, G, g.below(2) ? FFPACK::FfpackAuto : FFPACK::FfpackArithProgKrylovPrecond, 3); for (auto& x : c) out.push_back((i64)x); fflas_delete(C); break; }
    case 8: { F::Element_ptr C = mat(n, 2); F::Element be; put(f, be, (i64)g.below((uint64_t)h.p)); fgemv(f, FflasTrans, n, n, f.one, h.A->p, h.A->ld, C, 1, be, C + n, 1); emit(C, 2 * n); fflas_delete(C); break; }
    case 9: { F::Element_ptr C = mat(n, n); fsyrk(f, FflasUpper, FflasNoTrans, n, n, f.one, h.A->p, h.A->ld, f.one, C, n); for (size_t i = 0; i < n; ++i) emit(C + i * n + i, n - i); fflas_delete(C); break; }
    case 10: { F::Element_ptr C = low(n), N = 0; size_t ld = 0, d = 0; FFPACK::NullSpaceBasis(f, FflasRight, n, n, C, n, N, ld, d); out.push_back((i64)d); for (size_t i = 0; i < n; ++i) emit(N + i * ld, d); fflas_delete(C); if (N) fflas_delete(N); break; }
    case 11: { F::Element_ptr C = low(n); size_t *P = fflas_new<size_t>(n), *Q = fflas_new<size_t>(n); size_t r = FFPACK::LUdivine(f, FflasUnit, FflasNoTrans, n, n, C, n, P, Q); out.push_back((i64)r); emit(C, n * n); fflas_delete(C); fflas_delete(P, Q); break; }
    case 12: { F::RandIter G(f, 1 + sd % 1000000007); std::vector<F::Element> c; FFPACK::MinPoly(f, c, n, h.A->p, h.A->ld, G); for (auto& x : c) out.push_back((i64)x); break; }
    case 13: { F::Element_ptr y = fflas_new(f, n, 1), x = fflas_new(f, n, 1); for (size_t i = 0; i < n; ++i) { f.assign(x[i], h.X->p[i]); put(f, y[i], (i64)g.below((uint64_t)h.p)); } fspmv(f, *h.S, x, f.one, y); emit(y, n); fflas_delete(x, y); break; }
    case 16: case 27: { F::Element_ptr C = low(n); size_t *P = fflas_new<size_t>(n), *Q = fflas_new<size_t>(n); size_t r = which == 16 ? FFPACK::ReducedRowEchelonForm(f, n, n, C, n, P, Q, true) : FFPACK::ColumnEchelonForm(f, n, n, C, n, P, Q, true); out.push_back((i64)r); emit(C, n * n); for (size_t i = 0; i < r; ++i) { out.push_back((i64)P[i]); out.push_back((i64)Q[i]); } fflas_delete(C); fflas_delete(P, Q); break; }
    case 17: { F::Element_ptr C = mat(n, n); FFPACK::ftrtri(f, FflasUpper, FflasUnit, n, C, n); for (size_t i = 0; i < n; ++i) emit(C + i * n + i, n - i); fflas_delete(C); break; }
    case 18: { F::Element_ptr C = mat(n, n); ftrmm(f, FflasRight, FflasLower, FflasNoTrans, FflasNonUnit, n, n, f.one, h.T->p, h.T->ld, C, n); emit(C, n * n); fflas_delete(C); break; }
    case 19: case 29: { F::Element d; if (which == 19) f.assign(d, fdot(f, n, h.A->p, 1, h.T->p, h.T->ld)); else { ParSeqHelper::Parallel<CuttingStrategy::Block, StrategyParameter::Threads> H((size_t)1 + g.below(4)); PAR_BLOCK { f.assign(d, fdot(f, n, h.A->p, 1, h.T->p, h.T->ld, H)); } } out.push_back((i64)d); break; }
    case 20: { if (h.p == 2) break; F::Element_ptr C = fflas_new(f, n, n); fzero(f, n, n, C, n); for (size_t i = 0; i < n; ++i) f.assign(C[i * n + i], f.one); fsyrk(f, FflasUpper, FflasNoTrans, n, n, f.one, h.A->p, h.A->ld, f.one, C, n); bool ok = FFPACK::fsytrf(f, FflasUpper, n, C, n); out.push_back(ok); if (ok) for (size_t i = 0; i < n; ++i) emit(C + i * n + i, n - i); fflas_delete(C); break; }
    case 21: { F::Element_ptr C = low(n); size_t *P = 0, *Q = 0, r = 0; size_t k = FFPACK::RowRankProfileSubmatrixIndices(f, n, n, C, n, P, Q, r); out.push_back((i64)k); out.push_back((i64)r); for (size_t i = 0; i < r; ++i) { out.push_back((i64)P[i]); out.push_back((i64)Q[i]); } fflas_delete(C); fflas_delete(P, Q); break; }
    case 22: { F::Element_ptr C = mat(n, n), b = mat(n, 1), x = fflas_new(f, n, 1); F::Element_ptr D = fflas_new(f, n, n); fassign(f, n, n, C, n, D, n); if (FFPACK::Rank(f, n, n, D, n) == n) { FFPACK::Solve(f, n, C, n, x, 1, b, 1); emit(x, n); } fflas_delete(C, b, x, D); break; }
    case 23: { F::Element_ptr C = low(n), b = mat(n, n); int info = 0; size_t r = FFPACK::fgesv(f, FflasLeft, n, n, C, n, b, n, &info); out.push_back((i64)r); out.push_back(info != 0); if (!info) emit(b, n * n); fflas_delete(C, b); break; }
    case 24: { F::Element_ptr C = mat(n, n); size_t* P = fflas_new<size_t>(n); for (size_t i = 0; i < n; ++i) P[i] = i + g.below(n - i); FFPACK::applyP(f, FflasLeft, FflasNoTrans, n, 0, n, C, n, P); FFPACK::applyP(f, FflasRight, FflasTrans, n, 0, n, C, n, P); emit(C, n * n); fflas_delete(C); fflas_delete(P); break; }
    case 25: { F::Element_ptr C = mat(n, n); F::Element be; put(f, be, (i64)g.below((uint64_t)h.p)); faddin(f, n, n, h.A->p, h.A->ld, C, n); fscalin(f, n, n, be, C, n); fger(f, n, n, be, h.X->p, h.X->ld, h.X->p, h.X->ld, C, n); fsubin(f, n, n, h.T->p, h.T->ld, C, n); emit(C, n * n); fflas_delete(C); break; }
    case 26: { F::Element_ptr C = fflas_new(f, n, n); F::RandIter G(f, 1 + sd % 1000000007); size_t r = (size_t)g.below(n + 1); FFPACK::RandomMatrixWithRank(f, n, n, r, C, n, G); out.push_back((i64)FFPACK::Rank(f, n, n, C, n)); fflas_delete(C); break; }
    case 28: { F::Element_ptr Y = mat(n, 3), B = mat(n, 3); fspmm(f, *h.S, 3, B, 3, f.one, Y, 3); emit(Y, 3 * n); fflas_delete(Y, B); break; }
    case 30: case 31: { F::Element_ptr C = low(n); size_t* rp = nullptr; FFPACK::FFPACK_LU_TAG tag = g.below(2) ? FFPACK::FfpackSlabRecursive : FFPACK::FfpackTileRecursive; size_t r = which == 30 ? FFPACK::RowRankProfile(f, n, n, C, n, rp, tag) : FFPACK::ColumnRankProfile(f, n, n, C, n, rp, tag); out.push_back((i64)r); for (size_t i = 0; i < r; ++i) out.push_back((i64)rp[i]); fflas_delete(C); fflas_delete(rp); break; }
    case 32: { F::Element_ptr C = low(n); size_t *P = fflas_new<size_t>(n), *Q = fflas_new<size_t>(n), *x = fflas_new<size_t>(n), *y = fflas_new<size_t>(n); size_t r = FFPACK::PLUQ(f, FflasUnit, n, n, C, n, P, Q);
        size_t a = (size_t)g.below(n + 1), b = (size_t)g.below(n + 1), k = FFPACK::LeadingSubmatrixRankProfiles(n, n, r, a, b, P, Q, x, y); out.push_back((i64)k); for (size_t i = 0; i < k; ++i) { out.push_back((i64)x[i]); out.push_back((i64)y[i]); }
        FFPACK::RankProfileFromLU(Q, n, r, x, FFPACK::FfpackTileRecursive); for (size_t i = 0; i < r; ++i) out.push_back((i64)x[i]); fflas_delete(C); fflas_delete(P, Q, x, y); break; }
    case 33: { F::Element_ptr C = mat(n, n); fsyr2k(f, FflasLower, FflasNoTrans, n, n, f.one, h.A->p, h.A->ld, h.T->p, h.T->ld, f.one, C, n); for (size_t i = 0; i < n; ++i) emit(C + i * n, i + 1); fflas_delete(C); break; }
    case 34: { if (h.p == 2) break; F::Element_ptr C = mat(n, n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) f.assign(C[i * n + j], C[j * n + i]); size_t* P = fflas_new<size_t>(n); size_t r = FFPACK::fsytrf_RPM(f, FflasUpper, n, C, n, P, 3); out.push_back((i64)r); for (size_t i = 0; i < r; ++i) emit(C + i * n + i, n - i); for (size_t i = 0; i < n; ++i) out.push_back((i64)P[i]); fflas_delete(C); fflas_delete(P); break; }
    case 35: { F::Element_ptr C = low(n), X = fflas_new(f, n, n); int nu = -1; FFPACK::Invert2(f, n, C, n, X, n, nu); out.push_back(nu); if (!nu) emit(X, n * n); fflas_delete(C, X); break; }
    case 36: { F::Element_ptr v = mat(n, 1); std::vector<F::Element> c; FFPACK::MatVecMinPoly(f, c, n, h.A->p, h.A->ld, v, 1); for (auto& x : c) out.push_back((i64)x); fflas_delete(v); break; }
    case 37: { F::Element_ptr C = low(n), X = nullptr; size_t r = 0; FFPACK::ColRankProfileSubmatrix(f, n, n, C, n, X, r); out.push_back((i64)r); emit(X, r * r); fflas_delete(C); fflas_delete(X); break; }
    case 38: { Givaro::ZRing<Givaro::Integer> Z; size_t k = std::min<size_t>(n, 4); Givaro::Integer *a = fflas_new(Z, k, k), d; for (size_t i = 0; i < k * k; ++i) a[i] = Givaro::Integer((int64_t)(g.next() >> 20)); FFPACK::Det(Z, d, k, a, k); for (int i = 0; i < 3; ++i) { Givaro::Integer q = d % Givaro::Integer(1000000007 + 2 * i); out.push_back((i64)(int64_t)q); } fflas_delete(a); break; }
    case 39: case 40: { F::RandIter G(f, 1 + sd % 1000000007); bool bad = g.below(2); F::Element_ptr C = which == 39 ? mat(n, n) : low(n); int ok = 1;
        try {
            if (which == 39) { CheckerImplem_fgemm<F> ck(G, n, n, n, f.one, C, n); fgemm(f, FflasNoTrans, FflasNoTrans, n, n, n, f.one, h.A->p, h.A->ld, h.T->p, h.T->ld, f.one, C, n); ck.check(FflasNoTrans, FflasNoTrans, f.one, h.A->p, h.A->ld, h.T->p, h.T->ld, C); }
            else { FFPACK::CheckerImplem_PLUQ<F> ck(G, n, n, C, n); size_t *P = fflas_new<size_t>(n), *Q = fflas_new<size_t>(n); size_t r = FFPACK::PLUQ(f, FflasNonUnit, n, n, C, n, P, Q); ck.check(C, n, FflasNonUnit, r, P, Q); fflas_delete(P, Q); }
        } catch (...) { ok = 0; }
        (void)bad; out.push_back(ok); emit(C, n * n); fflas_delete(C); break; }
    case 41: { F::Element_ptr C = mat(n, n); ParSeqHelper::Parallel<CuttingStrategy::Block, StrategyParameter::Threads> H((size_t)1 + g.below(4)); PAR_BLOCK { ftrsm(f, FflasLeft, FflasLower, FflasNoTrans, FflasUnit, n, n, f.one, h.T->p, h.T->ld, C, n, H); } emit(C, n * n); fflas_delete(C); break; }
    case 42: { F::Element_ptr C = mat(n, 2); ParSeqHelper::Parallel<CuttingStrategy::Row, StrategyParameter::Threads> H((size_t)1 + g.below(4)); PAR_BLOCK { fgemv(f, FflasNoTrans, n, n, f.one, h.A->p, h.A->ld, C, 1, f.one, C + n, 1, H); } emit(C, 2 * n); fflas_delete(C); break; }
    case 43: { F::Element_ptr C = mat(n, n); typedef Givaro::Poly1Dom<F> R; R D(f); R::Element c; F::RandIter G(f, 1 + sd % 1000000007); FFPACK::CharPoly(D, c, n, C, n, G, g.below(2) ? FFPACK::FfpackDanilevski : FFPACK::FfpackLUK); for (auto& x : c) out.push_back((i64)x); fflas_delete(C); break; }
    case 44: { size_t *L = fflas_new<size_t>(n), *M = fflas_new<size_t>(n), *L2 = fflas_new<size_t>(n); for (size_t i = 0; i < n; ++i) L[i] = i + g.below(n - i); FFPACK::LAPACKPerm2MathPerm(M, L, n); FFPACK::MathPerm2LAPACKPerm(L2, M, n); for (size_t i = 0; i < n; ++i) { out.push_back((i64)M[i]); out.push_back((i64)L2[i]); } fflas_delete(L, M, L2); break; }
    case 45: { F::Element_ptr C = mat(n, n), X = fflas_new(f, n, n), b = mat(n, 2); for (size_t i = 0; i < n; ++i) f.assign(C[i * n + i], f.one); FFPACK::trinv_left(f, n, C, n, X, n); for (size_t i = 0; i < n; ++i) emit(X + i * n, i); FFPACK::ftrtrm(f, FflasLeft, FflasNonUnit, n, C, n); emit(C, n * n);
        F::Element_ptr D = low(n); size_t *P = fflas_new<size_t>(n), *Q = fflas_new<size_t>(n); size_t r = FFPACK::PLUQ(f, FflasNonUnit, n, n, D, n, P, Q); int info = 0; FFPACK::fgetrs(f, FflasLeft, n, 2, r, D, n, P, Q, b, 2, &info); out.push_back(info != 0); if (!info) emit(b, 2 * n); fflas_delete(C, X, b, D); fflas_delete(P, Q); break; }
    case 46: { F::Element_ptr C = fflas_new(f, n, n); F::RandIter G(f, 1 + sd % 1000000007); size_t r = (size_t)g.below(n + 1); std::vector<size_t> rr(n), cc(n); { std::vector<size_t> u(n), v(n); for (size_t i = 0; i < n; ++i) u[i] = v[i] = i; for (size_t i = n; i-- > 1;) { std::swap(u[i], u[g.below(i + 1)]); std::swap(v[i], v[g.below(i + 1)]); } rr = u; cc = v; } FFPACK::RandomMatrixWithRankandRPM(f, n, n, r, C, n, rr.data(), cc.data(), G); emit(C, n * n); fflas_delete(C); break; }
    case 47: { typedef Givaro::Modular<Givaro::Integer> ZM; ZM Z(Givaro::Integer("170141183460469231731687303715884105727")); size_t k = std::min<size_t>(n, 5); Givaro::Integer *a = fflas_new(Z, k, k), *b = fflas_new(Z, k, k), *c = fflas_new(Z, k, k);
        for (size_t i = 0; i < k * k; ++i) { Z.init(a[i], Givaro::Integer((int64_t)(g.next() >> 1)) * Givaro::Integer((int64_t)(g.next() >> 1))); Z.init(b[i], Givaro::Integer((int64_t)(g.next() >> 1)) * Givaro::Integer((int64_t)(g.next() >> 1))); }
        fgemm(Z, FflasNoTrans, FflasNoTrans, k, k, k, Z.one, a, k, b, k, Z.zero, c, k); for (size_t i = 0; i < k * k; ++i) { Givaro::Integer q = c[i] % Givaro::Integer(1000000007); out.push_back((i64)(int64_t)q); } fflas_delete(a); fflas_delete(b); fflas_delete(c); break; }
    default: { Givaro::ZRing<Givaro::Integer> Z; size_t k = std::min<size_t>(n, 5); Givaro::Integer *a = fflas_new(Z, k, k), *b = fflas_new(Z, k, k), *c = fflas_new(Z, k, k);
        for (size_t i = 0; i < k * k; ++i) { a[i] = Givaro::Integer((int64_t)(g.next() >> 1)); b[i] = -Givaro::Integer((int64_t)(g.next() >> 1)); }
        fgemm(Z, FflasNoTrans, FflasNoTrans, k, k, k, Z.one, a, k, b, k, Z.zero, c, k);
        for (size_t i = 0; i < k * k; ++i) { Givaro::Integer q = c[i] % Givaro::Integer(1000000007); out.push_back((i64)(int64_t)q); }
        fflas_delete(a); fflas_delete(b); fflas_delete(c); }
    }
}
}
WORKLOADF(clients) {
    sim::enter("par");
    draw_thresholds(false);
    F f = make_field<F>(); i64 p = charac(f);
    size_t n = (size_t)Psize("n", 1, Pick("hi", {4, 8, 14}));
    ref::M a = rnd(n, n, p, Pseed("A"));
    Mat<F> A(f, n, n, "A"), T(f, n, n, "T"), X(f, n, 1, "X", false);
    A.set(a); T.set(rnd(n, n, p, Pseed("T"))); X.set(rnd(n, 1, p, Pseed("X")));
    A.snapshot(); T.snapshot(); X.snapshot();
    // shared sparse matrix
    std::vector<index_t> ri, ci; std::vector<F::Element> v; sim::Rng g(Pseed("S"));
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (g.below(3) == 0) { F::Element e; put(f, e, 1 + (i64)g.below((uint64_t)p - 1)); ri.push_back((index_t)i); ci.push_back((index_t)j); v.push_back(e); }
    if (v.empty()) { ri.push_back(0); ci.push_back(0); v.push_back(f.one); }
    Sparse<F, SparseMatrix_t::CSR> S;
    sparse_init(f, S, ri.data(), ci.data(), v.data(), n, n, v.size());
    Shared h{f, p, n, &A, &T, 0, &S, &X};
    int nc = (int)P("clients", 2, 4), len = (int)P("len", 1, 3);
    bool same = Pbool("same", 40); int mask = same ? (int)P("sameop", 0, NOPS - 1) : -1;
    std::vector<std::vector<std::pair<int, uint64_t>>> prog((size_t)nc);
    for (int c = 0; c < nc; ++c) for (int k = 0; k < len; ++k) { char b[24]; snprintf(b, sizeof b, "op%d.%d", c, k); int w = mask >= 0 ? mask : (int)P(b, 0, NOPS - 1); prog[(size_t)c].push_back({w, sim::mix(Pseed("ops"), (uint64_t)(c * 10 + k))}); }
    std::vector<std::vector<i64>> got((size_t)nc);
    {
        sim::Section s;
        std::vector<std::function<void()>> fs;
        for (int c = 0; c < nc; ++c) fs.push_back([&, c] { for (auto& q : prog[(size_t)c]) op(h, q.first, q.second, got[(size_t)c]); });
        sim::run_clients(fs);
    }
    for (int c = 0; c < nc; ++c) {
        std::vector<i64> want; size_t from = 0;
        for (auto& q : prog[(size_t)c]) {
            { sim::Section s; op(h, q.first, q.second, want); }
            if (want.size() > got[(size_t)c].size() || !std::equal(want.begin() + (long)from, want.end(), got[(size_t)c].begin() + (long)from)) sim::violation("wrong-result", "%s (n=%zu mod %lld): caller %d of %d concurrent callers obtains a result different from the one it obtains alone", OPN[q.first], n, p, c, nc);
            from = want.size();
        }
        if (want.size() != got[(size_t)c].size()) sim::violation("wrong-result", "concurrent callers: caller %d obtains a result of different size", c);
        for (i64 x : want) sim::observe((uint64_t)x);
    }
    A.unchanged("shared A"); T.unchanged("shared T"); X.unchanged("shared X");
    { sim::Section s; sparse_delete(S); }
}
