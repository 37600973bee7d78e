// Smaller FFPACK services: triangular extraction and inversion, echelon solves, permutation utilities, inverse of a full rank minor.
#include "wl_elim.h"
using namespace FFLAS;
typedef FIELD F;
#define BAD(...) sim::violation("wrong-result", __VA_ARGS__)
namespace {
#ifdef VIA_C
void permS(double* A, size_t ld, size_t w, size_t K2, size_t R1, size_t R2, size_t R3, size_t R4) { cns::PermApplyS_double(A, ld, w, K2, R1, R2, R3, R4); }
void permT(double* A, size_t ld, size_t w, size_t K2, size_t R1, size_t R2, size_t R3, size_t R4) { cns::PermApplyT_double(A, ld, w, K2, R1, R2, R3, R4); }
#else
void permS(double* A, size_t ld, size_t w, size_t K2, size_t R1, size_t R2, size_t R3, size_t R4) { FFPACK::PermApplyS<double>(A, ld, w, K2, R1, R2, R3, R4); }
void permT(double* A, size_t ld, size_t w, size_t K2, size_t R1, size_t R2, size_t R3, size_t R4) { FFPACK::PermApplyT<double>(A, ld, w, K2, R1, R2, R3, R4); }
#endif
}
WORKLOADF(triext) { // triangular factors extracted from a packed factorisation
    sim::enter("seq");
    F f = make_field<F>(); i64 p = charac(f);
    long hi = Pick("hi", {4, 9, 20, 50});
    size_t m = (size_t)Psize("m", 0, hi), n = (size_t)Psize("n", 0, hi), R = (size_t)P("R", 0, (long)std::min(m, n));
    bool upper = Pbool("upper"), unit = Pbool("unit"), in = Pbool("in"), only = Pbool("only");
    ref::M a = rnd(m, n, p, Pseed("a")), want(m, n);
    for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) {
        if (i == j && i < R) want(i, j) = unit ? 1 : a(i, j);
        else if (upper ? i < R && j > i : j < R && j < i) want(i, j) = a(i, j);
    }
    FFLAS_UPLO u = upper ? FflasUpper : FflasLower; FFLAS_DIAG d = unit ? FflasUnit : FflasNonUnit;
    Mat<F> A(f, m, n, "A"); A.set(a); A.snapshot();
    if (in) {
        { sim::Section s; FFPACK::getTriangular(f, u, d, m, n, R, A.p, A.ld); }
        ref::M g = A.get("getTriangular");
        if (!(g == want)) BAD("getTriangular in place %zux%zu rank %zu upper %d unit %d: %s", m, n, R, (int)upper, (int)unit, ref::diff(g, want).c_str());
        sim::observe(ref::hash(g));
    } else {
        Mat<F> T(f, only && upper ? R : m, only && !upper ? R : n, "T");
        { sim::Section s; FFPACK::getTriangular(f, u, d, m, n, R, (F::ConstElement_ptr)A.p, A.ld, T.p, T.ld, only); }
        ref::M g = T.get("getTriangular"), w(g.m, g.n);
        for (size_t i = 0; i < w.m; ++i) for (size_t j = 0; j < w.n; ++j) w(i, j) = want(i, j);
        if (!(g == w)) BAD("getTriangular %zux%zu rank %zu upper %d unit %d, only the non-zero vectors %d: %s", m, n, R, (int)upper, (int)unit, (int)only, ref::diff(g, w).c_str());
        A.unchanged("getTriangular"); T.padding_ok("T");
        sim::observe(ref::hash(g));
    }
    A.padding_ok("A");
}
WORKLOADF(trinv) { // inverse of a unit lower triangular matrix; inverse of the minor given by a factorisation
    sim::enter("seq");
    draw_thresholds(false);
    F f = make_field<F>(); i64 p = charac(f);
    long hi = Pick("hi", {4, 9, 20, 50});
    if (VSEL(true, Pbool("tri"))) {
        size_t n = (size_t)Psize("n", 0, hi);
        ref::M a = rnd_ext(n, n, p, Pseed("a"), (int)P("style", 0, 6));
        Mat<F> L(f, n, n, "L"), X(f, n, n, "X"); L.set(a); L.snapshot();
        { sim::Section s; FFPACK::trinv_left(f, n, L.p, L.ld, X.p, X.ld); }
        ref::M x = X.get("trinv_left");
        for (size_t i = 0; i < n; ++i) for (size_t j = i; j < n; ++j) { a(i, j) = i == j; x(i, j) = i == j; }
        if (!(ref::mul(a, x, p) == ref::identity(n))) BAD("trinv_left of order %zu mod %lld is not the inverse", n, p);
        L.unchanged("trinv_left"); L.padding_ok("L"); X.padding_ok("X");
        sim::observe(ref::hash(x));
        return;
    }
#ifndef VIA_C
    size_t m = (size_t)Psize("m", 0, hi), n = (size_t)Psize("n", 0, hi);
    ref::M a = gen_struct(m, n, p, "A");
    Mat<F> A(f, m, n, "A"); A.set(a);
    Perm Pp(n), Qp(m);
    size_t R;
    { sim::Section s; R = FFPACK::LUdivine(f, FflasNonUnit, FflasNoTrans, m, n, A.p, A.ld, Pp.p, Qp.p); }
    if (R != ref::rank(a, p)) BAD("LUdivine rank %zu, true rank %zu", R, ref::rank(a, p));
    Mat<F> X(f, R, R, "X");
    { sim::Section s; FFPACK::LQUPtoInverseOfFullRankMinor(f, R, A.p, A.ld, Qp.p, X.p, X.ld); }
    cols_fwd(a, Pp.p, R);
    ref::M mi(R, R);
    for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < R; ++j) mi(i, j) = a(Qp.p[i], j);
    ref::M x = X.get("inverse of the minor");
    if (!(ref::mul(x, mi, p) == ref::identity(R))) BAD("LQUPtoInverseOfFullRankMinor on a %zux%zu matrix of rank %zu mod %lld: not the inverse of the minor", m, n, R, p);
    A.padding_ok("A"); X.padding_ok("X");
    sim::observe(ref::hash(x));
#endif
}
WORKLOADF(solvelb) { // L.X = B or X.L = B with L an echelon matrix stored by columns: column j of the storage is column Q[j] of L
    sim::enter("seq");
    draw_thresholds(false);
    F f = make_field<F>(); i64 p = charac(f);
    long hi = Pick("hi", {4, 9, 20, 40});
    size_t m = (size_t)Psize("m", 0, hi), n = (size_t)Psize("n", 0, hi);
    bool left = Pbool("left"), two = Pbool("two");
    size_t LM = left ? m : n, R = (size_t)P("R", 0, (long)LM);
    sim::Rng g(Pseed("Q"));
    std::vector<size_t> all(LM); for (size_t i = 0; i < LM; ++i) all[i] = i;
    for (size_t i = LM; i > 1; --i) std::swap(all[i - 1], all[g.below(i)]);
    all.resize(R); std::sort(all.begin(), all.end());
    if (Pbool("generic", 25)) for (size_t i = 0; i < R; ++i) all[i] = i;
    Perm Q(R); for (size_t i = 0; i < R; ++i) Q.p[i] = all[i];
    ref::M r = rnd_ext(LM, LM, p, Pseed("l"), (int)P("style", 0, 6)), st(LM, LM), L = ref::identity(LM), b = rnd(m, n, p, Pseed("b"));
    for (size_t j = 0; j < R; ++j) for (size_t i = all[j] + 1; i < LM; ++i) st(i, j) = L(i, all[j]) = r(i, j);
    if (Pbool("junk")) for (size_t i = 0; i < LM; ++i) for (size_t j = i + 1; j < LM; ++j) st(i, j) = r(i, j); // upper factor: not read
    for (size_t i = 0; i < R; ++i) if (all[i] == i && Pbool("junk")) st(i, i) = r(i, i);
    Mat<F> S(f, LM, LM, "L"), B(f, m, n, "B"); S.set(st); S.snapshot(); B.set(b);
    { sim::Section s; FFLAS_SIDE sd = left ? FflasLeft : FflasRight; if (two) FFPACK::solveLB2(f, sd, m, n, R, S.p, S.ld, Q.p, B.p, B.ld); else FFPACK::solveLB(f, sd, m, n, R, S.p, S.ld, Q.p, B.p, B.ld); }
    ref::M x = B.get("solution"), c = left ? ref::mul(L, x, p) : ref::mul(x, L, p);
    if (!(c == b)) BAD("solveLB%s %s, %zux%zu, rank %zu with pivots {%s} mod %lld: %s", two ? "2" : "", left ? "left" : "right", m, n, R, list(all).c_str(), p, ref::diff(c, b).c_str());
    S.unchanged("solveLB"); S.padding_ok("L"); B.padding_ok("B");
    sim::observe(ref::hash(x));
}
WORKLOADF(permutil) { // permutation utilities outside the elimination itself
    sim::enter("seq");
    long hi = Pick("hi", {4, 9, 20, 50});
    size_t n = (size_t)Psize("n", 0, hi);
    int op = (int)P("op", 0, 3);
    sim::Rng g(Pseed("perm"));
    std::vector<size_t> mp(n); for (size_t i = 0; i < n; ++i) mp[i] = i;
    for (size_t i = n; i > 1; --i) std::swap(mp[i - 1], mp[g.below(i)]);
    if (op == 0) {
        size_t R = (size_t)P("R", 0, (long)n);
        Perm M(n), L(n - R);
        for (size_t i = 0; i < n; ++i) M.p[i] = mp[i];
        for (size_t i = 0; i < n - R; ++i) L.p[i] = i + (size_t)g.below(n - R - i);
        { sim::Section s; NT(composePermutationsMLM)(M.p, L.p, R, n); }
        for (size_t i = 0; i < n - R; ++i) std::swap(mp[R + i], mp[R + L.p[i]]);
        if (std::vector<size_t>(M.p, M.p + n) != mp) BAD("composePermutationsMLM of %zu (R %zu): {%s}, expected {%s}", n, R, list(std::vector<size_t>(M.p, M.p + n)).c_str(), list(mp).c_str());
    } else if (op == 1) {
        Perm M(n); for (size_t i = 0; i < n; ++i) M.p[i] = mp[i];
        size_t k = n ? (size_t)P("s", 1, (long)n) : 0;
        if (!k) sim::skip("empty");
        { sim::Section s; NT(cyclic_shift_mathPerm)(M.p, k); }
        std::rotate(mp.begin(), mp.begin() + (long)k - 1, mp.begin() + (long)k);
        if (std::vector<size_t>(M.p, M.p + n) != mp) BAD("cyclic_shift_mathPerm of %zu entries out of %zu: {%s}, expected {%s}", k, n, list(std::vector<size_t>(M.p, M.p + n)).c_str(), list(mp).c_str());
    } else if (op == 2) { // the permutation that sorts the pivots
        size_t R = (size_t)P("R", 0, (long)n);
        Perm L(n), O(R);
        for (size_t i = 0; i < n; ++i) L.p[i] = i + (size_t)g.below(n - i);
        { sim::Section s; NT(PLUQtoEchelonPermutation)(n, R, L.p, O.p); }
        O.lapack("PLUQtoEchelonPermutation", R, R);
        std::vector<size_t> m2(n); for (size_t i = 0; i < n; ++i) m2[i] = i;
        for (size_t i = 0; i < n; ++i) std::swap(m2[i], m2[L.p[i]]);
        m2.resize(R);
        std::vector<size_t> w = m2; std::sort(w.begin(), w.end());
        for (size_t i = 0; i < R; ++i) std::swap(m2[i], m2[O.p[i]]);
        if (m2 != w) BAD("PLUQtoEchelonPermutation of %zu with %zu pivots: they come out as {%s}", n, R, list(m2).c_str());
    } else { // block exchanges on plain numbers
        bool S = Pbool("S");
        size_t w = (size_t)Psize("w", 0, hi), ld = (S ? w : n) + (size_t)P("pad", 0, 3); if (!ld) ld = 1;
        size_t K2 = n ? (size_t)P("K2", 0, (long)n) : 0, R1 = (size_t)P("R1", 0, (long)K2), R2, R3, R4;
        if (S) { R2 = (size_t)P("R2", 0, (long)(K2 - R1)); R3 = (size_t)P("R3", 0, (long)(n - K2)); R4 = (size_t)P("R4", 0, (long)(n - K2 - R3)); }
        else { R2 = (size_t)P("R2", 0, (long)(n - K2)); R3 = (size_t)P("R3", 0, (long)(K2 - R1)); R4 = (size_t)P("R4", 0, (long)(n - K2 - R2)); }
        std::vector<size_t> order;
        auto run = [&](size_t a, size_t k) { for (size_t i = 0; i < k; ++i) order.push_back(a + i); };
        run(0, R1);
        if (S) { run(R1, R2); run(K2, R3 + R4); run(R1 + R2, K2 - R1 - R2); } else { run(K2, R2); run(R1, R3); run(K2 + R2, R4); run(R1 + R3, K2 - R1 - R3); }
        for (size_t i = order.size(); i < n; ++i) order.push_back(i);
        size_t rows = S ? n : w, tot = rows * ld;
        double* A = (double*)sim::user_alloc(tot * sizeof(double), 16);
        for (size_t i = 0; i < tot; ++i) A[i] = (double)i;
        { sim::Section s; if (S) permS(A, ld, w, K2, R1, R2, R3, R4); else permT(A, ld, w, K2, R1, R2, R3, R4); }
        for (size_t i = 0; i < rows; ++i) for (size_t j = 0; j < ld; ++j) {
            size_t e = i * ld + j;
            if (j < (S ? w : n)) e = S ? order[i] * ld + j : i * ld + order[j];
            if (A[i * ld + j] != (double)e) BAD("PermApply%s of %zu (%zu: %zu %zu %zu %zu) width %zu: entry (%zu,%zu) comes from %g instead of %zu", S ? "S" : "T", n, K2, R1, R2, R3, R4, w, i, j, A[i * ld + j], e);
        }
    }
}
