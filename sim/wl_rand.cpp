// Random matrix generators: shape, rank, rank profile, determinant, symmetry, footprint, for every draw.
#include "wl_elim.h"
#include <fflas-ffpack/utils/fflas_randommatrix.h>
#include <cstdlib>
using namespace FFLAS;
using namespace FFPACK;
typedef FIELD F;
namespace {
F::RandIter make_gen(const F& f) { return F::RandIter(f, 1 + Pseed("gen") % 1000000007); }
// generators without a random iterator argument seed themselves from the (simulated) clock
bool own() { bool o = Pbool("clockseed", 30); if (o) sim::set_clock(Pseed("clock") % 2000000000000000ull, 1); return o; }
void lib_seed() { srand((unsigned)Pseed("crand")); }
void subset_ok(const char* what, const std::vector<size_t>& v, size_t N) {
    std::vector<char> seen(N, 0);
    for (size_t x : v) { if (x >= N) sim::violation("wrong-result", "%s: index %zu out of range %zu", what, x, N); if (seen[x]) sim::violation("wrong-result", "%s: index %zu drawn twice", what, x); seen[x] = 1; }
}
size_t lrank(const ref::M& A, size_t r, size_t c, i64 p) { ref::M B(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) B(i, j) = A(i, j); return ref::rank(B, p); }
}
WORKLOADF(rndmat) {
    sim::enter("seq");
    draw_thresholds(false);
    F f = make_field<F>(); i64 p = charac(f);
    F::RandIter G = make_gen(f); lib_seed();
    int op = (int)P("op", 0, 7);
    size_t hi = (size_t)Pick("hi", {4, 8, 13});
    size_t m = (size_t)Psize("m", 0, (long)hi), n = (size_t)Psize("n", 0, (long)hi);
    if (op >= 6) m = n;
    Mat<F> A(f, m, n, "A");
    char what[160];
    if (op == 0) { // strided vector
        size_t inc = (size_t)Pick("inc", {1, 1, 2, 3, 5});
        Mat<F> X(f, n, 1, "X", false); size_t tot = n ? (n - 1) * inc + 1 : 0;
        F::Element* x = (F::Element*)sim::user_alloc((tot + 3) * sizeof(F::Element), 16);
        for (size_t i = 0; i < tot + 3; ++i) X.sent(x[i], i);
        { sim::Section s; frand(f, G, n, x, inc); }
        for (size_t i = 0; i < tot + 3; ++i) { bool in = i < tot && i % inc == 0; if (in) sim::observe((uint64_t)get(f, x[i], "frand")); else if (!X.is_sent(x[i], i)) sim::violation("footprint", "frand(n=%zu, inc=%zu) writes at offset %zu", n, inc, i); }
        return;
    }
    if (op == 1) { { sim::Section s; frand(f, G, m, n, A.p, A.ld); } snprintf(what, sizeof what, "frand %zux%zu ld %zu", m, n, A.ld); ref::M R = A.get(what); A.padding_ok(what); sim::observe(ref::hash(R)); return; }
    if (op == 2) { bool o = own(); { sim::Section s; if (o) RandomMatrix(f, m, n, A.p, A.ld); else RandomMatrix(f, m, n, A.p, A.ld, G); } snprintf(what, sizeof what, "RandomMatrix %zux%zu ld %zu", m, n, A.ld); ref::M R = A.get(what); A.padding_ok(what); sim::observe(ref::hash(R)); return; }
    if (op == 3) {
        if (!m || !n) { sim::skip("a non-zero matrix has entries"); return; }
        { sim::Section s; NonZeroRandomMatrix(f, m, n, A.p, A.ld, G); }
        snprintf(what, sizeof what, "NonZeroRandomMatrix %zux%zu mod %lld", m, n, p); ref::M R = A.get(what); A.padding_ok(what);
        bool nz = false; for (i64 x : R.a) nz |= x != 0;
        if (!nz) sim::violation("wrong-result", "%s is zero", what);
        sim::observe(ref::hash(R)); return;
    }
    if (op == 4) {
        FFLAS_UPLO up = Pbool("up") ? FflasUpper : FflasLower; FFLAS_DIAG di = Pbool("unit") ? FflasUnit : FflasNonUnit; bool ns = Pbool("nonsing"), o = own();
        { sim::Section s; if (o) RandomTriangularMatrix(f, m, n, up, di, ns, A.p, A.ld); else RandomTriangularMatrix(f, m, n, up, di, ns, A.p, A.ld, G); }
        snprintf(what, sizeof what, "RandomTriangularMatrix %s %s %s %zux%zu ld %zu mod %lld", up == FflasUpper ? "upper" : "lower", di == FflasUnit ? "unit" : "non-unit", ns ? "nonsingular" : "any", m, n, A.ld, p);
        A.padding_ok(what); ref::M R = A.get(what);
        for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) {
            if ((up == FflasUpper ? j < i : j > i) && R(i, j)) sim::violation("wrong-result", "%s: entry (%zu,%zu) of the opposite triangle is %lld", what, i, j, R(i, j));
            if (i == j && di == FflasUnit && R(i, j) != 1) sim::violation("wrong-result", "%s: diagonal entry %zu is %lld", what, i, R(i, j));
            if (i == j && di == FflasNonUnit && ns && !R(i, j)) sim::violation("wrong-result", "%s: diagonal entry %zu is zero", what, i);
        }
        sim::observe(ref::hash(R)); return;
    }
    if (op == 5) {
        size_t r = (size_t)Psize("r", 0, (long)std::min(m, n)); bool o = own();
        { sim::Section s; if (o) RandomMatrixWithRank(f, m, n, r, A.p, A.ld); else RandomMatrixWithRank(f, m, n, r, A.p, A.ld, G); }
        snprintf(what, sizeof what, "RandomMatrixWithRank %zux%zu rank %zu ld %zu mod %lld", m, n, r, A.ld, p);
        A.padding_ok(what); ref::M R = A.get(what); size_t k = ref::rank(R, p);
        if (k != r) sim::violation("wrong-result", "%s has rank %zu", what, k);
        sim::observe(ref::hash(R)); return;
    }
    if (op == 6) {
        i64 d = (i64)(Pseed("d") % (uint64_t)p); if (Pbool("zero", 15)) d = 0; F::Element de; put(f, de, d);
        if (!n) d = 1 % p, put(f, de, d);
        { sim::Section s; RandomMatrixWithDet(f, n, de, A.p, A.ld, G); }
        snprintf(what, sizeof what, "RandomMatrixWithDet n=%zu d=%lld ld %zu mod %lld", n, d, A.ld, p);
        A.padding_ok(what); ref::M R = A.get(what); i64 k = ref::det(R, p);
        if (k != d) sim::violation("wrong-result", "%s has determinant %lld", what, k);
        sim::observe(ref::hash(R)); return;
    }
    bool ns = Pbool("nonsing");
    { sim::Section s; RandomSymmetricMatrix(f, n, ns, A.p, A.ld, G); }
    snprintf(what, sizeof what, "RandomSymmetricMatrix n=%zu %s ld %zu mod %lld", n, ns ? "nonsingular" : "any", A.ld, p);
    A.padding_ok(what); ref::M R = A.get(what);
    if (!(R == ref::transpose(R))) sim::violation("wrong-result", "%s is not symmetric", what);
    if (ns && ref::rank(R, p) != n) sim::violation("wrong-result", "%s is singular", what);
    sim::observe(ref::hash(R));
}
WORKLOADF(rndrpm) {
    sim::enter("seq");
    draw_thresholds(false);
    F f = make_field<F>(); i64 p = charac(f);
    F::RandIter G = make_gen(f); lib_seed();
    int op = (int)P("op", 0, 6);
    size_t hi = (size_t)Pick("hi", {4, 8, 13});
    size_t m = (size_t)Psize("m", 0, (long)hi), n = (size_t)Psize("n", 0, (long)hi);
    char what[160];
    auto draw = [&](size_t N, size_t R, uint64_t sd) { std::vector<size_t> v(N), o; for (size_t i = 0; i < N; ++i) v[i] = i; sim::Rng g(sd); for (size_t i = 0; i < R; ++i) { size_t j = i + (size_t)g.below(N - i); std::swap(v[i], v[j]); o.push_back(v[i]); } return o; };
    if (op == 0) {
        size_t r = (size_t)Psize("r", 0, (long)n); Perm S(r), T(n);
        { sim::Section s; RandomIndexSubset(n, r, S.p); RandomPermutation(n, T.p); }
        subset_ok("RandomIndexSubset", std::vector<size_t>(S.p, S.p + r), n); T.lapack("RandomPermutation", n, n);
        for (size_t i = 0; i < r; ++i) sim::observe(S.p[i]);
        for (size_t i = 0; i < n; ++i) sim::observe(T.p[i]);
        return;
    }
    if (op == 1 || op == 2) { // subpermutations
        bool sym = op == 2; if (sym) m = n;
        size_t r = (size_t)Psize("r", 0, (long)std::min(m, n)); if (Pbool("nearly_full", 40)) r = std::min(m, n) - std::min(std::min(m, n), (size_t)P("deficit", 0, 2)); Perm R(r), C(r);
        { sim::Section s; if (sym) RandomSymmetricRankProfileMatrix(n, r, R.p, C.p); else RandomRankProfileMatrix(m, n, r, R.p, C.p); }
        std::vector<size_t> rv(R.p, R.p + r), cv(C.p, C.p + r);
        subset_ok("rows of the random rank profile matrix", rv, m); subset_ok("columns of the random rank profile matrix", cv, n);
        if (sym) for (size_t k = 0; k < r; ++k) { bool ok = false; for (size_t l = 0; l < r; ++l) ok |= rv[l] == cv[k] && cv[l] == rv[k]; if (!ok) sim::violation("wrong-result", "RandomSymmetricRankProfileMatrix(n=%zu, r=%zu): (%zu,%zu) without its mirror image", n, r, rv[k], cv[k]); }
        for (size_t k = 0; k < r; ++k) { sim::observe(rv[k]); sim::observe(cv[k]); }
        return;
    }
    if (op == 3 || op == 4) { // prescribed or random rank profile matrix
        size_t r = (size_t)Psize("r", 0, (long)std::min(m, n)); bool o = own();
        Mat<F> A(f, m, n, "A"); std::vector<size_t> rv = draw(m, r, Pseed("rv")), cv = draw(n, r, Pseed("cv")); Perm R(r), C(r);
        for (size_t k = 0; k < r; ++k) { R.p[k] = rv[k]; C.p[k] = cv[k]; }
        { sim::Section s; if (op == 3) { if (o) RandomMatrixWithRankandRPM(f, m, n, r, A.p, A.ld, R.p, C.p); else RandomMatrixWithRankandRPM(f, m, n, r, A.p, A.ld, R.p, C.p, G); } else { if (o) RandomMatrixWithRankandRandomRPM(f, m, n, r, A.p, A.ld); else RandomMatrixWithRankandRandomRPM(f, m, n, r, A.p, A.ld, G); } }
        snprintf(what, sizeof what, "%s %zux%zu rank %zu ld %zu mod %lld", op == 3 ? "RandomMatrixWithRankandRPM" : "RandomMatrixWithRankandRandomRPM", m, n, r, A.ld, p);
        A.padding_ok(what); ref::M M = A.get(what); size_t k = ref::rank(M, p);
        if (k != r) sim::violation("wrong-result", "%s has rank %zu", what, k);
        if (op == 3) { ref::M E(m, n); for (size_t i = 0; i < r; ++i) E(rv[i], cv[i]) = 1; if (!(ref::rank_profile_matrix(M, p) == E)) sim::violation("wrong-result", "%s has another rank profile matrix", what); }
        sim::observe(ref::hash(M)); return;
    }
    if (op == 5 || op == 6) { // symmetric
        size_t r = (size_t)Psize("r", 0, (long)n); if (Pbool("nearly_full", 40)) r = n - std::min(n, (size_t)P("deficit", 0, 2)); bool o = own(); Mat<F> A(f, n, n, "A");
        std::vector<size_t> v = draw(n, r, Pseed("rv")), w = v; sim::Rng g(Pseed("pair"));
        for (size_t i = 0; i + 1 < r; i += 2) if (g.below(2)) std::swap(w[i], w[i + 1]);
        Perm R(r), C(r); for (size_t k = 0; k < r; ++k) { R.p[k] = v[k]; C.p[k] = w[k]; }
        { sim::Section s; if (op == 5) { if (o) RandomSymmetricMatrixWithRankandRPM(f, n, n, r, A.p, A.ld, R.p, C.p); else RandomSymmetricMatrixWithRankandRPM(f, n, r, A.p, A.ld, R.p, C.p, G); } else { if (o) RandomSymmetricMatrixWithRankandRandomRPM(f, n, r, A.p, A.ld); else RandomSymmetricMatrixWithRankandRandomRPM(f, n, r, A.p, A.ld, G); } }
        snprintf(what, sizeof what, "%s n=%zu rank %zu ld %zu mod %lld", op == 5 ? "RandomSymmetricMatrixWithRankandRPM" : "RandomSymmetricMatrixWithRankandRandomRPM", n, r, A.ld, p);
        A.padding_ok(what); ref::M M = A.get(what); size_t k = ref::rank(M, p);
        if (!(M == ref::transpose(M))) sim::violation("wrong-result", "%s is not symmetric", what);
        if (k != r) sim::violation("wrong-result", "%s has rank %zu", what, k);
        if (op == 5) { ref::M E(n, n); for (size_t i = 0; i < r; ++i) E(v[i], w[i]) = 1; if (!(ref::rank_profile_matrix(M, p) == E)) sim::violation("wrong-result", "%s has another rank profile matrix", what); }
        sim::observe(ref::hash(M)); return;
    }
}
WORKLOADF(rndltqs) { // left triangular quasi-separable matrices
    sim::enter("seq");
    F f = make_field<F>(); i64 p = charac(f);
    F::RandIter G = make_gen(f); lib_seed();
    size_t n = (size_t)Psize("n", 2, (long)Pick("hi", {5, 9, 14}));
    size_t r = (size_t)Psize("r", 1, (long)(n - 1)), t = (size_t)Psize("t", 1, (long)std::min(r, n - r));
    char what[160]; snprintf(what, sizeof what, "RandomLTQSMatrixWithRankandQSorder n=%zu r=%zu t=%zu mod %lld", n, r, t, p);
    Mat<F> A(f, n, n, "A");
    { sim::Section s; RandomLTQSMatrixWithRankandQSorder(f, n, r, t, A.p, A.ld, G); }
    A.padding_ok(what); ref::M M = A.get(what);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i + j + 1 >= n && M(i, j)) sim::violation("wrong-result", "%s: entry (%zu,%zu) is not in the left triangle", what, i, j);
    std::vector<std::vector<size_t>> rk(n + 1, std::vector<size_t>(n + 1, 0));
    for (size_t i = 1; i < n; ++i) for (size_t j = 1; i + j <= n; ++j) rk[i][j] = lrank(M, i, j, p);
    size_t piv = 0, order = 0;
    for (size_t i = 1; i < n; ++i) for (size_t j = 1; i + j <= n; ++j) piv += rk[i][j] + rk[i - 1][j - 1] - rk[i - 1][j] - rk[i][j - 1];
    for (size_t i = 1; i < n; ++i) order = std::max(order, rk[i][n - i]);
    if (piv != r) sim::violation("wrong-result", "%s has %zu pivots in its left triangle", what, piv);
    if (order != t) sim::violation("wrong-result", "%s has quasi-separability order %zu", what, order);
    sim::observe(ref::hash(M));
}
WORKLOADF(pfrand) {
    sim::enter("par");
    draw_thresholds(false);
    F f = make_field<F>(); 
    F::RandIter G = make_gen(f);
    size_t m = (size_t)Psize("m", 0, 9), n = (size_t)Psize("n", 0, 9), bs = (size_t)Pick("bs", {0, 1, 2, 3, 5}), th = (size_t)P("threads", 1, 4);
    Mat<F> A(f, m, n, "A", false);
    { sim::Section s; (void)th; PAR_BLOCK { pfrand(f, G, m, n, A.p, bs); } }
    ref::M R = A.get("pfrand"); A.padding_ok("pfrand");
    sim::observe(ref::hash(R));
}
