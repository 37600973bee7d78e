// Elimination: PLUQ (sequential and parallel) and LUdivine, against exact reconstruction and the rank profile matrix.
#include "wl_elim.h"
using namespace FFLAS;
typedef FIELD F;
namespace {
void verify_pluq(const char* nm, const ref::M& a, const ref::M& g, i64 p, bool unit, size_t R, const Perm& P, const Perm& Q) {
    size_t m = a.m, n = a.n;
    size_t want = ref::rank(a, p);
    if (R != want) sim::violation("wrong-result", "%s %zux%zu mod %lld: rank %zu returned, true rank %zu", nm, m, n, p, R, want);
    P.lapack(nm, m, m); Q.lapack(nm, n, n);
    ref::M L(m, R), U(R, n), E(m, R), G(R, n);
    for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < R; ++j) L(i, j) = i == j ? (unit ? g(i, j) : 1) : i > j ? g(i, j) : 0;
    for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < n; ++j) U(i, j) = i == j ? (unit ? 1 : g(i, j)) : j > i ? g(i, j) : 0;
    for (size_t i = 0; i < R; ++i) { E(i, i) = 1; G(i, i) = 1; if (L(i, i) == 0 || U(i, i) == 0) sim::violation("wrong-result", "%s: pivot %zu is zero", nm, i); }
    rows_rev(L, P.p, m); cols_rev(U, Q.p, n);
    rows_rev(E, P.p, m); cols_rev(G, Q.p, n);
    ref::M pr = ref::mul(L, U, p);
    if (!(pr == a)) sim::violation("wrong-result", "%s %zux%zu rank %zu mod %lld: P.L.U.Q differs from the input: %s", nm, m, n, R, p, ref::diff(pr, a).c_str());
    ref::M rpm = ref::mul(E, G, p), wr = ref::rank_profile_matrix(a, p);
    if (!(rpm == wr)) sim::violation("wrong-result", "%s %zux%zu rank %zu mod %lld: the pivots are not those of the rank profile matrix: %s", nm, m, n, R, p, ref::diff(rpm, wr).c_str());
}
}
WORKLOADF(pluq) {
    sim::enter("par");
    bool big = Pbool("big", 3);
    draw_thresholds(big);
    F f = make_field<F>();
    i64 p = charac(f);
    long hi = big ? 280 : Pick("hi", {4, 9, 20, 36, 60});
    size_t m = (size_t)Psize("m", 0, hi), n = (size_t)Psize("n", 0, hi);
    ref::M a = gen_struct(m, n, p, "A");
    Mat<F> A(f, m, n, "A");
    A.set(a);
    bool unit = Pbool("unit");
    FFLAS_DIAG d = unit ? FflasUnit : FflasNonUnit;
    Perm Pp(m), Qp(n);
    int strat = VSEL(4, (int)P("strat", 0, 5));
    size_t nt = (size_t)P("nt", 1, 12), R = 0;
    bool region = Pbool("region", 85);
    {
        sim::Section s;
        typedef ParSeqHelper::Parallel<CuttingStrategy::Recursive, StrategyParameter::Threads> Par;
        if (strat <= 2) {
            Par par(nt);
            if (region) { PAR_BLOCK { R = FFPACK::PLUQ(f, d, m, n, A.p, A.ld, Pp.p, Qp.p, par); } }
            else R = FFPACK::PLUQ(f, d, m, n, A.p, A.ld, Pp.p, Qp.p, par);
        } else if (strat == 3) R = FFPACK::pPLUQ(f, d, m, n, A.p, A.ld, Pp.p, Qp.p);
        else if (strat == 4) R = FFPACK::PLUQ(f, d, m, n, A.p, A.ld, Pp.p, Qp.p);
        else R = FFPACK::PLUQ(f, d, m, n, A.p, A.ld, Pp.p, Qp.p, ParSeqHelper::Sequential(), (size_t)Pick("bc", {256, 1, 2, 5, 10}));
    }
    ref::M g = A.get("factors");
    verify_pluq(strat <= 3 ? "parallel PLUQ" : "PLUQ", a, g, p, unit, R, Pp, Qp);
    A.padding_ok("A");
    if (R < std::min(m, n)) sim::probe("rank_deficient");
    sim::observe(ref::hash(g) + R);
}
WORKLOADF(ludivine) {
    sim::enter("seq");
    draw_thresholds(Pbool("big", 3));
    F f = make_field<F>();
    i64 p = charac(f);
    long hi = Pick("hi", {4, 9, 20, 40, 70});
    size_t m = (size_t)Psize("m", 0, hi), n = (size_t)Psize("n", 0, hi);
    ref::M a = gen_struct(m, n, p, "A");
    Mat<F> A(f, m, n, "A");
    A.set(a);
    bool unit = Pbool("unit"), t = Pbool("trans");
    Perm Pp(t ? m : n), Qp(t ? n : m);
    size_t cut = (size_t)Pick("cut", {0, 1, 4, 16});
    size_t R;
    {
        sim::Section s;
        FFLAS_DIAG d = unit ? FflasUnit : FflasNonUnit;
        if (cut) R = FFPACK::LUdivine(f, d, tr(t), m, n, A.p, A.ld, Pp.p, Qp.p, FFPACK::FfpackSlabRecursive, cut);
        else R = FFPACK::LUdivine(f, d, tr(t), m, n, A.p, A.ld, Pp.p, Qp.p);
    }
    ref::M g = A.get("factors");
    A.padding_ok("A");
    // work on the transpose when the roles of rows and columns are exchanged
    ref::M a2 = t ? ref::transpose(a) : a, g2 = t ? ref::transpose(g) : g;
    size_t M = a2.m, N = a2.n;
    std::vector<size_t> rrp, crp;
    size_t want = ref::profiles(a2, p, rrp, crp);
    if (R != want) sim::violation("wrong-result", "LUdivine %zux%zu mod %lld trans %d: rank %zu returned, true rank %zu", m, n, p, (int)t, R, want);
    Pp.lapack("LUdivine P", R, N);
    for (size_t i = 0; i < R; ++i) if (Qp.p[i] != rrp[i]) sim::violation("wrong-result", "LUdivine %zux%zu mod %lld trans %d: pivot %zu found at %zu, rank profile has %zu", m, n, p, (int)t, i, Qp.p[i], rrp[i]);
    // a2 = C.U with C an M x R column echelon matrix with pivots at rows Q, U upper triangular up to column transpositions
    ref::M C(M, R), U(R, N);
    for (size_t j = 0; j < R; ++j) for (size_t i = Qp.p[j]; i < M; ++i) C(i, j) = i == Qp.p[j] ? (unit ? g2(i, j) : 1) : g2(i, j);
    for (size_t i = 0; i < R; ++i) for (size_t j = i; j < N; ++j) U(i, j) = i == j ? (unit ? 1 : g2(i, j)) : g2(i, j);
    cols_rev(U, Pp.p, R);
    ref::M pr = ref::mul(C, U, p);
    if (!(pr == a2)) sim::violation("wrong-result", "LUdivine %zux%zu rank %zu mod %lld trans %d unit %d: the factors do not multiply back: %s", m, n, R, p, (int)t, (int)unit, ref::diff(pr, a2).c_str());
    sim::observe(ref::hash(g) + R);
}
