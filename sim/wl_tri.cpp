// Triangular solves, products and inverses, sequential and parallel, against the naive model.
#include "wl_common.h"
using namespace FFLAS;
typedef FIELD F;
namespace {
ref::M tri(const ref::M& a, bool upper, bool unit, i64 p) {
    ref::M t(a.m, a.n);
    for (size_t i = 0; i < a.m; ++i) for (size_t j = 0; j < a.n; ++j) {
        if (i == j) t(i, j) = unit ? 1 : a(i, j);
        else if (upper ? j > i : j < i) t(i, j) = a(i, j);
    }
    return t;
}
// entries of the opposite triangle are garbage that must not be read
void set_tri(Mat<F>& A, const ref::M& a, bool upper, bool unit, bool junk) {
    for (size_t i = 0; i < a.m; ++i) for (size_t j = 0; j < a.n; ++j) {
        bool used = i == j ? !unit : (upper ? j > i : j < i);
        if (used || !junk) put(A.f, A.p[i * A.ld + j], a(i, j));
    }
}
i64 scalar(const char* nm, i64 p) {
    switch (P(nm, 0, 5)) { case 0: return 0; case 1: case 2: return 1; case 3: return p - 1; default: return (i64)(Pseed("scal") % (uint64_t)p); }
}
template <class Cut, class Par> void solve(const F& f, int kind, FFLAS_SIDE s, FFLAS_UPLO u, FFLAS_TRANSPOSE t, FFLAS_DIAG d, size_t m, size_t n, F::Element al, Mat<F>& A, Mat<F>& B, size_t nt, bool region) {
    typedef ParSeqHelper::Parallel<Cut, Par> PS;
    PS ps(nt);
    auto go = [&]() {
        if (kind == 0) { TRSMHelper<StructureHelper::Iterative, PS> H(ps); ftrsm(f, s, u, t, d, m, n, al, A.p, A.ld, B.p, B.ld, H); }
        else ftrsm(f, s, u, t, d, m, n, al, A.p, A.ld, B.p, B.ld, ps);
    };
    if (region) { PAR_BLOCK { go(); } } else go();
}
template <class Cut, class Par> void solvehyb(const F& f, FFLAS_SIDE s, FFLAS_UPLO u, FFLAS_TRANSPOSE t, FFLAS_DIAG d, size_t m, size_t n, F::Element al, Mat<F>& A, Mat<F>& B, size_t nt, bool region) {
    typedef ParSeqHelper::Parallel<Cut, Par> PS;
    PS ps(nt);
    auto go = [&]() { TRSMHelper<StructureHelper::Hybrid, PS> H(ps); ftrsm(f, s, u, t, d, m, n, al, A.p, A.ld, B.p, B.ld, H); };
    if (region) { PAR_BLOCK { go(); } } else go();
}
template <class Cut, class Par> void solverec(const F& f, FFLAS_SIDE s, FFLAS_UPLO u, FFLAS_TRANSPOSE t, FFLAS_DIAG d, size_t m, size_t n, F::Element al, Mat<F>& A, Mat<F>& B, size_t nt, bool region) {
    typedef ParSeqHelper::Parallel<Cut, Par> PS;
    PS ps(nt);
    auto go = [&]() { TRSMHelper<StructureHelper::Recursive, PS> H(ps); ftrsm(f, s, u, t, d, m, n, al, A.p, A.ld, B.p, B.ld, H); };
    if (region) { PAR_BLOCK { go(); } } else go();
}
}
WORKLOADF(ftrsm) {
    sim::enter("par");
    bool big = Pbool("big", 3);
    draw_thresholds(big);
    F f = make_field<F>();
    i64 p = charac(f);
    long hi = big ? 290 : Pick("hi", {5, 12, 24, 40, 64});
    size_t m = (size_t)Psize("m", 0, hi), n = (size_t)Psize("n", 0, hi);
    bool left = Pbool("left"), upper = Pbool("upper"), t = Pbool("trans"), unit = Pbool("unit");
    size_t k = left ? m : n;
    ref::M a = rnd_ext(k, k, p, Pseed("a"), (int)P("style", 0, 6)), b = rnd_ext(m, n, p, Pseed("b"), (int)P("bstyle", 0, 6));
    if (!unit) for (size_t i = 0; i < k; ++i) if (a(i, i) == 0) a(i, i) = 1 + (i64)(i % (size_t)(p - 1));
    i64 al = scalar("alpha", p);
    if (Pbool("bysol")) { // choose the solution, not the right-hand side: extreme solutions stress the delayed updates
        ref::M T0 = tri(a, upper, unit, p);
        if (t) T0 = ref::transpose(T0);
        b = left ? ref::mul(T0, b, p) : ref::mul(b, T0, p);
    }
    Mat<F> A(f, k, k, "A"), B(f, m, n, "B");
    set_tri(A, a, upper, unit, Pbool("junk"));
    B.set(b);
    A.snapshot();
    F::Element eal; put(f, eal, al);
    size_t nt = (size_t)P("nt", 1, 12);
    int strat = VSEL(10, (int)P("strat", 0, 10));
    bool region = Pbool("region", 85);
    FFLAS_SIDE s = left ? FflasLeft : FflasRight;
    FFLAS_UPLO u = upper ? FflasUpper : FflasLower;
    FFLAS_DIAG d = unit ? FflasUnit : FflasNonUnit;
    {
        sim::Section sec;
        typedef CuttingStrategy::Row Row; typedef CuttingStrategy::Block Block; typedef CuttingStrategy::Recursive Rec;
        typedef StrategyParameter::Threads Th; typedef StrategyParameter::Grain Gr; typedef StrategyParameter::Fixed Fx;
        switch (strat) {
        case 0: solve<Row, Th>(f, 0, s, u, tr(t), d, m, n, eal, A, B, nt, region); break;
        case 1: solve<Block, Gr>(f, 0, s, u, tr(t), d, m, n, eal, A, B, nt, region); break;
        case 2: solve<Row, Fx>(f, 0, s, u, tr(t), d, m, n, eal, A, B, nt, region); break;
        case 3: solve<Block, Th>(f, 2, s, u, tr(t), d, m, n, eal, A, B, nt, region); break;
        case 4: solve<Rec, StrategyParameter::TwoDAdaptive>(f, 0, s, u, tr(t), d, m, n, eal, A, B, nt, region); break;
        case 5: solvehyb<Block, Th>(f, s, u, tr(t), d, m, n, eal, A, B, nt, region); break;
        case 6: solvehyb<Rec, StrategyParameter::ThreeD>(f, s, u, tr(t), d, m, n, eal, A, B, nt, region); break;
        case 7: solvehyb<Rec, StrategyParameter::TwoDAdaptive>(f, s, u, tr(t), d, m, n, eal, A, B, nt, region); break;
        case 8: solverec<Block, Th>(f, s, u, tr(t), d, m, n, eal, A, B, nt, region); break;
        case 9: solverec<Rec, StrategyParameter::ThreeDAdaptive>(f, s, u, tr(t), d, m, n, eal, A, B, nt, region); break;
        default: ftrsm(f, s, u, tr(t), d, m, n, eal, A.p, A.ld, B.p, B.ld);
        }
    }
    ref::M x = B.get("ftrsm result");
    ref::M T = tri(a, upper, unit, p);
    if (t) T = ref::transpose(T);
    ref::M lhs = left ? ref::mul(T, x, p) : ref::mul(x, T, p), want = ref::scale(al, b, p);
    if (!(lhs == want)) sim::violation("wrong-result", "triangular solve %zux%zu mod %lld strategy %d: op(A)X != alpha B: %s", m, n, p, strat, ref::diff(lhs, want).c_str());
    A.unchanged("ftrsm A");
    A.padding_ok("A"); B.padding_ok("B");
    sim::observe(ref::hash(x));
}
WORKLOADF(ftrmm) {
    sim::enter("seq");
    draw_thresholds(false);
    F f = make_field<F>();
    i64 p = charac(f);
    long hi = Pick("hi", {5, 12, 24, 40, 90});
    size_t m = (size_t)Psize("m", 0, hi), n = (size_t)Psize("n", 0, hi);
    bool left = Pbool("left"), upper = Pbool("upper"), t = Pbool("trans"), unit = Pbool("unit"), three = VSEL(false, Pbool("three"));
    size_t k = left ? m : n;
    ref::M a = rnd_ext(k, k, p, Pseed("a"), (int)P("style", 0, 6)), b = rnd_ext(m, n, p, Pseed("b"), (int)P("bstyle", 0, 6)), c = rnd_ext(m, n, p, Pseed("c"), 0);
    i64 al = scalar("alpha", p), be = scalar("beta", p);
    Mat<F> A(f, k, k, "A"), B(f, m, n, "B"), C(f, m, n, "C");
    set_tri(A, a, upper, unit, Pbool("junk"));
    B.set(b);
    C.set(c);
    A.snapshot();
    F::Element eal, ebe; put(f, eal, al); put(f, ebe, be);
    FFLAS_SIDE s = left ? FflasLeft : FflasRight;
    FFLAS_UPLO u = upper ? FflasUpper : FflasLower;
    FFLAS_DIAG d = unit ? FflasUnit : FflasNonUnit;
    if (three) B.snapshot();
    {
        sim::Section sec;
        if (three) ftrmm(f, s, u, tr(t), d, m, n, eal, A.p, A.ld, B.p, B.ld, ebe, C.p, C.ld);
        else ftrmm(f, s, u, tr(t), d, m, n, eal, A.p, A.ld, B.p, B.ld);
    }
    ref::M T = tri(a, upper, unit, p);
    if (t) T = ref::transpose(T);
    ref::M want = ref::scale(al, left ? ref::mul(T, b, p) : ref::mul(b, T, p), p);
    if (three) want = ref::add(want, ref::scale(be, c, p), p);
    ref::M got = three ? C.get("ftrmm result") : B.get("ftrmm result");
    if (!(got == want)) sim::violation("wrong-result", "triangular product %zux%zu mod %lld: %s", m, n, p, ref::diff(got, want).c_str());
    A.unchanged("ftrmm A");
    if (three) B.unchanged("ftrmm B");
    A.padding_ok("A"); B.padding_ok("B"); C.padding_ok("C");
    sim::observe(ref::hash(got));
}
WORKLOADF(ftrtri) {
    sim::enter("seq");
    draw_thresholds(false);
    F f = make_field<F>();
    i64 p = charac(f);
    size_t n = (size_t)Psize("n", 0, Pick("hi", {5, 12, 24, 40, 90}));
    bool upper = Pbool("upper"), unit = Pbool("unit");
    int op = VSEL((int)Pick("cop", {0, 2, 3}), (int)P("op", 0, 3));
    ref::M a = rnd_ext(n, n, p, Pseed("a"), (int)P("style", 0, 6));
    if (!unit) for (size_t i = 0; i < n; ++i) if (a(i, i) == 0) a(i, i) = 1;
    Mat<F> A(f, n, n, "A");
    FFLAS_UPLO u = upper ? FflasUpper : FflasLower;
    FFLAS_DIAG d = unit ? FflasUnit : FflasNonUnit;
    if (op <= 1) { // inverse in place
        A.set(a);
        size_t th = (size_t)Pick("th", {32, 1, 2, 5});
        { sim::Section s; if (op) FFPACK::ftrtri(f, u, d, n, A.p, A.ld, th); else FFPACK::ftrtri(f, u, d, n, A.p, A.ld); }
        ref::M g = A.get("ftrtri result");
        ref::M T = tri(a, upper, unit, p), X = tri(g, upper, unit, p);
        if (!(ref::mul(T, X, p) == ref::identity(n))) sim::violation("wrong-result", "triangular inverse of order %zu mod %lld: T.T^-1 != I", n, p);
        // the opposite triangle (and a unit diagonal) is not touched
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
            bool used = i == j ? !unit : (upper ? j > i : j < i);
            if (!used && g(i, j) != a(i, j)) sim::violation("footprint", "triangular inverse of order %zu: entry (%zu,%zu) outside the triangle was changed", n, i, j);
        }
        sim::observe(ref::hash(g));
    } else { // product of the two triangular factors stored in one matrix
        A.set(a);
        FFLAS_SIDE sd = op == 2 ? FflasLeft : FflasRight;
        { sim::Section s; FFPACK::ftrtrm(f, sd, d, n, A.p, A.ld); }
        // Left: U.L, Right: L.U ; with diag telling which factor has the unit diagonal (L unit iff NonUnit given for U)
        ref::M g = A.get("ftrtrm result");
        ref::M U = tri(a, true, unit, p), L = tri(a, false, !unit, p);
        ref::M want = op == 2 ? ref::mul(U, L, p) : ref::mul(L, U, p);
        if (!(g == want)) sim::violation("wrong-result", "product of triangular factors of order %zu mod %lld side %d unit %d: %s", n, p, (int)sd, (int)unit, ref::diff(g, want).c_str());
        sim::observe(ref::hash(g));
    }
    A.padding_ok("A");
}
WORKLOADF(ftrsv) {
    sim::enter("seq");
    draw_thresholds(false);
    F f = make_field<F>();
    i64 p = charac(f);
    size_t n = (size_t)Psize("n", 0, Pick("hi", {5, 12, 40, 90}));
    bool upper = Pbool("upper"), t = Pbool("trans"), unit = Pbool("unit");
    ref::M a = rnd_ext(n, n, p, Pseed("a"), (int)P("style", 0, 6)), b = rnd_ext(n, 1, p, Pseed("b"), (int)P("bstyle", 0, 6));
    if (!unit) for (size_t i = 0; i < n; ++i) if (a(i, i) == 0) a(i, i) = p - 1;
    if (Pbool("bysol")) { ref::M T0 = tri(a, upper, unit, p); if (t) T0 = ref::transpose(T0); b = ref::mul(T0, b, p); }
    Mat<F> A(f, n, n, "A"), X(f, n, 1, "X");
    set_tri(A, a, upper, unit, Pbool("junk"));
    X.set(b);
    A.snapshot();
    { sim::Section s; ftrsv(f, upper ? FflasUpper : FflasLower, tr(t), unit ? FflasUnit : FflasNonUnit, n, A.p, A.ld, X.p, (int)X.ld); }
    ref::M x = X.get("ftrsv result");
    ref::M T = tri(a, upper, unit, p);
    if (t) T = ref::transpose(T);
    ref::M lhs = ref::mul(T, x, p);
    if (!(lhs == b)) sim::violation("wrong-result", "triangular vector solve of order %zu mod %lld: %s", n, p, ref::diff(lhs, b).c_str());
    A.unchanged("ftrsv A"); A.padding_ok("A"); X.padding_ok("x");
    sim::observe(ref::hash(x));
}
