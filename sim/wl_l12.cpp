// Vector and matrix-vector operations, element-wise matrix operations and permutations, sequential and parallel.
#include "wl_elim.h"
#include "wl_vec.h"
using namespace FFLAS;
typedef FIELD F;
#define BAD(...) sim::violation("wrong-result", __VA_ARGS__)
namespace {
i64 scalar(const char* nm, i64 p) {
    switch (P(nm, 0, 4)) { case 0: return 1; case 1: return 0; case 2: return p - 1; default: { char b[32]; snprintf(b, sizeof b, "%s.v", nm); return (i64)(Pseed(b) % (uint64_t)p); } }
}
template <class Cut, class Param> void pdot(const F& f, size_t n, Vec& X, Vec& Y, F::Element& d, size_t nt, int how) {
    ParSeqHelper::Parallel<Cut, Param> par(nt);
    if (how == 0) { PAR_BLOCK { fdot(f, n, X.p, X.inc, Y.p, Y.inc, d, par); } }
    else if (how == 1) { F::Element e = fdot(f, n, X.p, X.inc, Y.p, Y.inc, par); f.addin(d, e); }
    else fdot(f, n, X.p, X.inc, Y.p, Y.inc, d, par);
}
template <class Cut, class Param> void pgemv(const F& f, bool t, size_t m, size_t n, F::Element al, Mat<F>& A, Vec& X, F::Element be, Vec& Y, size_t nt, bool region) {
    ParSeqHelper::Parallel<Cut, Param> par(nt);
    if (region) { PAR_BLOCK { fgemv(f, tr(t), m, n, al, A.p, A.ld, X.p, X.inc, be, Y.p, Y.inc, par); } }
    else fgemv(f, tr(t), m, n, al, A.p, A.ld, X.p, X.inc, be, Y.p, Y.inc, par);
}
}
WORKLOADF(fdot) {
    sim::enter("par");
    draw_thresholds(Pbool("big", 10));
    F f = make_field<F>();
    i64 p = charac(f);
    size_t n = (size_t)Psize("n", 0, Pick("hi", {6, 20, 64, 300}));
    int style = (int)P("style", 0, 6), bst = Pbool("samestyle", 60) ? style : (int)P("bstyle", 0, 6);
    ref::M x = rnd_ext(n, 1, p, Pseed("x"), style), y = rnd_ext(n, 1, p, Pseed("y"), bst);
    Vec X(f, n, "incx"), Y(f, n, "incy");
    X.set(x); Y.set(y); X.snapshot(); Y.snapshot();
    i64 d0 = scalar("d0", p);
    F::Element d; put(f, d, d0);
    size_t nt = (size_t)P("nt", 1, 12);
    int strat = VSEL(5, (int)P("strat", 0, 5)), how = (int)P("how", 0, 2);
    {
        sim::Section s;
        switch (strat) {
        case 0: pdot<CuttingStrategy::Block, StrategyParameter::Threads>(f, n, X, Y, d, nt, how); break;
        case 1: pdot<CuttingStrategy::Row, StrategyParameter::Threads>(f, n, X, Y, d, nt, how); break;
        case 2: pdot<CuttingStrategy::Block, StrategyParameter::Grain>(f, n, X, Y, d, nt, how); break;
        case 3: pdot<CuttingStrategy::Block, StrategyParameter::Fixed>(f, n, X, Y, d, nt, how); break;
        case 4: { F::Element e = fdot(f, n, X.p, X.inc, Y.p, Y.inc, ParSeqHelper::Sequential()); f.addin(d, e); break; }
        default: { F::Element e = fdot(f, n, X.p, X.inc, Y.p, Y.inc); f.addin(d, e); break; }
        }
    }
    i64 want = d0;
    for (size_t i = 0; i < n; ++i) want = ref::mod((ref::i128)want + (ref::i128)x(i, 0) * y(i, 0), p);
    i64 got = get(f, d, "fdot");
    if (got != want) BAD("dot product of %zu entries mod %lld (strategy %d, %zu threads): got %lld, expected %lld", n, p, strat, nt, got, want);
    X.unchanged("fdot x"); Y.unchanged("fdot y");
    sim::observe((uint64_t)got);
}
WORKLOADF(fgemv) {
    sim::enter("par");
    bool big = Pbool("big", 5);
    draw_thresholds(big);
    F f = make_field<F>();
    i64 p = charac(f);
    long hi = big ? 300 : Pick("hi", {6, 12, 24, 64});
    size_t m = (size_t)Psize("m", 0, hi), n = (size_t)Psize("n", 0, hi);
    bool t = Pbool("t");
    i64 al = scalar("alpha", p), be = scalar("beta", p);
    int style = (int)P("style", 0, 6), bst = Pbool("samestyle", 60) ? style : (int)P("bstyle", 0, 6);
    size_t xd = t ? m : n, yd = t ? n : m;
    ref::M a = rnd_ext(m, n, p, Pseed("a"), style), x = rnd_ext(xd, 1, p, Pseed("x"), style), y = rnd_ext(yd, 1, p, Pseed("y"), bst);
    Mat<F> A(f, m, n, "A"); A.set(a); A.snapshot();
    Vec X(f, xd, "incx"), Y(f, yd, "incy");
    X.set(x); X.snapshot();
    if (!(be == 0 && Pbool("uninitY"))) Y.set(y);
    F::Element eal, ebe; put(f, eal, al); put(f, ebe, be);
    size_t nt = (size_t)P("nt", 1, 12);
    int strat = VSEL(5, (int)P("strat", 0, 5));
    bool region = Pbool("region", 85);
    {
        sim::Section s;
        switch (strat) {
        case 0: pgemv<CuttingStrategy::Recursive, StrategyParameter::Threads>(f, t, m, n, eal, A, X, ebe, Y, nt, region); break;
        case 1: pgemv<CuttingStrategy::Row, StrategyParameter::Threads>(f, t, m, n, eal, A, X, ebe, Y, nt, region); break;
        case 2: pgemv<CuttingStrategy::Row, StrategyParameter::Grain>(f, t, m, n, eal, A, X, ebe, Y, nt, region); break;
        case 3: pgemv<CuttingStrategy::Row, StrategyParameter::Fixed>(f, t, m, n, eal, A, X, ebe, Y, nt, region); break;
        case 4: { ParSeqHelper::Sequential q; fgemv(f, tr(t), m, n, eal, A.p, A.ld, X.p, X.inc, ebe, Y.p, Y.inc, q); break; }
        default: fgemv(f, tr(t), m, n, eal, A.p, A.ld, X.p, X.inc, ebe, Y.p, Y.inc);
        }
    }
    ref::M want = ref::scale(al, ref::mul(t ? ref::transpose(a) : a, x, p), p);
    if (be) want = ref::add(want, ref::scale(be, y, p), p);
    ref::M got = Y.get("fgemv result");
    if (!(got == want)) BAD("matrix-vector product %zux%zu trans %d mod %lld alpha %lld beta %lld strategy %d: %s", m, n, (int)t, p, al, be, strat, ref::diff(got, want).c_str());
    A.unchanged("fgemv A"); X.unchanged("fgemv x"); Y.gaps("fgemv y");
    sim::observe(ref::hash(got));
}
WORKLOADF(fger) {
    sim::enter("seq");
    draw_thresholds(Pbool("big", 5));
    F f = make_field<F>();
    i64 p = charac(f);
    long hi = Pick("hi", {6, 12, 40});
    size_t m = (size_t)Psize("m", 0, hi), n = (size_t)Psize("n", 0, hi);
    i64 al = scalar("alpha", p);
    int style = (int)P("style", 0, 6), bst = Pbool("samestyle", 60) ? style : (int)P("bstyle", 0, 6);
    ref::M a = rnd_ext(m, n, p, Pseed("a"), style), x = rnd_ext(m, 1, p, Pseed("x"), style), y = rnd_ext(n, 1, p, Pseed("y"), bst);
    Mat<F> A(f, m, n, "A"); A.set(a);
    Vec X(f, m, "incx"), Y(f, n, "incy");
    X.set(x); Y.set(y); X.snapshot(); Y.snapshot();
    F::Element eal; put(f, eal, al);
    { sim::Section s; fger(f, m, n, eal, X.p, X.inc, Y.p, Y.inc, A.p, A.ld); }
    ref::M want = ref::add(a, ref::scale(al, ref::mul(x, ref::transpose(y), p), p), p), got = A.get("fger result");
    if (!(got == want)) BAD("rank-one update %zux%zu mod %lld alpha %lld: %s", m, n, p, al, ref::diff(got, want).c_str());
    A.padding_ok("A"); X.unchanged("x"); Y.unchanged("y");
    sim::observe(ref::hash(got));
}
// element-wise operations on matrices
WORKLOADF(felem) {
    sim::enter("par");
    draw_thresholds(Pbool("big", 5));
    F f = make_field<F>();
    i64 p = charac(f);
    long hi = Pick("hi", {6, 12, 40});
    size_t m = (size_t)Psize("m", 0, hi), n = (size_t)Psize("n", 0, hi);
    int style = (int)P("style", 0, 6), op = VSEL((int)P("cop", 6, 22), (int)P("op", 0, 22));
    i64 al = scalar("alpha", p), be = scalar("beta", p);
    ref::M a = rnd_ext(m, n, p, Pseed("a"), style), b = rnd_ext(m, n, p, Pseed("b"), style), c = rnd_ext(m, n, p, Pseed("c"), style);
    Mat<F> A(f, m, n, "A"), B(f, m, n, "B"), C(f, m, n, "C", op != 5);
    A.set(a); B.set(b); C.set(c);
    A.snapshot(); B.snapshot();
    F::Element eal, ebe; put(f, eal, al); put(f, ebe, be);
    size_t nt = (size_t)P("nt", 1, 10);
    bool region = Pbool("region", 85), eq = false;
    ref::M want = c, wantB = b;
    i64 m1 = p - 1;
    // unreduced input for the reductions: representatives shifted by multiples of p
    if (op == 4 || op == 17) {
        sim::Rng g(Pseed("shift"));
        long room = (long)(std::min<double>((double)(sizeof(F::Element) == 4 ? (std::is_integral<F::Element>::value ? 2147483647.0 : 16777216.0) : (std::is_integral<F::Element>::value ? 4e18 : 9007199254740992.0)), 4e18) / (double)p) - 2;
        if (room > 1000000) room = 1000000;
        for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) { long k = room > 0 ? (long)g.below((uint64_t)room) : 0; if (g.below(2) && op == 4 && std::is_signed<F::Element>::value) k = -k; C.p[i * C.ld + j] = (F::Element)((double)0) + (F::Element)(c(i, j) + k * p); if (op == 17) { B.p[i * B.ld + j] = C.p[i * C.ld + j]; } }
        B.snapshot();
    }
    {
        sim::Section s;
        switch (op) {
#define PAR(X) if (region) { PAR_BLOCK { X; } } else { X; } break
        case 0: PAR(pfadd(f, m, n, A.p, A.ld, B.p, B.ld, C.p, C.ld, nt));
        case 1: PAR(pfsub(f, m, n, A.p, A.ld, B.p, B.ld, C.p, C.ld, nt));
        case 2: PAR(pfaddin(f, m, n, B.p, B.ld, C.p, C.ld, nt));
        case 3: PAR(pfsubin(f, m, n, B.p, B.ld, C.p, C.ld, nt));
        case 4: PAR(pfreduce(f, m, n, C.p, C.ld, nt));
        case 5: PAR(pfzero(f, m, n, C.p, (size_t)P("bs", 0, 8)));
        case 6: fadd(f, m, n, A.p, A.ld, B.p, B.ld, C.p, C.ld); break;
        case 7: fsub(f, m, n, A.p, A.ld, B.p, B.ld, C.p, C.ld); break;
        case 8: faddin(f, m, n, B.p, B.ld, C.p, C.ld); break;
        case 9: fsubin(f, m, n, B.p, B.ld, C.p, C.ld); break;
        case 10: fadd(f, m, n, A.p, A.ld, eal, B.p, B.ld, C.p, C.ld); break;
        case 11: faxpy(f, m, n, eal, B.p, B.ld, C.p, C.ld); break;
        case 12: fscal(f, m, n, eal, B.p, B.ld, C.p, C.ld); break;
        case 13: fscalin(f, m, n, eal, C.p, C.ld); break;
        case 14: fneg(f, m, n, B.p, B.ld, C.p, C.ld); break;
        case 15: fnegin(f, m, n, C.p, C.ld); break;
        case 16: fassign(f, m, n, B.p, B.ld, C.p, C.ld); break;
        case 17: freduce(f, m, n, B.p, B.ld, C.p, C.ld); break;
        case 18: fidentity(f, m, n, C.p, C.ld, eal); break;
        case 19: fmove(f, m, n, C.p, C.ld, B.p, B.ld); break;
        case 20: eq = fequal(f, m, n, A.p, A.ld, Pbool("same") ? A.p : B.p, Pbool("same") ? A.ld : B.ld); break;
        case 21: eq = fiszero(f, m, n, B.p, B.ld); break;
        default: fzero(f, m, n, C.p, C.ld); break;
        }
    }
    switch (op) {
    case 0: case 6: want = ref::add(a, b, p); break;
    case 1: case 7: want = ref::add(a, ref::scale(m1, b, p), p); break;
    case 2: case 8: want = ref::add(c, b, p); break;
    case 3: case 9: want = ref::add(c, ref::scale(m1, b, p), p); break;
    case 5: case 22: want = ref::M(m, n); break;
    case 10: want = ref::add(a, ref::scale(al, b, p), p); break;
    case 11: want = ref::add(c, ref::scale(al, b, p), p); break;
    case 12: want = ref::scale(al, b, p); break;
    case 13: want = ref::scale(al, c, p); break;
    case 14: want = ref::scale(m1, b, p); break;
    case 15: want = ref::scale(m1, c, p); break;
    case 16: want = b; break;
    case 18: want = ref::M(m, n); for (size_t i = 0; i < std::min(m, n); ++i) want(i, i) = al; break;
    case 19: want = b; wantB = ref::M(m, n); break;
    case 20: { bool w = Pbool("same") || a == b; if (w != eq) BAD("fequal answered %d on %s matrices", (int)eq, w ? "equal" : "different"); break; }
    case 21: { bool w = b == ref::M(m, n); if (w != eq) BAD("fiszero answered %d, expected %d", (int)eq, (int)w); break; }
    }
    ref::M got = C.get("element-wise result");
    if (!(got == want)) BAD("element-wise operation %d on %zux%zu matrices mod %lld (alpha %lld): %s", op, m, n, p, al, ref::diff(got, want).c_str());
    if (op == 19) { ref::M g = B.get("fmove source"); if (!(g == wantB)) BAD("fmove left its source %s", ref::diff(g, wantB).c_str()); }
    else B.unchanged("B");
    A.unchanged("A");
    A.padding_ok("A"); B.padding_ok("B"); C.padding_ok("C");
    sim::observe(ref::hash(got));
}
// permutations: application (sequential, parallel, monotonic), conversions, compositions, block shuffles
WORKLOADF(perm) {
    sim::enter("par");
    draw_thresholds(Pbool("big", 5));
    F f = make_field<F>();
    i64 p = charac(f);
    long hi = Pick("hi", {4, 9, 20, 50});
    int op = VSEL((int)Pick("cop", {0, 5, 6, 7, 8, 9}), (int)P("op", 0, 9));
    size_t n = (size_t)Psize("n", 0, hi), w = (size_t)Psize("w", 0, Pbool("wide", 10) ? 90 : hi);
    bool left = Pbool("left"), t = Pbool("t");
    size_t nt = (size_t)P("nt", 1, 8);
    bool region = Pbool("region", 85);
    sim::Rng g(Pseed("perm"));
    std::vector<size_t> L(n);
    int dens = (int)P("dens", 0, 2);
    for (size_t i = 0; i < n; ++i) L[i] = dens == 0 || g.below(3) < (uint64_t)dens ? i + (size_t)g.below(n - i) : i;
    typedef ParSeqHelper::Parallel<CuttingStrategy::Block, StrategyParameter::Threads> PT;
    if (op <= 3) { // applyP
        ref::M a = rnd(left ? n : w, left ? w : n, p, Pseed("a"));
        Mat<F> A(f, a.m, a.n, "A"); A.set(a);
        Perm Q(n); for (size_t i = 0; i < n; ++i) Q.p[i] = L[i];
        size_t ib = 0, ie = n;
        if (Pbool("range", 40)) { ib = (size_t)P("ib", 0, (long)n); ie = ib + (size_t)P("ie", 0, (long)(n - ib)); }
        {
            sim::Section s;
            FFLAS_SIDE sd = left ? FflasLeft : FflasRight;
            if (op == 0) FFPACK::applyP(f, sd, tr(t), w, ib, ie, A.p, A.ld, Q.p);
            else if (op == 1) { ParSeqHelper::Parallel<CuttingStrategy::Block, StrategyParameter::Grain> par(nt); if (region) { PAR_BLOCK { FFPACK::applyP(f, sd, tr(t), w, ib, ie, A.p, A.ld, Q.p, par); } } else FFPACK::applyP(f, sd, tr(t), w, ib, ie, A.p, A.ld, Q.p, par); }
            else { PT par(nt); if (region) { PAR_BLOCK { FFPACK::applyP(f, sd, tr(t), w, ib, ie, A.p, A.ld, Q.p, par); } } else FFPACK::applyP(f, sd, tr(t), w, ib, ie, A.p, A.ld, Q.p, par); }
        }
        ref::M want = a;
        bool fwd = left != t; // left NoTrans and right Trans go forward
        for (size_t k = ib; k < ie; ++k) { size_t i = fwd ? k : ib + (ie - 1 - k); if (left) swap_rows(want, i, L[i]); else swap_cols(want, i, L[i]); }
        ref::M got = A.get("applyP");
        if (!(got == want)) BAD("applying a permutation of %zu to %zux%zu (left %d trans %d op %d): %s", n, a.m, a.n, (int)left, (int)t, op, ref::diff(got, want).c_str());
        A.padding_ok("A");
        sim::observe(ref::hash(got));
    } else if (op == 4) { // monotonic: first R rows are the pivots, the others keep their order
        size_t R = (size_t)P("R", 0, (long)n);
        std::vector<size_t> M(n);
        for (size_t i = 0; i < n; ++i) M[i] = i;
        std::vector<size_t> L2(n);
        for (size_t i = 0; i < n; ++i) L2[i] = i < R ? L[i] : i;
        for (size_t i = 0; i < n; ++i) std::swap(M[i], M[L2[i]]);
        std::vector<size_t> order(M.begin(), M.begin() + R);
        std::vector<char> piv(n, 0);
        for (size_t i = 0; i < R; ++i) piv[M[i]] = 1;
        bool ident = true;
        for (size_t i = 0; i < R; ++i) if (M[i] != i) ident = false;
        for (size_t i = 0; i < n; ++i) if (!piv[i]) order.push_back(i);
        (void)ident;
        ref::M a = rnd(left ? n : w, left ? w : n, p, Pseed("a"));
        Mat<F> A(f, a.m, a.n, "A"); A.set(a);
        Perm Q(n); for (size_t i = 0; i < n; ++i) Q.p[i] = L2[i];
        { sim::Section s; FFPACK::MonotonicApplyP(f, left ? FflasLeft : FflasRight, tr(t), w, (size_t)0, n, A.p, A.ld, Q.p, R); }
        ref::M want = a;
        bool compress = left != t;
        for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < w; ++k) {
            size_t to = compress ? i : order[i], from = compress ? order[i] : i;
            if (left) want(to, k) = a(from, k); else want(k, to) = a(k, from);
        }
        ref::M got = A.get("MonotonicApplyP");
        if (!(got == want)) BAD("monotonic permutation of %zu with %zu pivots on %zux%zu (left %d trans %d): %s", n, R, a.m, a.n, (int)left, (int)t, ref::diff(got, want).c_str());
        A.padding_ok("A");
        sim::observe(ref::hash(got));
    } else if (op <= 6) { // MatrixApplyS / T: rows (columns) R1+R2..M2 exchanged with the pivots found below
        bool S = op == 5;
        size_t R1, R2, R3, R4, K2;
        size_t tot = n;
        K2 = tot ? (size_t)P("K2", 0, (long)tot) : 0;
        R1 = (size_t)P("R1", 0, (long)K2);
        if (S) { R2 = (size_t)P("R2", 0, (long)(K2 - R1)); R3 = (size_t)P("R3", 0, (long)(tot - K2)); R4 = (size_t)P("R4", 0, (long)(tot - K2 - R3)); }
        else { R2 = (size_t)P("R2", 0, (long)(tot - K2)); R3 = (size_t)P("R3", 0, (long)(K2 - R1)); R4 = (size_t)P("R4", 0, (long)(tot - K2 - R2)); }
        std::vector<size_t> order;
        for (size_t i = 0; i < R1; ++i) order.push_back(i);
        if (S) {
            for (size_t i = 0; i < R2; ++i) order.push_back(R1 + i);
            for (size_t i = 0; i < R3 + R4; ++i) order.push_back(K2 + i);
            for (size_t i = R1 + R2; i < K2; ++i) order.push_back(i);
        } else {
            for (size_t i = 0; i < R2; ++i) order.push_back(K2 + i);
            for (size_t i = 0; i < R3; ++i) order.push_back(R1 + i);
            for (size_t i = 0; i < R4; ++i) order.push_back(K2 + R2 + i);
            for (size_t i = R1 + R3; i < K2; ++i) order.push_back(i);
        }
        size_t used = order.size();
        for (size_t i = used; i < tot; ++i) order.push_back(i);
        ref::M a = rnd(S ? tot : w, S ? w : tot, p, Pseed("a"));
        Mat<F> A(f, a.m, a.n, "A"); A.set(a);
        int how = VSEL(0, (int)P("how", 0, 2));
        {
            sim::Section s;
            PT par(nt);
            if (S) {
                if (how == 0) FFPACK::MatrixApplyS(f, A.p, A.ld, w, K2, R1, R2, R3, R4);
                else { PAR_BLOCK { FFPACK::MatrixApplyS(f, A.p, A.ld, w, K2, R1, R2, R3, R4, par); } }
            } else {
                if (how == 0) FFPACK::MatrixApplyT(f, A.p, A.ld, w, K2, R1, R2, R3, R4);
                else { PAR_BLOCK { FFPACK::MatrixApplyT(f, A.p, A.ld, w, K2, R1, R2, R3, R4, par); } }
            }
        }
        ref::M want = a;
        for (size_t i = 0; i < tot; ++i) for (size_t k = 0; k < w; ++k) { if (S) want(i, k) = a(order[i], k); else want(k, i) = a(k, order[i]); }
        ref::M got = A.get("MatrixApply");
        if (!(got == want)) BAD("MatrixApply%s of %zu (%zu: %zu %zu %zu %zu) width %zu: %s", S ? "S" : "T", tot, K2, R1, R2, R3, R4, w, ref::diff(got, want).c_str());
        A.padding_ok("A");
        sim::observe(ref::hash(got));
    } else if (op == 7) { // conversions are inverse to each other and mean the same permutation
        Perm Q(n), M(n), B(n);
        for (size_t i = 0; i < n; ++i) Q.p[i] = L[i];
        { sim::Section s; NT(LAPACKPerm2MathPerm)(M.p, Q.p, n); NT(MathPerm2LAPACKPerm)(B.p, M.p, n); }
        std::vector<size_t> m(n);
        for (size_t i = 0; i < n; ++i) m[i] = i;
        for (size_t i = 0; i < n; ++i) std::swap(m[i], m[L[i]]);
        for (size_t i = 0; i < n; ++i) if (M.p[i] != m[i]) BAD("LAPACK to mathematical permutation of %zu: entry %zu is %zu, expected %zu", n, i, M.p[i], m[i]);
        for (size_t i = 0; i < n; ++i) if (B.p[i] != L[i]) BAD("mathematical to LAPACK permutation of %zu: entry %zu is %zu, expected %zu", n, i, B.p[i], L[i]);
    } else if (op == 8) { // compositions P1 x Diag(I_R, P2)
        size_t R = (size_t)P("R", 0, (long)n);
        Perm P1(n), P2(n - R), M(n);
        for (size_t i = 0; i < n; ++i) P1.p[i] = L[i];
        for (size_t i = 0; i < n - R; ++i) P2.p[i] = i + (size_t)g.below(n - R - i);
        std::vector<size_t> m(n), p2(P2.p, P2.p + (n - R));
        for (size_t i = 0; i < n; ++i) m[i] = i;
        for (size_t i = 0; i < n; ++i) std::swap(m[i], m[L[i]]);
        for (size_t i = 0; i < n - R; ++i) std::swap(m[R + i], m[R + p2[i]]);
        { sim::Section s; NT(composePermutationsLLM)(M.p, P1.p, P2.p, R, n); NT(composePermutationsLLL)(P1.p, P2.p, R, n); }
        for (size_t i = 0; i < n; ++i) if (M.p[i] != m[i]) BAD("composition of permutations of %zu (R %zu): entry %zu is %zu, expected %zu", n, R, i, M.p[i], m[i]);
        P1.lapack("composed permutation", n, n);
        std::vector<size_t> m2(n);
        for (size_t i = 0; i < n; ++i) m2[i] = i;
        for (size_t i = 0; i < n; ++i) std::swap(m2[i], m2[P1.p[i]]);
        if (m2 != m) BAD("composition of permutations of %zu (R %zu) in LAPACK form means another permutation", n, R);
    } else { // cyclic shifts
        ref::M a = rnd(n, w, p, Pseed("a"));
        Mat<F> A(f, n, w, "A"); A.set(a);
        { sim::Section s; if (left) FFPACK::cyclic_shift_row(f, A.p, n, w, A.ld); else FFPACK::cyclic_shift_col(f, A.p, n, w, A.ld); }
        ref::M want = a;
        for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < w; ++k) { if (left) want((i + 1) % n, k) = a(i, k); else want(i, (k + 1) % w) = a(i, k); }
        ref::M got = A.get("cyclic shift");
        if (!(got == want)) BAD("cyclic %s shift of %zux%zu: %s", left ? "row" : "column", n, w, ref::diff(got, want).c_str());
        A.padding_ok("A");
    }
}
