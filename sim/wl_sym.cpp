// Symmetric kernels: rank-k and rank-2k updates, symmetric triangular equations, LDLT factorizations.
#include "wl_elim.h"
using namespace FFLAS;
typedef FIELD F;
#define BAD(...) sim::violation("wrong-result", __VA_ARGS__)
namespace {
typedef ParSeqHelper::Parallel<CuttingStrategy::Recursive, StrategyParameter::TwoDAdaptive> PRec;
typedef ParSeqHelper::Parallel<CuttingStrategy::Block, StrategyParameter::Threads> PBlk;
i64 scalar(const char* nm, i64 p) {
    switch (P(nm, 0, 5)) { case 0: return 0; case 1: case 2: return 1; case 3: return p - 1; default: { char b[24]; snprintf(b, sizeof b, "%s.s", nm); return (i64)(Pseed(b) % (uint64_t)p); } }
}
// C holds a symmetric matrix, of which only one triangle is significant
void set_half(Mat<F>& C, const ref::M& c, bool upper, bool junk) {
    for (size_t i = 0; i < c.m; ++i) for (size_t j = 0; j < c.n; ++j) if (!junk || (upper ? j >= i : j <= i)) put(C.f, C.p[i * C.ld + j], c(i, j));
}
void same_half(const F& f, const Mat<F>& C, const ref::M& want, bool upper, const char* what) {
    for (size_t i = 0; i < want.m; ++i) for (size_t j = 0; j < want.n; ++j) if (upper ? j >= i : j <= i) {
        i64 g = get(f, C.p[i * C.ld + j], what);
        if (g != want(i, j)) BAD("%s: entry (%zu,%zu) of the %s triangle is %lld, expected %lld (mod %lld)", what, i, j, upper ? "upper" : "lower", g, want(i, j), charac(f));
    }
}
ref::M sym(size_t n, i64 p, uint64_t seed, int style) {
    ref::M a = rnd_ext(n, n, p, seed, style);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) a(i, j) = a(j, i);
    return a;
}
}
WORKLOADF(fsyrk) {
    sim::enter("par");
    bool big = Pbool("big", 3);
    draw_thresholds(big);
    F f = make_field<F>();
    i64 p = charac(f);
    long hi = big ? 250 : Pick("hi", {6, 12, 24, 40, 64});
    int op = (int)P("op", 0, 8); // 0 plain 1 sequential helper 2 diagonal 3 diagonal parallel 4 block diagonal 5,6 Strassen-Winograd 7 divide and conquer 8 rank-2k
    size_t n = (size_t)Psize("n", 0, hi), k = (size_t)Psize("k", 0, hi);
    bool upper = Pbool("upper"), t = Pbool("trans");
    i64 al = scalar("alpha", p), be = scalar("beta", p);
    int style = (int)P("style", 0, 6);
    ref::M a = rnd_ext(t ? k : n, t ? n : k, p, Pseed("a"), style), b = rnd_ext(a.m, a.n, p, Pseed("b"), style), c = sym(n, p, Pseed("c"), style);
    Mat<F> A(f, a.m, a.n, "A"), B(f, a.m, a.n, "B"), C(f, n, n, "C");
    A.set(a); B.set(b);
    set_half(C, c, upper, Pbool("junk", 30));
    A.snapshot(); B.snapshot();
    FFLAS_UPLO u = upper ? FflasUpper : FflasLower;
    F::Element eal, ebe; put(f, eal, al); put(f, ebe, be);
    size_t incd = (size_t)Pick("incd", {1, 1, 2, 3}), thr = (size_t)Pick("thr", {1, 2, 3, 5, 13, 64}), nt = (size_t)P("nt", 1, 9);
    int w = (int)P("w", 0, 3);
    bool region = Pbool("region", 80);
    // D: diagonal, possibly with 2x2 anti-diagonal blocks (x,x)
    std::vector<i64> d(k); std::vector<bool> two(k, false);
    sim::Rng g(Pseed("d"));
    for (size_t i = 0; i < k; ++i) d[i] = 1 + (i64)g.below((uint64_t)p - 1);
    if (op == 4) for (size_t i = 0; i + 1 < k; ++i) if (g.below(4) == 0) { two[i] = true; d[i + 1] = d[i]; ++i; }
    size_t dl = k ? (k - 1) * incd + 1 : 0;
    F::Element* D = (F::Element*)sim::user_alloc(dl * sizeof(F::Element), 64);
    for (size_t i = 0; i < dl; ++i) memcpy(&D[i], &SENT64, sizeof(F::Element));
    for (size_t i = 0; i < k; ++i) put(f, D[i * incd], d[i]);
    {
        sim::Section s;
        switch (op) {
        case 0: fsyrk(f, u, tr(t), n, k, eal, A.p, A.ld, ebe, C.p, C.ld); break;
        case 1: fsyrk(f, u, tr(t), n, k, eal, A.p, A.ld, ebe, C.p, C.ld, ParSeqHelper::Sequential()); break;
        case 2: if (Pbool("dthr")) fsyrk(f, u, tr(t), n, k, eal, A.p, A.ld, D, incd, ebe, C.p, C.ld); else fsyrk(f, u, tr(t), n, k, eal, A.p, A.ld, D, incd, ebe, C.p, C.ld, thr); break;
        case 3: {
            if (Pbool("blk")) { PBlk h(nt); if (region) { PAR_BLOCK { fsyrk(f, u, tr(t), n, k, eal, A.p, A.ld, D, incd, ebe, C.p, C.ld, h, thr); } } else fsyrk(f, u, tr(t), n, k, eal, A.p, A.ld, D, incd, ebe, C.p, C.ld, h, thr); }
            else { PRec h(nt); if (region) { PAR_BLOCK { fsyrk(f, u, tr(t), n, k, eal, A.p, A.ld, D, incd, ebe, C.p, C.ld, h, thr); } } else fsyrk(f, u, tr(t), n, k, eal, A.p, A.ld, D, incd, ebe, C.p, C.ld, h, thr); }
            break; }
        case 4: fsyrk(f, u, tr(t), n, k, eal, A.p, A.ld, D, incd, two, ebe, C.p, C.ld, thr); break;
        case 5: case 6: { MMHelper<F, MMHelperAlgo::Winograd> H(f, w); fsyrk(f, u, tr(t), n, k, eal, A.p, A.ld, ebe, C.p, C.ld, H); break; }
        case 7: { MMHelper<F, MMHelperAlgo::DivideAndConquer> H(f, w); fsyrk(f, u, tr(t), n, k, eal, A.p, A.ld, ebe, C.p, C.ld, H); break; }
        default: fsyr2k(f, u, tr(t), n, k, eal, A.p, A.ld, B.p, B.ld, ebe, C.p, C.ld);
        }
    }
    ref::M x = t ? ref::transpose(a) : a, y = t ? ref::transpose(b) : b, want; // n x k
    ref::M xd = x;
    if (op >= 2 && op <= 4) for (size_t j = 0; j < k; ++j) {
        if (two[j]) { for (size_t i = 0; i < n; ++i) { xd(i, j) = ref::mulm(x(i, j + 1), d[j], p); xd(i, j + 1) = ref::mulm(x(i, j), d[j], p); } ++j; }
        else for (size_t i = 0; i < n; ++i) xd(i, j) = ref::mulm(x(i, j), d[j], p);
    }
    if (op == 8) { want = ref::mul(x, ref::transpose(y), p); want = ref::add(want, ref::transpose(want), p); }
    else want = ref::mul(xd, ref::transpose(x), p);
    want = ref::add(ref::scale(al, want, p), ref::scale(be, c, p), p);
    char what[120];
    snprintf(what, sizeof what, "symmetric update (op %d) n %zu k %zu trans %d alpha %lld beta %lld", op, n, k, (int)t, al, be);
    same_half(f, C, want, upper, what);
    if (op >= 2 && op <= 4) {
        ref::M ga = A.get("scaled operand"), wa = t ? ref::transpose(xd) : xd;
        if (!(ga == wa)) BAD("%s: A should be overwritten by A.D: %s", what, ref::diff(ga, wa).c_str());
    } else if (op == 5 || op == 6) {
        if (!(A.get("A") == a)) BAD("%s: A was modified", what);
    } else A.unchanged("A");
    B.unchanged("B");
    A.padding_ok("A"); B.padding_ok("B"); C.padding_ok("C");
    sim::observe(ref::hash(want));
}
WORKLOADF(ftrsym) { // X such that A.X = B with A, X triangular; X such that A^T.X + X^T.A = B
    sim::enter("par");
    bool big = Pbool("big", 3);
    draw_thresholds(big);
    F f = make_field<F>();
    i64 p = charac(f);
    bool str = Pbool("str");
    if (!str && p == 2) sim::skip("division by two");
    long hi = big ? 150 : Pick("hi", {4, 9, 20, 40});
    size_t n = (size_t)Psize("n", 0, hi);
    bool left = Pbool("left"), upper = Pbool("upper"), ua = Pbool("unitA"), ub = Pbool("unitB");
    FFLAS_UPLO u = upper ? FflasUpper : FflasLower;
    int style = (int)P("style", 0, 6);
    auto mk = [&](const char* nm, bool unit) {
        ref::M a = rnd_ext(n, n, p, Pseed(nm), style);
        for (size_t i = 0; i < n; ++i) { if (unit) a(i, i) = 1; else if (!a(i, i)) a(i, i) = 1; for (size_t j = 0; j < n; ++j) if (upper ? j < i : j > i) a(i, j) = 0; }
        return a;
    };
    ref::M a = mk("a", ua);
    Mat<F> A(f, n, n, "A"), B(f, n, n, "B");
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (upper ? j > i : j < i) put(f, A.p[i * A.ld + j], a(i, j)); else if (i == j && !ua) put(f, A.p[i * A.ld + j], a(i, j));
    A.snapshot();
    if (str) {
        ref::M b = mk("b", ub);
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (upper ? j > i : j < i) put(f, B.p[i * B.ld + j], b(i, j)); else if (i == j && !ub) put(f, B.p[i * B.ld + j], b(i, j));
        { sim::Section s; FFPACK::ftrstr(f, left ? FflasLeft : FflasRight, u, ua ? FflasUnit : FflasNonUnit, ub ? FflasUnit : FflasNonUnit, n, A.p, A.ld, B.p, B.ld); }
        bool xu = ua && ub;
        ref::M x(n, n);
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (upper ? j >= i : j <= i) x(i, j) = i == j && xu ? 1 : get(f, B.p[i * B.ld + j], "ftrstr result");
        ref::M ax = left ? ref::mul(a, x, p) : ref::mul(x, a, p);
        if (!(ax == b)) BAD("ftrstr %s %s unitA %d unitB %d order %zu mod %lld: %s", left ? "left" : "right", upper ? "upper" : "lower", (int)ua, (int)ub, n, p, ref::diff(ax, b).c_str());
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (!(upper ? j >= i : j <= i) && !B.is_sent(B.p[i * B.ld + j], B.off + i * B.ld + j)) sim::violation("footprint", "ftrstr wrote in the other triangle of B at (%zu,%zu)", i, j);
        sim::observe(ref::hash(x));
    } else {
        ref::M b = sym(n, p, Pseed("b"), style);
        set_half(B, b, upper, Pbool("junk"));
        { sim::Section s; FFPACK::ftrssyr2k(f, u, ua ? FflasUnit : FflasNonUnit, n, A.p, A.ld, B.p, B.ld); }
        ref::M x(n, n);
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (upper ? j >= i : j <= i) x(i, j) = get(f, B.p[i * B.ld + j], "ftrssyr2k result");
        ref::M m1 = upper ? ref::mul(ref::transpose(a), x, p) : ref::mul(a, ref::transpose(x), p);
        ref::M w = ref::add(m1, ref::transpose(m1), p);
        if (!(w == b)) BAD("ftrssyr2k %s unit %d order %zu mod %lld: %s", upper ? "upper" : "lower", (int)ua, n, p, ref::diff(w, b).c_str());
        sim::observe(ref::hash(x));
    }
    A.unchanged("A"); A.padding_ok("A"); B.padding_ok("B");
}
WORKLOADF(fsytrf) {
    sim::enter("par");
    bool big = Pbool("big", 3);
    draw_thresholds(big);
    F f = make_field<F>();
    i64 p = charac(f);
    long hi = big ? 150 : Pick("hi", {4, 9, 20, 36, 60});
    int op = (int)P("op", 0, 6); // 0 plain 1 sequential 2,3 parallel 4 nonunit 5,6 rank-profile revealing
    size_t n = (size_t)Psize("n", 0, hi);
    bool upper = op >= 5 ? true : Pbool("upper");
    if (op >= 5 && p == 2) sim::skip("division by two");
    size_t thr = (size_t)Pick("thr", op >= 5 ? std::vector<long>{2, 3, 5, 9, 17, 64} : std::vector<long>{1, 2, 3, 5, 13, 64}), nt = (size_t)P("nt", 1, 9);
    // symmetric input: U^T.D.U with a random symmetric sub-permutation D, or raw
    int kind = (int)P("kind", 0, 5);
    uint64_t seed = Pseed("a");
    sim::Rng g(seed + 9);
    ref::M a = sym(n, p, seed, kind == 1 ? 3 : 0);
    size_t r = (size_t)Psize("r", 0, (long)n);
    if (kind >= 2) {
        ref::M U = rnd(n, n, p, seed + 1, kind == 4 ? 80 : 0), D(n, n);
        for (size_t i = 0; i < n; ++i) { U(i, i) = 1; for (size_t j = 0; j < i; ++j) U(i, j) = 0; }
        std::vector<size_t> pi(n);
        for (size_t i = 0; i < n; ++i) pi[i] = i;
        if (kind != 5) for (size_t i = n; i > 1; --i) std::swap(pi[i - 1], pi[g.below(i)]);
        size_t rr = kind == 5 ? n : r;
        for (size_t i = 0; i < rr; ++i) {
            i64 v = 1 + (i64)g.below((uint64_t)p - 1);
            if (kind != 5 && i + 1 < rr && g.below(2)) { D(pi[i], pi[i + 1]) = D(pi[i + 1], pi[i]) = v; ++i; }
            else D(pi[i], pi[i]) = v;
        }
        a = kind == 3 ? D : ref::mul(ref::mul(ref::transpose(U), D, p), U, p);
    }
    FFLAS_UPLO u = upper ? FflasUpper : FflasLower;
    Mat<F> A(f, n, n, "A");
    if (op >= 5) A.set(a); else set_half(A, a, upper, Pbool("junk", 30));
    size_t incd = 1;
    F::Element* Dv = (F::Element*)sim::user_alloc((n ? (n - 1) * incd + 1 : 0) * sizeof(F::Element), 64);
    Perm Pp(n);
    bool ok = true; size_t R = 0;
    {
        sim::Section s;
        switch (op) {
        case 0: ok = FFPACK::fsytrf(f, u, n, A.p, A.ld, thr); break;
        case 1: ok = FFPACK::fsytrf(f, u, n, A.p, A.ld, ParSeqHelper::Sequential(), thr); break;
        case 2: case 3: { PBlk h(nt); if (Pbool("region", 80)) { PAR_BLOCK { ok = FFPACK::fsytrf(f, u, n, A.p, A.ld, h, thr); } } else ok = FFPACK::fsytrf(f, u, n, A.p, A.ld, h, thr); break; }
        case 4: ok = FFPACK::fsytrf_nonunit(f, u, n, A.p, A.ld, Dv, incd, ParSeqHelper::Sequential(), thr); break;
        default: R = FFPACK::fsytrf_RPM(f, u, n, A.p, A.ld, Pp.p, thr);
        }
    }
    A.padding_ok("A");
    if (op <= 4) {
        // the factorization exists iff all leading minors are non-zero
        bool grp = true;
        ref::M L = a; // in-place elimination of a copy
        for (size_t i = 0; i < n && grp; ++i) {
            if (!L(i, i)) { grp = false; break; }
            i64 v = ref::invm(L(i, i), p);
            for (size_t k = i + 1; k < n; ++k) { i64 c = ref::mulm(L(k, i), v, p); if (c) for (size_t j = i; j < n; ++j) L(k, j) = ref::mod((ref::i128)L(k, j) - (ref::i128)c * L(i, j), p); }
        }
        if (ok != grp) BAD("fsytrf (op %d) of order %zu mod %lld answered %d, but the leading minors are %s", op, n, p, (int)ok, grp ? "all non-zero" : "not all non-zero");
        if (ok) {
            ref::M T(n, n), D(n, n);
            for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (upper ? j > i : j < i) T(i, j) = get(f, A.p[i * A.ld + j], "fsytrf factor");
            for (size_t i = 0; i < n; ++i) {
                i64 dd = get(f, A.p[i * A.ld + i], "fsytrf diagonal");
                if (op == 4) { T(i, i) = dd; D(i, i) = get(f, Dv[i * incd], "fsytrf D"); } else { T(i, i) = 1; D(i, i) = dd; }
            }
            ref::M w = upper ? ref::mul(ref::mul(ref::transpose(T), D, p), T, p) : ref::mul(ref::mul(T, D, p), ref::transpose(T), p);
            if (!(w == a)) BAD("fsytrf (op %d) %s order %zu threshold %zu mod %lld: the factors do not multiply to A: %s", op, upper ? "upper" : "lower", n, thr, p, ref::diff(w, a).c_str());
            sim::observe(ref::hash(T));
        }
        return;
    }
    size_t want = ref::rank(a, p);
    if (R != want) BAD("fsytrf_RPM order %zu threshold %zu mod %lld: rank %zu, true rank %zu", n, thr, p, R, want);
    std::vector<bool> blk(n, false);
    ref::M T(n, n), D(n, n);
    for (size_t i = 0; i < R; ++i) {
        i64 v = get(f, A.p[i * A.ld + i], "fsytrf_RPM pivot");
        if ((int)Pp.p[i] < 0) {
            if (i + 1 >= R || (int)Pp.p[i + 1] >= 0) BAD("fsytrf_RPM: unpaired 2x2 block mark at position %zu", i);
            Pp.p[i] = (size_t)(-(long)Pp.p[i] - 1); Pp.p[i + 1] = (size_t)(-(long)Pp.p[i + 1] - 1);
            D(i, i + 1) = D(i + 1, i) = v; blk[i] = true; ++i;
        } else D(i, i) = v;
    }
    Pp.lapack("fsytrf_RPM P", n, n);
    for (size_t i = 0; i < R; ++i) { T(i, i) = 1; for (size_t j = i + 1; j < n; ++j) T(i, j) = get(f, A.p[i * A.ld + j], "fsytrf_RPM factor"); }
    ref::M w = ref::mul(ref::mul(ref::transpose(T), D, p), T, p);
    cols_rev(w, Pp.p, n); rows_rev(w, Pp.p, n);
    if (!(w == a)) BAD("fsytrf_RPM order %zu rank %zu threshold %zu mod %lld: P^T.U^T.D.U.P differs from A: %s", n, R, thr, p, ref::diff(w, a).c_str());
    // pivots: rank profile matrix
    ref::M id(n, 1), piv(n, n);
    for (size_t i = 0; i < n; ++i) id(i, 0) = (i64)i;
    rows_fwd(id, Pp.p, n);
    for (size_t i = 0; i < R; ++i) {
        size_t x = (size_t)id(i, 0);
        if (blk[i]) { size_t y = (size_t)id(i + 1, 0); piv(x, y) = piv(y, x) = 1; ++i; } else piv(x, x) = 1;
    }
    ref::M rp = ref::rank_profile_matrix(a, p);
    if (!(piv == rp)) BAD("fsytrf_RPM order %zu rank %zu threshold %zu mod %lld: the pivots are not the rank profile matrix of A: %s", n, R, thr, p, ref::diff(piv, rp).c_str());
    sim::observe(ref::hash(w));
}
