// The drivers a user calls: rank, determinant, singularity, solving, inverse, echelon forms, rank profiles, null space.
#include "wl_elim.h"
#include "wl_vec.h"
using namespace FFLAS;
typedef FIELD F;
typedef ParSeqHelper::Parallel<CuttingStrategy::Recursive, StrategyParameter::Threads> Par;
#define BAD(...) sim::violation("wrong-result", __VA_ARGS__)
namespace {
struct Setup { F f; i64 p; long hi; Setup() : f(make_field<F>()), p(charac(f)), hi(0) {} };
long dims(bool big) { return big ? 150 : Pick("hi", {4, 9, 20, 36, 60}); }
ref::M rref(ref::M A, i64 p, std::vector<size_t>& piv) {
    size_t r = 0;
    for (size_t j = 0; j < A.n && r < A.m; ++j) {
        size_t i = r;
        while (i < A.m && !A(i, j)) ++i;
        if (i == A.m) continue;
        swap_rows(A, i, r);
        i64 v = ref::invm(A(r, j), p);
        for (size_t k = 0; k < A.n; ++k) A(r, k) = ref::mulm(A(r, k), v, p);
        for (size_t a = 0; a < A.m; ++a) if (a != r && A(a, j)) { i64 c = A(a, j); for (size_t k = 0; k < A.n; ++k) A(a, k) = ref::mod((ref::i128)A(a, k) - (ref::i128)c * A(r, k), p); }
        piv.push_back(j); ++r;
    }
    return A;
}
ref::M sub(const ref::M& A, const std::vector<size_t>& r, const std::vector<size_t>& c) { ref::M X(r.size(), c.size()); for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < c.size(); ++j) X(i, j) = A(r[i], c[j]); return X; }
}
WORKLOADF(rankdet) {
    sim::enter("par");
    bool big = Pbool("big", 3);
    draw_thresholds(big);
    Setup S; F& f = S.f; i64 p = S.p;
    long hi = dims(big);
    int op = VSEL((int)Pick("cop", {0, 3, 4}), (int)P("op", 0, 7));
    size_t m = (size_t)Psize("m", 0, hi), n = op >= 4 || Pbool("square", 30) ? m : (size_t)Psize("n", 0, hi);
    ref::M a = op >= 4 && Pbool("reg") ? gen_regular(m, p, "A") : gen_struct(m, n, p, "A");
    Mat<F> A(f, m, n, "A");
    A.set(a);
    size_t nt = (size_t)P("nt", 0, 9), R = 0;
    F::Element d; f.init(d);
    bool sing = false;
    Perm Pp(m), Qp(n);
    bool pq = VSEL(false, Pbool("pq"));
    {
        sim::Section s;
        switch (op) {
        case 0: R = FFPACK::Rank(f, m, n, A.p, A.ld); break;
        case 1: R = FFPACK::pRank(f, m, n, A.p, A.ld, nt); break;
        case 2: { Par h(nt ? nt : 2); PAR_BLOCK { R = FFPACK::Rank(f, m, n, A.p, A.ld, h); } break; }
        case 3: sing = FFPACK::IsSingular(f, m, n, A.p, A.ld); break;
        case 4: if (pq) FFPACK::Det(f, d, n, A.p, A.ld, Pp.p, Qp.p); else FFPACK::Det(f, d, n, A.p, A.ld); break;
        case 5: case 6: if (pq) FFPACK::pDet(f, d, n, A.p, A.ld, nt, Pp.p, Qp.p); else FFPACK::pDet(f, d, n, A.p, A.ld, nt); break;
        default: { Par h(nt ? nt : 2); PAR_BLOCK { FFPACK::Det(f, d, n, A.p, A.ld, h); } break; }
        }
    }
    A.padding_ok("A");
    size_t want = ref::rank(a, p);
    if (op <= 2 && R != want) BAD("rank of a %zux%zu matrix mod %lld (op %d): got %zu, true rank %zu", m, n, p, op, R, want);
    if (op == 3) { bool w = m != n || want < m; if (sing != w) BAD("IsSingular on a %zux%zu matrix of rank %zu mod %lld answered %d", m, n, want, p, (int)sing); }
    if (op >= 4) { i64 w = n ? ref::det(a, p) : 1, g = get(f, d, "determinant"); if (w != g) BAD("determinant of a %zux%zu matrix mod %lld (op %d): got %lld, expected %lld", n, n, p, op, g, w); }
    sim::observe(R * 3 + sing);
}
WORKLOADF(solve) {
    sim::enter("par");
    bool big = Pbool("big", 3);
    draw_thresholds(big);
    Setup S; F& f = S.f; i64 p = S.p;
    long hi = dims(big);
    int op = VSEL((int)Pick("cop", {0, 3, 4, 5, 6}), (int)P("op", 0, 6)); // 0 Solve 1 pSolve 2 Solve(psH) 3 square fgesv 4 rectangular fgesv 5 fgetrs 6 fgetrs in place
    bool same = op == 3 || op == 6; // solution overwrites the right-hand side of a square system
    bool left = Pbool("left");
    size_t m = (size_t)Psize("m", 1, hi), n = op <= 3 || same ? m : (size_t)Psize("n", 1, hi), k = op <= 2 ? 1 : (size_t)Psize("k", 0, hi);
    bool reg = op <= 2 || (m == n && Pbool("reg", 40));
    ref::M a = reg ? gen_regular(m, p, "A") : gen_struct(m, n, p, "A");
    Mat<F> A(f, m, n, "A");
    A.set(a);
    // right-hand side: consistent by construction, or arbitrary
    size_t br = left ? m : k, bc = left ? k : n, xr = left ? n : k, xc = left ? k : m;
    ref::M b = Pbool("consistent", 60) ? (left ? ref::mul(a, rnd(n, k, p, Pseed("x")), p) : ref::mul(rnd(k, m, p, Pseed("x")), a, p)) : rnd(br, bc, p, Pseed("b"), Pbool("sparse") ? 80 : 0);
    size_t nt = (size_t)P("nt", 0, 9);
    size_t rk = ref::rank(a, p);
    if (op <= 2) {
        if (!left) b = ref::transpose(b);
        Vec X(f, n, "incx"), B(f, m, "incb");
        b = b.n == 1 ? b : ref::transpose(b);
        B.set(b);
        {
            sim::Section s;
            if (op == 0) FFPACK::Solve(f, m, A.p, A.ld, X.p, (int)X.inc, B.p, (int)B.inc);
            else if (op == 1) FFPACK::pSolve(f, m, A.p, A.ld, X.p, (int)X.inc, B.p, (int)B.inc, nt);
            else { Par h(nt ? nt : 3); PAR_BLOCK { FFPACK::Solve(f, m, A.p, A.ld, X.p, (int)X.inc, B.p, (int)B.inc, h); } }
        }
        ref::M x = X.get("solution"), ax = ref::mul(a, x, p);
        if (!(ax == b)) BAD("Solve (op %d) with a %zux%zu invertible matrix mod %lld, incx %zu: A.x differs from b: %s", op, m, m, p, X.inc, ref::diff(ax, b).c_str());
        if (!(B.get("b") == b)) sim::violation("footprint", "Solve modified its right-hand side");
        X.gaps("x"); B.gaps("b"); A.padding_ok("A");
        sim::observe(ref::hash(x));
        return;
    }
    Mat<F> B(f, br, bc, "B"), X(f, xr, xc, "X");
    B.set(b);
    B.snapshot();
    int info = 77;
    FFLAS_SIDE sd = left ? FflasLeft : FflasRight;
    size_t R;
    Perm Pp(m), Qp(n);
    {
        sim::Section s;
        if (op == 3) R = FFPACK::fgesv(f, sd, br, bc, A.p, A.ld, B.p, B.ld, &info);
        else if (op == 4) R = FFPACK::fgesv(f, sd, m, n, k, A.p, A.ld, X.p, X.ld, B.p, B.ld, &info);
        else if (op == 6) { R = FFPACK::PLUQ(f, FflasNonUnit, m, n, A.p, A.ld, Pp.p, Qp.p); FFPACK::fgetrs(f, sd, br, bc, R, A.p, A.ld, Pp.p, Qp.p, B.p, B.ld, &info); }
        else { R = FFPACK::PLUQ(f, FflasNonUnit, m, n, A.p, A.ld, Pp.p, Qp.p); FFPACK::fgetrs(f, sd, m, n, k, R, A.p, A.ld, Pp.p, Qp.p, X.p, X.ld, B.p, B.ld, &info); }
    }
    if (R != rk) BAD("fgesv (op %d) reports rank %zu for a matrix of rank %zu", op, R, rk);
    // consistency decided independently
    ref::M aug(left ? m : m + k, left ? n + k : n);
    for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) aug(i, j) = a(i, j);
    for (size_t i = 0; i < br; ++i) for (size_t j = 0; j < bc; ++j) { if (left) aug(i, n + j) = b(i, j); else aug(m + i, j) = b(i, j); }
    bool cons = ref::rank(aug, p) == rk;
    if (cons != (info == 0)) BAD("fgesv/fgetrs (op %d) on a %zux%zu system of rank %zu with %zu right-hand sides, side %s: info %d but the system is %s", op, m, n, rk, k, left ? "left" : "right", info, cons ? "consistent" : "inconsistent");
    sim::probe(cons ? "consistent_system" : "inconsistent_system");
    if (cons) {
        ref::M x = same ? B.get("solution") : X.get("solution");
        ref::M c = left ? ref::mul(a, x, p) : ref::mul(x, a, p);
        if (!(c == b)) BAD("fgesv/fgetrs (op %d) on a consistent %zux%zu system of rank %zu mod %lld, side %s: the returned X does not satisfy it: %s", op, m, n, rk, p, left ? "left" : "right", ref::diff(c, b).c_str());
        sim::observe(ref::hash(x));
    }
    if (!same) B.unchanged("right-hand side");
    A.padding_ok("A"); B.padding_ok("B"); X.padding_ok("X");
}
WORKLOADF(invert) {
    sim::enter("seq");
    bool big = Pbool("big", 3);
    draw_thresholds(big);
    Setup S; F& f = S.f; i64 p = S.p;
    size_t m = (size_t)Psize("m", 0, dims(big));
    ref::M a = Pbool("reg", 75) ? gen_regular(m, p, "A") : gen_struct(m, m, p, "A");
    Mat<F> A(f, m, m, "A"), X(f, m, m, "X");
    A.set(a); A.snapshot();
    int op = (int)P("op", 0, 2), nul = -5;
    {
        sim::Section s;
        if (op == 0) FFPACK::Invert(f, m, A.p, A.ld, nul);
        else if (op == 1) FFPACK::Invert(f, m, (F::ConstElement_ptr)A.p, A.ld, X.p, X.ld, nul);
        else FFPACK::Invert2(f, m, A.p, A.ld, X.p, X.ld, nul);
    }
    size_t r = ref::rank(a, p);
    if (nul != (int)(m - r)) BAD("Invert (op %d) of a %zux%zu matrix mod %lld: nullity %d, true nullity %zu", op, m, m, p, nul, m - r);
    if (nul == 0) {
        ref::M x = op == 0 ? A.get("inverse") : X.get("inverse"), c = ref::mul(a, x, p);
        if (!(c == ref::identity(m))) BAD("Invert (op %d) of a %zux%zu matrix mod %lld: A.A^-1 is not the identity: %s", op, m, m, p, ref::diff(c, ref::identity(m)).c_str());
        sim::observe(ref::hash(x));
    }
    if (op == 1) A.unchanged("Invert input");
    A.padding_ok("A"); X.padding_ok("X");
}
WORKLOADF(echelon) {
    sim::enter("par");
    bool big = Pbool("big", 3);
    draw_thresholds(big);
    Setup S; F& f = S.f; i64 p = S.p;
    long hi = dims(big);
    size_t m = (size_t)Psize("m", 0, hi), n = (size_t)Psize("n", 0, hi);
    ref::M a = gen_struct(m, n, p, "A");
    Mat<F> A(f, m, n, "A");
    A.set(a);
    bool row = Pbool("row"), red = Pbool("reduced"), par = Pbool("par"), tf = Pbool("transform", 70);
    int tg = (int)P("tag", 0, 3);
    FFPACK::FFPACK_LU_TAG tag = tg == 0 ? FFPACK::FfpackSlabRecursive : FFPACK::FfpackTileRecursive;
    if (tg >= 2 && row && red) tag = tg == 2 ? FFPACK::FfpackGaussJordanSlab : FFPACK::FfpackGaussJordanTile;
    size_t nt = (size_t)P("nt", 0, 9), R;
    Perm Pp(row ? m : n), Qp(row ? n : m);
    for (size_t i = 0; i < Pp.n; ++i) Pp.p[i] = 0;
    for (size_t i = 0; i < Qp.n; ++i) Qp.p[i] = 0;
    {
        sim::Section s;
        if (row) {
            if (red) R = par ? FFPACK::pReducedRowEchelonForm(f, m, n, A.p, A.ld, Pp.p, Qp.p, tf, nt, tag) : FFPACK::ReducedRowEchelonForm(f, m, n, A.p, A.ld, Pp.p, Qp.p, tf, tag);
            else R = par ? FFPACK::pRowEchelonForm(f, m, n, A.p, A.ld, Pp.p, Qp.p, tf, nt, tag) : FFPACK::RowEchelonForm(f, m, n, A.p, A.ld, Pp.p, Qp.p, tf, tag);
        } else {
            if (red) R = par ? FFPACK::pReducedColumnEchelonForm(f, m, n, A.p, A.ld, Pp.p, Qp.p, tf, nt, tag) : FFPACK::ReducedColumnEchelonForm(f, m, n, A.p, A.ld, Pp.p, Qp.p, tf, tag);
            else R = par ? FFPACK::pColumnEchelonForm(f, m, n, A.p, A.ld, Pp.p, Qp.p, tf, nt, tag) : FFPACK::ColumnEchelonForm(f, m, n, A.p, A.ld, Pp.p, Qp.p, tf, tag);
        }
    }
    const char* nm = row ? (red ? "reduced row echelon form" : "row echelon form") : (red ? "reduced column echelon form" : "column echelon form");
    char ctx[160];
    snprintf(ctx, sizeof ctx, "%s of a %zux%zu matrix mod %lld (tag %d, parallel %d, transform %d)", nm, m, n, p, (int)tag, (int)par, (int)tf);
    A.padding_ok("A");
    std::vector<size_t> piv;
    ref::M wr = row ? rref(a, p, piv) : ref::transpose(rref(ref::transpose(a), p, piv));
    if (R != piv.size()) BAD("%s: rank %zu, true rank %zu", ctx, R, piv.size());
    size_t td = row ? m : n;
    Mat<F> T(f, m, n, "T"), X(f, td, td, "X"), Tn(f, row ? R : m, row ? n : R, "Tn");
    FFLAS_UPLO u = row ? FflasUpper : FflasLower;
    ref::M form, formn, tr_(td, td), inpl;
    bool only = Pbool("only"), inplace = Pbool("inplace");
    {
        sim::Section s;
        if (red) FFPACK::getReducedEchelonForm(f, u, m, n, R, Qp.p, A.p, A.ld, T.p, T.ld, false, tag);
        else FFPACK::getEchelonForm(f, u, FflasUnit, m, n, R, Qp.p, A.p, A.ld, T.p, T.ld, false, tag);
        if (tf) {
            if (red) FFPACK::getReducedEchelonTransform(f, u, m, n, R, Pp.p, Qp.p, A.p, A.ld, X.p, X.ld, tag);
            else FFPACK::getEchelonTransform(f, u, FflasUnit, m, n, R, Pp.p, Qp.p, A.p, A.ld, X.p, X.ld, tag);
        }
        if (only) {
            if (red) FFPACK::getReducedEchelonForm(f, u, m, n, R, Qp.p, A.p, A.ld, Tn.p, Tn.ld, true, tag);
            else FFPACK::getEchelonForm(f, u, FflasUnit, m, n, R, Qp.p, A.p, A.ld, Tn.p, Tn.ld, true, tag);
        }
        if (inplace) {
            if (red) FFPACK::getReducedEchelonForm(f, u, m, n, R, Qp.p, A.p, A.ld, tag);
            else FFPACK::getEchelonForm(f, u, FflasUnit, m, n, R, Qp.p, A.p, A.ld, tag);
        }
    }
    form = T.get("echelon form");
    T.padding_ok("T"); X.padding_ok("X"); Tn.padding_ok("Tn"); A.padding_ok("A");
    if (red) { if (!(form == wr)) BAD("%s: not the reduced echelon form: %s", ctx, ref::diff(form, wr).c_str()); }
    else { // echelon shape with the right pivots, first R vectors spanning the same space
        for (size_t k = 0; k < (row ? m : n); ++k) for (size_t i = 0; i < (row ? n : m); ++i) {
            i64 v = row ? form(k, i) : form(i, k);
            if (k >= R ? v != 0 : i < piv[k] ? v != 0 : i == piv[k] ? v == 0 : false) BAD("%s: entry (%zu,%zu) violates the echelon shape with pivots %s", ctx, row ? k : i, row ? i : k, list(piv).c_str());
        }
        std::vector<size_t> pv2;
        ref::M again = row ? rref(form, p, pv2) : ref::transpose(rref(ref::transpose(form), p, pv2));
        if (!(again == wr)) BAD("%s: its row/column space is not that of the input: %s", ctx, ref::diff(again, wr).c_str());
    }
    if (tf) {
        tr_ = X.get("transformation");
        ref::M c = row ? ref::mul(tr_, a, p) : ref::mul(a, tr_, p);
        if (!(c == form)) BAD("%s: the transformation does not map the input to the form: %s", ctx, ref::diff(c, form).c_str());
        if (ref::rank(tr_, p) != td) BAD("%s: the transformation is singular", ctx);
    }
    if (only) {
        ref::M g = Tn.get("non-zero part");
        for (size_t i = 0; i < g.m; ++i) for (size_t j = 0; j < g.n; ++j) if (g(i, j) != form(i, j)) BAD("%s: OnlyNonZeroVectors output differs at (%zu,%zu): %lld instead of %lld", ctx, i, j, g(i, j), form(i, j));
    }
    if (inplace) { ref::M g = A.get("in-place form"); if (!(g == form)) BAD("%s: in-place extraction differs: %s", ctx, ref::diff(g, form).c_str()); }
    sim::observe(ref::hash(form));
}
WORKLOADF(profile) {
    sim::enter("par");
    bool big = Pbool("big", 3);
    draw_thresholds(big);
    Setup S; F& f = S.f; i64 p = S.p;
    long hi = dims(big);
    size_t m = (size_t)Psize("m", 0, hi), n = (size_t)Psize("n", 0, hi);
    ref::M a = gen_struct(m, n, p, "A");
    Mat<F> A(f, m, n, "A");
    A.set(a); A.snapshot();
    std::vector<size_t> rrp, crp;
    size_t want = ref::profiles(a, p, rrp, crp);
    int op = VSEL((int)Pick("cop", {0, 3, 4, 5, 6}), (int)P("op", 0, 6));
    bool row = Pbool("row"), slab = Pbool("slab");
    FFPACK::FFPACK_LU_TAG tag = slab ? FFPACK::FfpackSlabRecursive : FFPACK::FfpackTileRecursive;
    size_t nt = (size_t)P("nt", 0, 9), R = 0;
    if (op <= 2) {
        size_t* rp = nullptr;
        {
            sim::Section s;
            if (op == 0) R = row ? FFPACK::RowRankProfile(f, m, n, A.p, A.ld, rp, tag) : FFPACK::ColumnRankProfile(f, m, n, A.p, A.ld, rp, tag);
            else R = row ? FFPACK::pRowRankProfile(f, m, n, A.p, A.ld, rp, nt, tag) : FFPACK::pColumnRankProfile(f, m, n, A.p, A.ld, rp, nt, tag);
        }
        std::vector<size_t> g(rp, rp + R);
        { sim::Section s; fflas_delete(rp); }
        const auto& w = row ? rrp : crp;
        if (g != w) BAD("%s rank profile (op %d, tag %d) of a %zux%zu matrix mod %lld: got {%s}, expected {%s}", row ? "row" : "column", op, (int)tag, m, n, p, list(g).c_str(), list(w).c_str());
    } else if (op == 3) { // profiles of every leading submatrix from one PLUQ
        Perm Pp(m), Qp(n);
        size_t k = (size_t)P("lsm", 0, (long)m), l = (size_t)P("lsn", 0, (long)n);
        size_t *r1, *c1;
        r1 = (size_t*)sim::user_alloc(want * sizeof(size_t), 16); c1 = (size_t*)sim::user_alloc(want * sizeof(size_t), 16);
        size_t lr, *x = (size_t*)sim::user_alloc(want * sizeof(size_t), 16), *y = (size_t*)sim::user_alloc(want * sizeof(size_t), 16);
        {
            sim::Section s;
            R = VSEL(false, Pbool("par")) ? FFPACK::pPLUQ(f, FflasNonUnit, m, n, A.p, A.ld, Pp.p, Qp.p) : FFPACK::PLUQ(f, FflasNonUnit, m, n, A.p, A.ld, Pp.p, Qp.p);
            if (R != want) BAD("PLUQ rank %zu, true rank %zu", R, want);
            lr = NT(LeadingSubmatrixRankProfiles)(m, n, R, k, l, Pp.p, Qp.p, r1, c1);
            NT(RankProfileFromLU)(Pp.p, m, R, x, NT(FfpackTileRecursive));
            NT(RankProfileFromLU)(Qp.p, n, R, y, NT(FfpackTileRecursive));
        }
        std::vector<size_t> ri, ci, r2, c2;
        for (size_t i = 0; i < k; ++i) ri.push_back(i);
        for (size_t i = 0; i < l; ++i) ci.push_back(i);
        size_t w = ref::profiles(sub(a, ri, ci), p, r2, c2);
        if (lr != w || std::vector<size_t>(r1, r1 + w) != r2 || std::vector<size_t>(c1, c1 + w) != c2) BAD("LeadingSubmatrixRankProfiles %zux%zu of a %zux%zu matrix mod %lld: rank %zu (true %zu)", k, l, m, n, p, lr, w);
        if (std::vector<size_t>(x, x + R) != rrp || std::vector<size_t>(y, y + R) != crp) BAD("RankProfileFromLU on the PLUQ of a %zux%zu matrix mod %lld differs from the true profiles", m, n, p);
    } else if (op == 4) { // LUdivine variant
        Perm Pp(row ? n : m), Qp(row ? m : n);
        size_t* x = (size_t*)sim::user_alloc(want * sizeof(size_t), 16);
        {
            sim::Section s;
            R = FFPACK::LUdivine(f, FflasNonUnit, row ? FflasNoTrans : FflasTrans, m, n, A.p, A.ld, Pp.p, Qp.p);
            if (R != want) BAD("LUdivine rank %zu, true rank %zu", R, want);
            NT(RankProfileFromLU)(Qp.p, row ? m : n, R, x, NT(FfpackSlabRecursive));
        }
        if (std::vector<size_t>(x, x + R) != (row ? rrp : crp)) BAD("RankProfileFromLU on the LUdivine factorisation differs from the true %s rank profile", row ? "row" : "column");
    } else {
        size_t *ri = nullptr, *ci = nullptr; F::Element_ptr X = nullptr;
        size_t ret;
        {
            sim::Section s;
            if (op == 5) ret = row ? FFPACK::RowRankProfileSubmatrixIndices(f, m, n, A.p, A.ld, ri, ci, R) : FFPACK::ColRankProfileSubmatrixIndices(f, m, n, A.p, A.ld, ri, ci, R);
            else ret = row ? FFPACK::RowRankProfileSubmatrix(f, m, n, A.p, A.ld, X, R) : FFPACK::ColRankProfileSubmatrix(f, m, n, A.p, A.ld, X, R);
        }
        const char* w = row ? "row" : "column";
        if (R != want || ret != R) BAD("%s rank profile submatrix: rank %zu returned, true rank %zu", w, R, want);
        if (op == 5) {
            std::vector<size_t> rv(ri, ri + R), cv(ci, ci + R);
            { sim::Section s; fflas_delete(ri); fflas_delete(ci); }
            for (size_t i = 0; i < R; ++i) if (rv[i] >= m || cv[i] >= n) BAD("%s rank profile submatrix indices of a %zux%zu matrix: index out of range at %zu (%zu,%zu)", w, m, n, i, rv[i], cv[i]);
            if ((row ? rv : cv) != (row ? rrp : crp)) BAD("%s rank profile submatrix indices of a %zux%zu matrix: {%s} is not the %s rank profile", w, m, n, list(row ? rv : cv).c_str(), w);
            if (ref::rank(sub(a, rv, cv), p) != R) BAD("%s rank profile submatrix of a %zux%zu matrix mod %lld is singular (rows {%s}, columns {%s})", w, m, n, p, list(rv).c_str(), list(cv).c_str());
        } else {
            ref::M x(R, R);
            for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < R; ++j) x(i, j) = get(f, X[i * R + j], "rank profile submatrix");
            { sim::Section s; fflas_delete(X); }
            if (ref::rank(x, p) != R) BAD("%s rank profile submatrix of a %zux%zu matrix mod %lld is singular", w, m, n, p);
            A.unchanged("input of the rank profile submatrix");
            if (row) { // its rows must be rows of the profile
                for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < R; ++j) { bool ok = false; for (size_t c = 0; c < n && !ok; ++c) ok = a(rrp[i], c) == x(i, j); if (!ok) BAD("row rank profile submatrix: entry (%zu,%zu) is not in row %zu of the input", i, j, rrp[i]); }
            } else for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < R; ++j) { bool ok = false; for (size_t r = 0; r < m && !ok; ++r) ok = a(r, crp[j]) == x(i, j); if (!ok) BAD("column rank profile submatrix: entry (%zu,%zu) is not in column %zu of the input", i, j, crp[j]); }
        }
    }
    A.padding_ok("A");
    sim::observe(R);
}
WORKLOADF(nullspace) {
    sim::enter("seq");
    bool big = Pbool("big", 3);
    draw_thresholds(big);
    Setup S; F& f = S.f; i64 p = S.p;
    long hi = dims(big);
    size_t m = (size_t)Psize("m", 0, hi), n = (size_t)Psize("n", 0, hi);
    ref::M a = gen_struct(m, n, p, "A");
    Mat<F> A(f, m, n, "A");
    A.set(a);
    bool right = Pbool("right"), vec = Pbool("vec");
    size_t d = right ? n : m, rk = ref::rank(a, p);
    FFLAS_SIDE sd = right ? FflasRight : FflasLeft;
    if (vec) {
        Vec X(f, d, "incx");
        { sim::Section s; FFPACK::RandomNullSpaceVector(f, sd, m, n, A.p, A.ld, X.p, X.inc); }
        ref::M x = X.get("null space vector");
        ref::M z = right ? ref::mul(a, x, p) : ref::mul(ref::transpose(x), a, p);
        for (auto v : z.a) if (v) BAD("RandomNullSpaceVector (%s) of a %zux%zu matrix of rank %zu mod %lld, incX %zu: the vector is not in the null space", right ? "right" : "left", m, n, rk, p, X.inc);
        X.gaps("null space vector");
        sim::observe(ref::hash(x));
    } else {
        F::Element_ptr NS = nullptr; size_t ld = 0, dim = 0, ret;
        { sim::Section s; ret = FFPACK::NullSpaceBasis(f, sd, m, n, A.p, A.ld, NS, ld, dim); }
        if (dim != d - rk || ret != dim) BAD("NullSpaceBasis (%s) of a %zux%zu matrix of rank %zu: dimension %zu (returned %zu)", right ? "right" : "left", m, n, rk, dim, ret);
        ref::M N(right ? n : dim, right ? dim : m);
        for (size_t i = 0; i < N.m; ++i) for (size_t j = 0; j < N.n; ++j) N(i, j) = get(f, NS[i * ld + j], "null space basis");
        { sim::Section s; fflas_delete(NS); }
        ref::M z = right ? ref::mul(a, N, p) : ref::mul(N, a, p);
        for (auto v : z.a) if (v) BAD("NullSpaceBasis (%s) of a %zux%zu matrix of rank %zu mod %lld: a basis vector is not in the null space", right ? "right" : "left", m, n, rk, p);
        if (ref::rank(N, p) != dim) BAD("NullSpaceBasis (%s) of a %zux%zu matrix of rank %zu mod %lld: the vectors are dependent", right ? "right" : "left", m, n, rk, p);
        sim::observe(ref::hash(N));
    }
    A.padding_ok("A");
}
