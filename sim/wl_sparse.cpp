// Sparse matrix times dense vector / block of vectors, every storage format, against the naive model.
#include "wl_common.h"
#include <fflas-ffpack/fflas/fflas_sparse.h>
using namespace FFLAS;
typedef FIELD F;
namespace {
typedef SparseMatrix_t S;
struct Sp {
    size_t m, n;
    std::vector<uint32_t> row, col;
    std::vector<i64> val;
    bool zo;
};
// distinct positions sorted by row then column; ones: share of +-1 entries
Sp make(i64 p, bool big, bool equalrows) {
    Sp s;
    long hi = Pick("hi", {4, 9, 17, 40, 70});
    if (big) hi = 200;
    s.m = (size_t)Psize("m", 1, hi); s.n = (size_t)Psize("n", 1, hi);
    int dens = (int)Pick("dens", {3, 10, 30, 60, 100}), ones = (int)Pick("ones", {0, 30, 70, 100}), ext = (int)P("ext", 0, 3);
    bool emptyrows = Pbool("emptyrows", 30);
    sim::Rng g(Pseed("a"));
    for (size_t i = 0; i < s.m; ++i) {
        if (emptyrows && g.below(3) == 0) continue;
        for (size_t j = 0; j < s.n; ++j) if ((int)g.below(100) < dens) {
            i64 v = ext == 1 ? p - 1 : ext == 2 ? (p - 1) / 2 : ext == 3 ? (p + 1) / 2 % p : (i64)g.below((uint64_t)p);
            if ((int)g.below(100) < ones) v = g.below(2) ? 1 : p - 1;
            if (v == 0) v = 1;
            s.row.push_back((uint32_t)i); s.col.push_back((uint32_t)j); s.val.push_back(v);
        }
    }
    if (equalrows) { // formats without stored values pad short rows with column 0: all rows must have the same number of entries
        s.row.clear(); s.col.clear(); s.val.clear();
        size_t k = (size_t)P("perrow", 1, (long)s.n);
        for (size_t i = 0; i < s.m; ++i) {
            std::vector<uint32_t> c;
            for (size_t j = 0; j < s.n; ++j) c.push_back((uint32_t)j);
            for (size_t j = 0; j < k; ++j) std::swap(c[j], c[j + g.below(s.n - j)]);
            c.resize(k); std::sort(c.begin(), c.end());
            for (uint32_t j : c) { s.row.push_back((uint32_t)i); s.col.push_back(j); s.val.push_back(1); }
        }
    }
    if (s.row.empty()) { s.row.push_back((uint32_t)g.below(s.m)); s.col.push_back((uint32_t)g.below(s.n)); s.val.push_back(1); }
    return s;
}
template <S fmt> struct Fmt {
    typedef Sparse<F, fmt> SM;
    static const bool zo = fmt == S::CSR_ZO || fmt == S::COO_ZO || fmt == S::ELL_ZO || fmt == S::SELL_ZO || fmt == S::ELL_simd_ZO;
};
template <class SM> auto setcst(SM& A, long c, int) -> decltype((void)A.cst) { A.cst = (decltype(A.cst))c; }
template <class SM> void setcst(SM&, long, long) {}
template <class SM> auto permof(const SM& A, int) -> decltype(A.perm) { return A.perm; }
template <class SM> const uint32_t* permof(const SM&, long) { return nullptr; }

// what: 0 spmv, 1 spmm, 2 parallel spmm
template <S fmt, int what> void go(const F& f, i64 p, const char* name) {
    typedef Sparse<F, fmt> SM;
    const bool zo = Fmt<fmt>::zo;
    Sp s = make(p, Pbool("big", 3), fmt == S::ELL_ZO);
    size_t nnz = s.row.size();
    long cst = 1;
    if (zo) {
        int ck = (int)P("cst", 0, 3);
        cst = ck <= 1 ? 1 : ck == 2 ? -1 : 2;
        for (auto& v : s.val) v = (cst % p + p) % p;
    }
    size_t bs = what ? (size_t)Psize("bs", 1, 20) : 1;
    i64 be; switch (P("beta", 0, 4)) { case 0: be = 0; break; case 1: case 2: be = 1; break; case 3: be = p - 1; break; default: be = (i64)(Pseed("scal") % (uint64_t)p); }
    int xs = (int)P("xstyle", 0, 6);
    ref::M x = rnd_ext(s.n, bs, p, Pseed("x"), xs), y = rnd_ext(s.m, bs, p, Pseed("y"), (int)P("ystyle", 0, 6));
    // vectors are contiguous; blocks have a leading dimension
    Mat<F> X(f, s.n, bs, "X", what != 0), Y(f, s.m, bs, "Y", what != 0);
    X.set(x); X.snapshot();
    F::Element* dat = (F::Element*)sim::user_alloc(nnz * sizeof(F::Element), 64);
    for (size_t i = 0; i < nnz; ++i) put(f, dat[i], s.val[i]);
    F::Element ebe; put(f, ebe, be);
    std::vector<uint32_t> perm;
    SM A;
    {
        sim::Section sec;
        sparse_init(f, A, s.row.data(), s.col.data(), dat, s.m, s.n, nnz);
    }
    if (zo) setcst(A, cst, 0);
    auto pm = permof(A, 0);
    if (pm) perm.assign(pm, pm + s.m);
    // the sorted-row formats keep y in the order of their stored permutation
    if (pm) { ref::M yp(s.m, bs); for (size_t i = 0; i < s.m; ++i) for (size_t j = 0; j < bs; ++j) yp(perm[i], j) = y(i, j); Y.set(yp); }
    else Y.set(y);
    {
        sim::Section sec;
        if constexpr (what == 0) fspmv(f, A, X.p, ebe, Y.p);
        else if constexpr (what == 1) fspmm(f, A, bs, X.p, (int)X.ld, ebe, Y.p, (int)Y.ld);
        else { if (Pbool("region", 70)) { PAR_BLOCK { pfspmm(f, A, bs, X.p, (int)X.ld, ebe, Y.p, (int)Y.ld); } } else pfspmm(f, A, bs, X.p, (int)X.ld, ebe, Y.p, (int)Y.ld); }
        sparse_delete(A);
    }
    ref::M got = Y.get("sparse product");
    if (pm) { ref::M g2(s.m, bs); for (size_t i = 0; i < s.m; ++i) for (size_t j = 0; j < bs; ++j) g2(i, j) = got(perm[i], j); got = g2; }
    ref::M want = ref::scale(be, y, p);
    for (size_t k = 0; k < nnz; ++k) for (size_t j = 0; j < bs; ++j) { i64& w = want(s.row[k], j); w = (w + ref::mulm(s.val[k], x(s.col[k], j), p)) % p; }
    if (!(got == want)) sim::violation("wrong-result", "sparse %s %s %zux%zu nnz %zu block %zu mod %lld cst %ld: %s", name, what == 0 ? "vector product" : what == 1 ? "block product" : "parallel block product", s.m, s.n, nnz, bs, p, cst, ref::diff(got, want).c_str());
    X.unchanged("sparse product input"); X.padding_ok("X"); Y.padding_ok("Y");
    sim::observe(ref::hash(got));
}
}
WORKLOADF(fspmv) {
    sim::enter("seq");
    F f = make_field<F>();
    i64 p = charac(f);
    switch (P("fmt", 0, 5)) {
    case 0: go<S::CSR, 0>(f, p, "CSR"); break;
    case 1: go<S::CSR_ZO, 0>(f, p, "CSR_ZO"); break;
    case 2: go<S::COO, 0>(f, p, "COO"); break;
    case 3: go<S::COO_ZO, 0>(f, p, "COO_ZO"); break;
    case 4: go<S::ELL, 0>(f, p, "ELL"); break;
    default: go<S::ELL_ZO, 0>(f, p, "ELL_ZO"); break;
    }
}
WORKLOADF(fspmm) {
    sim::enter("par");
    F f = make_field<F>();
    i64 p = charac(f);
    switch (P("fmt", 0, 7)) {
    case 0: go<S::CSR, 1>(f, p, "CSR"); break;
    case 1: go<S::CSR_ZO, 1>(f, p, "CSR_ZO"); break;
    case 2: go<S::COO, 1>(f, p, "COO"); break;
    case 3: go<S::COO_ZO, 1>(f, p, "COO_ZO"); break;
    case 4: go<S::ELL, 1>(f, p, "ELL"); break;
    case 5: go<S::ELL_ZO, 1>(f, p, "ELL_ZO"); break;
    case 6: go<S::CSR, 2>(f, p, "CSR"); break;
    default: go<S::CSR_ZO, 2>(f, p, "CSR_ZO"); break;
    }
}
