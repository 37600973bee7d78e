// Quasi-separable matrices: Bruhat generators of left triangular matrices, their compact form, SSS generators,
// and the products and expansions computed from them.
#include "wl_elim.h"
using namespace FFLAS;
using namespace FFPACK;
typedef FIELD F;
#define BAD(...) sim::violation("wrong-result", __VA_ARGS__)
namespace {
size_t lrank(const ref::M& A, size_t r, size_t c, i64 p) { ref::M B(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) B(i, j) = A(i, j); return ref::rank(B, p); }
void left(ref::M& A) { for (size_t i = 0; i < A.m; ++i) for (size_t j = 0; j < A.n; ++j) if (i + j + 1 >= A.m) A(i, j) = 0; }
ref::M gen_left(size_t n, i64 p) {
    uint64_t sd = Pseed("A"); sim::Rng g(sd ^ 77); ref::M A;
    switch (P("kind", 0, 6)) {
    case 0: A = rnd(n, n, p, sd); break;                                  // generic
    case 1: case 2: A = rnd_rank(n, n, n ? g.below(n / 2 + 1) : 0, p, sd); break; // part of a low rank matrix
    case 3: A = rnd(n, n, p, sd, 80); break;                              // sparse
    case 4: { A = ref::M(n, n); size_t k = g.below(n + 1); for (size_t i = 0; i < k; ++i) A(g.below(n), g.below(n)) = 1 + (i64)g.below((uint64_t)p - 1); break; } // a few entries
    case 5: { // product of a lower triangular, a partial permutation and an upper triangular matrix
        ref::M L = rnd(n, n, p, sd + 1), U = rnd(n, n, p, sd + 2), R(n, n); std::vector<size_t> u(n), v(n); for (size_t i = 0; i < n; ++i) u[i] = v[i] = i;
        for (size_t i = n; i-- > 1;) { std::swap(u[i], u[g.below(i + 1)]); std::swap(v[i], v[g.below(i + 1)]); }
        size_t r = g.below(n + 1); for (size_t i = 0; i < r; ++i) R(u[i], v[i]) = 1;
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { if (i == j) L(i, j) = U(i, j) = 1; else if (i < j) L(i, j) = 0; else U(i, j) = 0; }
        A = ref::mul(ref::mul(L, R, p), U, p); break; }
    default: { // banded along the anti-diagonal
        A = rnd(n, n, p, sd); size_t w = 1 + g.below(4); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i + j + 1 + w < n) A(i, j) = 0; }
    }
    left(A);
    return A;
}
// In some runs another thread of the application works on its own generators during every call.
bool conc; const F* field; size_t noise_n; i64 noise_p; uint64_t noise_seed;
void begin() { conc = Pbool("conc", 25); sim::enter(conc ? "par" : "seq"); }
void prepare(const F& f, i64 p) { field = &f; noise_p = p; noise_n = conc ? (size_t)P("noise.n", 1, 8) : 0; noise_seed = Pseed("noise"); }
void noise() {
    const F& f = *field; size_t n = noise_n; sim::Rng g(noise_seed);
    F::Element_ptr A = fflas_new(f, n, n), L = fflas_new(f, n, n), C = fflas_new(f, n, 2), B = fflas_new(f, n, 2);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) put(f, A[i * n + j], i + j + 1 < n ? (i64)g.below((uint64_t)noise_p) : 0);
    for (size_t i = 0; i < 2 * n; ++i) put(f, B[i], (i64)g.below((uint64_t)noise_p));
    size_t *P = fflas_new<size_t>(n), *Q = fflas_new<size_t>(n);
    size_t r = LTBruhatGen(f, FflasUnit, n, A, n, P, Q);
    getLTBruhatGen(f, FflasUpper, FflasUnit, n, r, P, Q, A, n, L, n);
    fgemm(f, FflasNoTrans, FflasNoTrans, n, 2, n, f.one, L, n, B, 2, f.zero, C, 2);
    fflas_delete(A, L, C, B); fflas_delete(P, Q);
}
template <class B> void call(B body) {
    sim::Section s;
    if (!conc) { body(); return; }
    std::vector<std::function<void()>> fs; fs.push_back([&] { body(); }); fs.push_back([] { noise(); });
    sim::run_clients(fs);
}
}
WORKLOADF(bruhat) {
    begin();
    draw_thresholds(false);
    F f = make_field<F>(); i64 p = charac(f); prepare(f, p);
    size_t n = (size_t)Psize("n", 0, (long)Pick("hi", {4, 8, 14, 22}));
    ref::M a = gen_left(n, p);
    Mat<F> A(f, n, n, "A"); A.set(a);
    Perm Pp(n), Qp(n);
    FFLAS_DIAG dg = Pbool("unit") ? FflasUnit : FflasNonUnit, od = dg == FflasUnit ? FflasNonUnit : FflasUnit;
    // what the pivots must be
    std::vector<std::vector<size_t>> rk(n + 1, std::vector<size_t>(n + 1, 0));
    for (size_t i = 1; i < n; ++i) for (size_t j = 1; i + j <= n; ++j) rk[i][j] = lrank(a, i, j, p);
    ref::M want(n, n); size_t wr = 0, ws = 0;
    for (size_t i = 1; i < n; ++i) for (size_t j = 1; i + j <= n; ++j) { i64 d = (i64)(rk[i][j] + rk[i - 1][j - 1]) - (i64)(rk[i - 1][j] + rk[i][j - 1]); want(i - 1, j - 1) = d; wr += (size_t)d; }
    for (size_t i = 1; i < n; ++i) ws = std::max(ws, rk[i][n - i]);
    size_t r;
    call([&] { r = LTBruhatGen(f, dg, n, A.p, A.ld, Pp.p, Qp.p); });
    A.padding_ok("LTBruhatGen");
    if (r != wr) BAD("LTBruhatGen order %zu mod %lld: %zu pivots, expected %zu", n, p, r, wr);
    ref::M got(n, n);
    for (size_t i = 0; i < r; ++i) { if (Pp.p[i] >= n || Qp.p[i] >= n) BAD("LTBruhatGen order %zu mod %lld: pivot %zu out of range", n, p, i); got(Pp.p[i], Qp.p[i]) += 1; }
    if (!(got == want)) BAD("LTBruhatGen order %zu mod %lld: the pivots are not those of the left part of the rank profile matrix: %s", n, p, ref::diff(got, want).c_str());
    if (!n) { sim::observe(r); return; }
    // factors
    Mat<F> L(f, n, n, "L"), R(f, n, n, "R"), U(f, n, n, "U");
    A.snapshot();
    size_t s;
    call([&] {
        getLTBruhatGen(f, n, r, Pp.p, Qp.p, R.p, R.ld);
        getLTBruhatGen(f, FflasLower, od, n, r, Pp.p, Qp.p, A.p, A.ld, L.p, L.ld);
        getLTBruhatGen(f, FflasUpper, dg, n, r, Pp.p, Qp.p, A.p, A.ld, U.p, U.ld);
        s = LTQSorder(n, r, Pp.p, Qp.p);
    });
    A.unchanged("getLTBruhatGen"); L.padding_ok("getLTBruhatGen L"); R.padding_ok("getLTBruhatGen R"); U.padding_ok("getLTBruhatGen U");
    ref::M l = L.get("L"), u = U.get("U");
    if (!(R.get("R") == want)) BAD("getLTBruhatGen order %zu mod %lld: R is not the left part of the rank profile matrix", n, p);
    ref::M prod = ref::mul(ref::mul(l, ref::transpose(want), p), u, p); left(prod);
    if (!(prod == a)) BAD("Bruhat generator order %zu mod %lld (%s U): Left(L.R^T.U) differs from A: %s", n, p, dg == FflasUnit ? "unit" : "non-unit", ref::diff(prod, a).c_str());
    if (s != ws) BAD("LTQSorder order %zu mod %lld: %zu, expected %zu", n, p, s, ws);
    sim::observe(ref::hash(l)); sim::observe(ref::hash(u)); sim::observe(s);
    if (!r) return;
    // compact form
    Mat<F> Xu(f, 2 * s, n, "Xu"), Xl(f, n, 2 * s, "Xl"), U2(f, n, n, "U2"), L2(f, n, n, "L2");
    Perm Ku(r + 1), Kl(r + 1), Mu(n), Ml(n), Tu(r), Tl(r);
    size_t nu, nl;
    U.snapshot(); L.snapshot();
    call([&] {
        nu = CompressToBlockBiDiagonal(f, FflasUpper, n, s, r, Pp.p, Qp.p, U.p, U.ld, Xu.p, Xu.ld, Ku.p, Mu.p, Tu.p);
        nl = CompressToBlockBiDiagonal(f, FflasLower, n, s, r, Pp.p, Qp.p, L.p, L.ld, Xl.p, Xl.ld, Kl.p, Ml.p, Tl.p);
    });
    U.unchanged("CompressToBlockBiDiagonal U"); L.unchanged("CompressToBlockBiDiagonal L"); Xu.padding_ok("CompressToBlockBiDiagonal Xu"); Xl.padding_ok("CompressToBlockBiDiagonal Xl");
    Xu.get("Xu"); Xl.get("Xl"); Xu.snapshot(); Xl.snapshot();
    call([&] {
        ExpandBlockBiDiagonalToBruhat(f, FflasUpper, n, s, r, U2.p, U2.ld, Xu.p, Xu.ld, nu, Ku.p, Mu.p, Tu.p);
        ExpandBlockBiDiagonalToBruhat(f, FflasLower, n, s, r, L2.p, L2.ld, Xl.p, Xl.ld, nl, Kl.p, Ml.p, Tl.p);
    });
    U2.padding_ok("ExpandBlockBiDiagonalToBruhat U"); L2.padding_ok("ExpandBlockBiDiagonalToBruhat L");
    if (!(U2.get("expanded U") == u)) BAD("compact form of U, order %zu rank %zu quasi-separable order %zu mod %lld (leading dimensions %zu, %zu, %zu): the expansion differs from U: %s", n, r, s, p, U.ld, Xu.ld, U2.ld, ref::diff(U2.get("U2"), u).c_str());
    if (!(L2.get("expanded L") == l)) BAD("compact form of L, order %zu rank %zu quasi-separable order %zu mod %lld (leading dimensions %zu, %zu, %zu): the expansion differs from L: %s", n, r, s, p, L.ld, Xl.ld, L2.ld, ref::diff(L2.get("L2"), l).c_str());
    // product
    size_t t = (size_t)Psize("t", 0, 6);
    i64 be = (i64)Pick("beta", {0, 0, 1, 2, -1}); be = be == 2 ? (i64)(Pseed("beta") % (uint64_t)p) : be < 0 ? p - 1 : be % p;
    ref::M b = rnd(n, t, p, Pseed("B")), c = rnd(n, t, p, Pseed("C"));
    Mat<F> B(f, n, t, "B"), C(f, n, t, "C"); B.set(b); C.set(c); B.snapshot();
    F::Element ebe; put(f, ebe, be);
    call([&] { productBruhatxTS(f, n, s, r, t, Pp.p, Qp.p, Xu.p, Xu.ld, nu, Ku.p, Tu.p, Mu.p, Xl.p, Xl.ld, nl, Kl.p, Tl.p, Ml.p, B.p, B.ld, ebe, C.p, C.ld); });
    B.unchanged("productBruhatxTS B"); Xu.unchanged("productBruhatxTS Xu"); Xl.unchanged("productBruhatxTS Xl"); C.padding_ok("productBruhatxTS C");
    ref::M w = ref::add(ref::mul(a, b, p), ref::scale(be, c, p), p), gc = C.get("productBruhatxTS");
    if (!(gc == w)) BAD("productBruhatxTS order %zu rank %zu quasi-separable order %zu by %zu columns, beta %lld mod %lld: %s", n, r, s, t, be, p, ref::diff(gc, w).c_str());
    sim::observe(ref::hash(gc));
}
WORKLOADF(sss) {
    begin();
    draw_thresholds(false);
    F f = make_field<F>(); i64 p = charac(f); prepare(f, p);
    size_t n = (size_t)Psize("n", 1, (long)Pick("hi", {4, 8, 14, 24}));
    size_t s = (size_t)Psize("s", 1, (long)n), rs = n % s, ls = rs ? rs : s, k = (n + s - 1) / s;
    // generators: blocks of s rows; the last ones may be partial
    size_t q1 = n - ls, q2 = n - s, q3 = k >= 2 ? n - s - ls : 0;
    int z = Pick("zeros", {0, 0, 50, 90});
    ref::M gP = rnd(q2, s, p, Pseed("P"), z), gQ = rnd(q1, s, p, Pseed("Q"), z), gR = rnd(q3, s, p, Pseed("R"), z), gU = rnd(q1, s, p, Pseed("U"), z), gV = rnd(q1, s, p, Pseed("V"), z), gW = rnd(q3, s, p, Pseed("W"), z), gD = rnd(n, s, p, Pseed("D"), z);
    auto blk = [&](const ref::M& M, size_t i, size_t rows, size_t cols) { ref::M B(rows, cols); for (size_t a = 0; a < rows; ++a) for (size_t b = 0; b < cols; ++b) B(a, b) = M(i * s + a, b); return B; };
    auto bs = [&](size_t i) { return i + 1 == k ? ls : s; };
    ref::M dense(n, n);
    for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < k; ++j) {
        ref::M X;
        if (i == j) X = blk(gD, i, bs(i), bs(i));
        else if (i > j) { X = blk(gP, i - 1, bs(i), s); for (size_t l = i - 1; l > j; --l) X = ref::mul(X, blk(gR, l - 1, s, s), p); X = ref::mul(X, blk(gQ, j, s, s), p); }
        else { X = blk(gU, i, s, s); for (size_t l = i + 1; l < j; ++l) X = ref::mul(X, blk(gW, l - 1, s, s), p); X = ref::mul(X, blk(gV, j - 1, s, bs(j)), p); }
        for (size_t a = 0; a < X.m; ++a) for (size_t b = 0; b < X.n; ++b) dense(i * s + a, j * s + b) = X(a, b);
    }
    Mat<F> Pm(f, q2, s, "P"), Qm(f, q1, s, "Q"), Rm(f, q3, s, "R"), Um(f, q1, s, "U"), Vm(f, q1, s, "V"), Wm(f, q3, s, "W"), Dm(f, n, s, "D");
    Mat<F>* all[] = {&Pm, &Qm, &Rm, &Um, &Vm, &Wm, &Dm}; const char* nm[] = {"P", "Q", "R", "U", "V", "W", "D"};
    auto readonly = [&](const char* w) { for (int i = 0; i < 7; ++i) { char b[64]; snprintf(b, sizeof b, "%s, generator %s", w, nm[i]); all[i]->unchanged(b); } };
    bool from = Pbool("fromdense");
    char what[160]; snprintf(what, sizeof what, "order %zu, blocks of %zu, mod %lld", n, s, p);
    if (from) { // the library's own generators of a quasi-separable matrix
        Mat<F> A(f, n, n, "A"); A.set(dense); A.snapshot();
        call([&] { DenseToSSS(f, n, s, Pm.p, Pm.ld, Qm.p, Qm.ld, Rm.p, Rm.ld, Um.p, Um.ld, Vm.p, Vm.ld, Wm.p, Wm.ld, Dm.p, Dm.ld, (F::ConstElement_ptr)A.p, A.ld); });
        A.unchanged("DenseToSSS"); for (int i = 0; i < 7; ++i) { char b[64]; snprintf(b, sizeof b, "DenseToSSS, generator %s", nm[i]); all[i]->padding_ok(b); }
    } else { Pm.set(gP); Qm.set(gQ); Rm.set(gR); Um.set(gU); Vm.set(gV); Wm.set(gW); Dm.set(gD); }
    for (auto* g : all) g->snapshot();
    Mat<F> A2(f, n, n, "A2");
    call([&] { SSSToDense(f, n, s, (F::ConstElement_ptr)Pm.p, Pm.ld, (F::ConstElement_ptr)Qm.p, Qm.ld, (F::ConstElement_ptr)Rm.p, Rm.ld, (F::ConstElement_ptr)Um.p, Um.ld, (F::ConstElement_ptr)Vm.p, Vm.ld, (F::ConstElement_ptr)Wm.p, Wm.ld, (F::ConstElement_ptr)Dm.p, Dm.ld, A2.p, A2.ld); });
    A2.padding_ok("SSSToDense"); readonly("SSSToDense");
    ref::M g2 = A2.get("SSSToDense");
    if (!(g2 == dense)) BAD("%s %s: %s", from ? "DenseToSSS then SSSToDense" : "SSSToDense", what, ref::diff(g2, dense).c_str());
    size_t t = (size_t)Psize("t", 0, 6);
    auto sc = [&](const char* nmn) -> i64 { int x = (int)P(nmn, 0, 5); return x == 0 ? 0 : x <= 2 ? 1 : x == 3 ? p - 1 : (i64)(Pseed(nmn) % (uint64_t)p); };
    i64 al = sc("alpha"), be = sc("beta");
    ref::M b = rnd(n, t, p, Pseed("B")), c = rnd(n, t, p, Pseed("C"));
    Mat<F> B(f, n, t, "B"), C(f, n, t, "C"); B.set(b); C.set(c); B.snapshot();
    F::Element eal, ebe; put(f, eal, al); put(f, ebe, be);
    call([&] { productSSSxTS(f, n, t, s, eal, (F::ConstElement_ptr)Pm.p, Pm.ld, (F::ConstElement_ptr)Qm.p, Qm.ld, (F::ConstElement_ptr)Rm.p, Rm.ld, (F::ConstElement_ptr)Um.p, Um.ld, (F::ConstElement_ptr)Vm.p, Vm.ld, (F::ConstElement_ptr)Wm.p, Wm.ld, (F::ConstElement_ptr)Dm.p, Dm.ld, (F::ConstElement_ptr)B.p, B.ld, ebe, C.p, C.ld); });
    B.unchanged("productSSSxTS B"); readonly("productSSSxTS"); C.padding_ok("productSSSxTS C");
    ref::M w = ref::add(ref::scale(al, ref::mul(dense, b, p), p), ref::scale(be, c, p), p), gc = C.get("productSSSxTS");
    if (!(gc == w)) BAD("productSSSxTS %s, %zu columns, alpha %lld beta %lld%s: %s", what, t, al, be, from ? " (generators from DenseToSSS)" : "", ref::diff(gc, w).c_str());
    sim::observe(ref::hash(gc));
}
