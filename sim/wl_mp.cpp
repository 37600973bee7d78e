// Multiprecision: products, solves, eliminations and determinants over Z and Z/pZ through residue number systems.
#include "wl_common.h"
#include <givaro/modular-integer.h>
#include <recint/recint.h>
#include <fflas-ffpack/field/rns-double.h>
using namespace FFLAS;
typedef FIELD F;
typedef Givaro::Integer Z;
namespace {
typedef Givaro::ZRing<Z> ZZ;
typedef Givaro::Modular<Z> ZP;
struct ZM { // plain integer matrix of the reference model
    size_t m, n; std::vector<Z> a;
    ZM(size_t m_ = 0, size_t n_ = 0) : m(m_), n(n_), a(m_ * n_, Z(0)) {}
    Z& operator()(size_t i, size_t j) { return a[i * n + j]; }
    const Z& operator()(size_t i, size_t j) const { return a[i * n + j]; }
};
ZM mul(const ZM& A, const ZM& B) { ZM C(A.m, B.n); for (size_t i = 0; i < A.m; ++i) for (size_t k = 0; k < A.n; ++k) if (A(i, k) != 0) for (size_t j = 0; j < B.n; ++j) C(i, j) += A(i, k) * B(k, j); return C; }
ZM trans(const ZM& A) { ZM C(A.n, A.m); for (size_t i = 0; i < A.m; ++i) for (size_t j = 0; j < A.n; ++j) C(j, i) = A(i, j); return C; }
Z pmod(const Z& a, const Z& p) { Z r = a % p; if (r < 0) r += p; return r; }
uint64_t hash(const ZM& A) { uint64_t h = 7; for (auto& x : A.a) h = sim::mix(h, (uint64_t)(pmod(x, Z(1000000007))) + (x < 0)); return h; }
Z zrand(sim::Rng& g, size_t bits) { Z r(0); for (size_t b = 0; b < bits; b += 32) { r <<= 32; r += (uint64_t)(g.next() >> 32); } if (bits == 0) return Z(0); Z mo(1); mo <<= bits; return r % mo; }
// style: 0 random, 1 all 2^b-1, 2 mixed extreme, 3 sparse, 4 all -(2^b-1) (signed only)
ZM zmat(size_t m, size_t n, size_t bits, bool sgn, uint64_t seed, int style) {
    sim::Rng g(seed); ZM A(m, n); Z top(1); top <<= bits; top -= 1;
    for (auto& x : A.a) {
        size_t b = style == 5 ? (size_t)g.below(bits + 1) : bits;
        Z v = zrand(g, b);
        if (style == 1 || style == 4) v = top;
        if (style == 2) v = g.below(2) ? top : v;
        if (style == 3 && g.below(3)) v = 0;
        if (sgn && (style == 4 || (style != 1 && g.below(2)))) v = -v;
        x = v;
    }
    return A;
}
Z zprime(size_t bits, uint64_t seed) {
    sim::Rng g(seed);
    Z x = zrand(g, bits - 1), top(1); top <<= (bits - 1); x += top;
    if (g.below(3) == 0) { x = top * 2; x -= (uint64_t)(1 + g.below(200)); }
    Givaro::IntPrimeDom D;
    Z q(x);
    if (q < 3) return Z(3);
    D.prevprimein(q);
    if (q < 3) q = 3;
    return q;
}
template <class E> struct Conv;
template <> struct Conv<Z> { static void set(Z& e, const Z& v) { e = v; } static Z get(const Z& e) { return e; } };
template <size_t K> struct Conv<RecInt::ruint<K>> { static void set(RecInt::ruint<K>& e, const Z& v) { e = RecInt::ruint<K>(v); } static Z get(const RecInt::ruint<K>& e) { return Z(e); } };
const long SENT = 0x5eed5eed5eedL;
template <class E> struct Buf { // strided operand with guarded padding
    size_t m, n, ld; E* p; std::vector<Z> snap;
    Buf(size_t m_, size_t n_, const char* nm) : m(m_), n(n_) {
        char b[40]; snprintf(b, sizeof b, "%s.pad", nm);
        ld = n + (size_t)Pick(b, {0, 0, 1, 3});
        if (!ld) ld = 1;
        p = (E*)sim::user_alloc((m * ld + 1) * sizeof(E), 16);
        for (size_t i = 0; i < m * ld; ++i) { new (p + i) E; Conv<E>::set(p[i], Z(SENT)); }
    }
    void set(const ZM& A) { for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) Conv<E>::set(p[i * ld + j], A(i, j)); }
    ZM get() const { ZM A(m, n); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) A(i, j) = Conv<E>::get(p[i * ld + j]); return A; }
    void same(const ZM& A, const char* what) const { for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) if (A(i, j) != Conv<E>::get(p[i * ld + j])) sim::violation("footprint", "%s: read-only operand was modified", what); }
    void pad(const char* what) const { for (size_t i = 0; i < m; ++i) for (size_t j = n; j < ld; ++j) if (Conv<E>::get(p[i * ld + j]) != Z(SENT)) sim::violation("footprint", "%s: padding written", what); }
};
std::string str(const Z& z) { std::string s = std::string(z); return s.size() > 40 ? s.substr(0, 37) + "..." : s; }
void compare(const ZM& got, const ZM& want, const char* what) {
    for (size_t i = 0; i < got.m; ++i) for (size_t j = 0; j < got.n; ++j) if (got(i, j) != want(i, j))
        sim::violation("wrong-result", "%s: entry (%zu,%zu) is %s, expected %s", what, i, j, str(got(i, j)).c_str(), str(want(i, j)).c_str());
}
ZM reduce(ZM A, const Z& p) { for (auto& x : A.a) x = pmod(x, p); return A; }
void canon(const ZM& A, const Z& p, const char* what) { for (auto& x : A.a) if (x < 0 || x >= p) sim::violation("wrong-result", "%s: entry %s is not a reduced residue mod %s", what, str(x).c_str(), str(p).c_str()); }
template <class G> struct Mk; // field of the run; p = 0 over Z
template <> struct Mk<ZZ> { static ZZ mk(Z& p) { p = 0; return ZZ(); } };
size_t bits_of_run(size_t maxb) { std::vector<long> v{2, 3, 5, 8, 12, 16, 17, 20, 31, 32, 33, 48, 53, 63, 64, 65, 80, 96, 127, 128, 200, 400}; while ((size_t)v.back() > maxb) v.pop_back(); return (size_t)Pick("bits", v); }
template <> struct Mk<ZP> { static ZP mk(Z& p) { p = zprime(bits_of_run(400), Pseed("prime")); return ZP(p); } };
template <size_t K1, size_t K2> struct Mk<Givaro::Modular<RecInt::ruint<K1>, RecInt::ruint<K2>>> {
    typedef Givaro::Modular<RecInt::ruint<K1>, RecInt::ruint<K2>> R;
    static R mk(Z& p) { p = zprime(bits_of_run((size_t(1) << K1) - 1), Pseed("prime")); return R(RecInt::ruint<K1>(p)); }
};
Z scal(const char* nm, const Z& p, size_t bits) {
    sim::Rng g(Pseed("scal") + (uint64_t)nm[0]);
    switch (P(nm, 0, 5)) { case 0: case 1: return Z(1); case 2: return Z(0); case 3: return p == 0 ? Z(-1) : Z(p - 1); default: { Z v = zrand(g, bits); if (p == 0) { return g.below(2) ? v : Z(-v); } return pmod(v, p); } }
}
typedef typename F::Element E;
}
WORKLOADF(gemm) {
    sim::enter("par");
    draw_thresholds(false);
    Z p; F f = Mk<F>::mk(p);
    const bool zring = std::is_same<F, ZZ>::value;
    size_t bits = p == 0 ? bits_of_run(400) : p.bitsize();
    long hi = Pick("hi", {2, 4, 8, 13, 24});
    size_t m = (size_t)Psize("m", 0, hi), n = (size_t)Psize("n", 0, hi), k = (size_t)Psize("k", 0, hi);
    bool ta = Pbool("ta"), tb = Pbool("tb");
    Z al = scal("alpha", p, zring ? (size_t)P("alb", 1, 40) : bits), be = scal("beta", p, bits);
    int sa = (int)P("sa", 0, 5), sb = (int)P("sb", 0, 5);
    size_t bitsB = zring ? (size_t)Pick("bitsB", {1, 7, 16, 40, 64, 130}) : bits;
    ZM a = zmat(ta ? k : m, ta ? m : k, bits, zring, Pseed("a"), sa), b = zmat(tb ? n : k, tb ? k : n, bitsB, zring, Pseed("b"), sb), c = zmat(m, n, bits, zring, Pseed("c"), (int)P("sc", 0, 5));
    if (p != 0) { // residues; the extreme styles become p-1
        auto ext = [&](ZM& x, int s) { x = reduce(x, p); if (s == 1 || s == 4) for (auto& e : x.a) e = p - 1; };
        ext(a, sa); ext(b, sb); c = reduce(c, p);
    }
    Buf<E> A(a.m, a.n, "A"), B(b.m, b.n, "B"), C(m, n, "C");
    A.set(a); B.set(b); C.set(c);
    E eal, ebe; Conv<E>::set(eal, al); Conv<E>::set(ebe, be);
    int strat = (int)P("strat", 0, 6);
    size_t nt = (size_t)P("nt", 1, 8), nt2 = (size_t)P("nt2", 1, 3);
    bool region = Pbool("region", 85);
    typedef ParSeqHelper::Parallel<CuttingStrategy::Recursive, StrategyParameter::ThreeDAdaptive> P3;
    typedef ParSeqHelper::Parallel<CuttingStrategy::Recursive, StrategyParameter::TwoDAdaptive> P2;
    typedef ParSeqHelper::Parallel<CuttingStrategy::Block, StrategyParameter::Threads> PB;
    auto run = [&](auto par) {
        typedef decltype(par) PS;
        typedef typename std::conditional<zring, MMHelperAlgo::Classic, MMHelperAlgo::Auto>::type Algo;
        MMHelper<F, Algo, typename ModeTraits<F>::value, PS> H(f, -1, par);
        if (region) { PAR_BLOCK { fgemm(f, tr(ta), tr(tb), m, n, k, eal, A.p, A.ld, B.p, B.ld, ebe, C.p, C.ld, H); } }
        else fgemm(f, tr(ta), tr(tb), m, n, k, eal, A.p, A.ld, B.p, B.ld, ebe, C.p, C.ld, H);
    };
    {
        sim::Section s;
        switch (strat) {
        case 0: run(P3(nt)); break;
        case 1: run(P2(nt)); break;
        case 2: run(PB(nt)); break;
        case 3: run(ParSeqHelper::Sequential()); break;
        default: fgemm(f, tr(ta), tr(tb), m, n, k, eal, A.p, A.ld, B.p, B.ld, ebe, C.p, C.ld);
        }
    }
    (void)nt2;
    ZM got = C.get(), want = mul(ta ? trans(a) : a, tb ? trans(b) : b);
    for (size_t i = 0; i < want.a.size(); ++i) want.a[i] = al * want.a[i] + be * c.a[i];
    if (p != 0) { canon(got, p, "fgemm"); want = reduce(want, p); }
    char w[160]; snprintf(w, sizeof w, "fgemm over %s, %zux%zux%zu, %zu bits, strategy %d", p == 0 ? "Z" : "Z/p", m, n, k, bits, strat);
    compare(got, want, w);
    A.same(a, "fgemm A"); B.same(b, "fgemm B"); A.pad("A"); B.pad("B"); C.pad("C");
    sim::observe(hash(got));
}
#ifdef MP_RNS
// the RNS domain itself: conversions and products by moduli, sequential and composed parallel helpers
WORKLOADF(rns) {
    sim::enter("par");
    draw_thresholds(false);
    size_t bits = bits_of_run(400);
    long hi = Pick("hi", {2, 4, 8, 13});
    size_t m = (size_t)Psize("m", 1, hi), n = (size_t)Psize("n", 1, hi), k = (size_t)Psize("k", 1, hi);
    int what = (int)P("what", 0, 2);
    ZM a = zmat(m, what ? n : k, bits, true, Pseed("a"), (int)P("sa", 0, 5)), b = zmat(k, n, bits, true, Pseed("b"), (int)P("sb", 0, 5)), c = zmat(m, n, bits, true, Pseed("c"), 0);
    Z be = scal("beta", Z(0), 20);
    typedef FFPACK::RNSInteger<FFPACK::rns_double> D;
    size_t pbits = (size_t)Pick("pbits", {23, 20, 22, 24});
    size_t kk = (bits + 15) / 16;
    Z bound(1); bound <<= bits + 2;
    if (what == 0) { bound = Z(2 * (uint64_t)k); bound <<= 2 * bits; }
    Buf<Z> A(a.m, a.n, "A"), B(b.m, b.n, "B"), C(m, n, "C");
    A.set(a); B.set(b); C.set(c);
    bool tr_ = Pbool("transpose"), major = Pbool("major");
    int strat = (int)P("strat", 0, 4);
    size_t nt = (size_t)P("nt", 1, 6), nt2 = (size_t)P("nt2", 1, 4);
    bool region = Pbool("region", 85);
    {
        sim::Section s;
        FFPACK::rns_double RNS(bound, pbits);
        D R(RNS);
        if (what == 0) {
            D::Element_ptr Ap = fflas_new(R, m, k), Bp = fflas_new(R, k, n), Cp = fflas_new(R, m, n);
            finit_rns(R, m, k, kk, A.p, A.ld, Ap);
            finit_rns(R, k, n, kk, B.p, B.ld, Bp);
            auto run = [&](auto par) {
                MMHelper<D, MMHelperAlgo::Classic, ModeCategories::DefaultTag, decltype(par)> H(R, -1, par);
                if (region) { PAR_BLOCK { fgemm(R, FflasNoTrans, FflasNoTrans, m, n, k, R.one, Ap, k, Bp, n, R.zero, Cp, n, H); } }
                else fgemm(R, FflasNoTrans, FflasNoTrans, m, n, k, R.one, Ap, k, Bp, n, R.zero, Cp, n, H);
            };
            typedef ParSeqHelper::Parallel<CuttingStrategy::RNSModulus, StrategyParameter::Threads> PM;
            typedef ParSeqHelper::Parallel<CuttingStrategy::Recursive, StrategyParameter::ThreeDAdaptive> P3;
            typedef ParSeqHelper::Parallel<CuttingStrategy::Block, StrategyParameter::Threads> PB;
            typedef ParSeqHelper::Sequential SQ;
            switch (strat) {
            case 0: run(ParSeqHelper::Compose<PM, SQ>(nt, 1)); break;
            case 1: run(ParSeqHelper::Compose<PM, P3>(nt, nt2)); break;
            case 2: run(ParSeqHelper::Compose<PM, PB>(nt, nt2)); break;
            case 3: run(P3(nt)); break;
            default: run(ParSeqHelper::Compose<SQ, P3>(1, nt2));
            }
            fconvert_rns(R, m, n, be, C.p, C.ld, Cp);
            fflas_delete(Ap); fflas_delete(Bp); fflas_delete(Cp);
        } else {
            size_t mn = m * n, rda = major ? RNS._size : mn;
            double* X = fflas_new<double>(mn * RNS._size);
            if (tr_) { RNS.init_transpose(m, n, X, rda, A.p, A.ld, kk, major); RNS.convert_transpose(m, n, be, C.p, C.ld, X, rda, major); }
            else { RNS.init(m, n, X, rda, A.p, A.ld, kk, major); RNS.convert(m, n, be, C.p, C.ld, X, rda, major); }
            fflas_delete(X);
        }
    }
    ZM want = what == 0 ? mul(a, b) : a, got = C.get();
    for (size_t i = 0; i < want.a.size(); ++i) want.a[i] = want.a[i] + be * c.a[i];
    char w[160]; snprintf(w, sizeof w, "RNS %s %zux%zux%zu, %zu bits, strategy %d transpose %d major %d", what == 0 ? "product" : "conversion", m, n, k, bits, strat, (int)tr_, (int)major);
    compare(got, want, w);
    A.same(a, "RNS input"); C.pad("C");
    sim::observe(hash(got));
}
namespace {
Z bareiss(ZM A) {
    size_t n = A.m; Z prev(1); int sg = 1;
    for (size_t k = 0; k + 1 < n; ++k) {
        size_t r = k; while (r < n && A(r, k) == 0) ++r;
        if (r == n) return Z(0);
        if (r != k) { for (size_t j = 0; j < n; ++j) std::swap(A(k, j), A(r, j)); sg = -sg; }
        for (size_t i = k + 1; i < n; ++i) for (size_t j = k + 1; j < n; ++j) { Z t = A(k, k) * A(i, j) - A(i, k) * A(k, j); A(i, j) = t / prev; }
        prev = A(k, k);
    }
    if (n == 0) return Z(1);
    return sg > 0 ? A(n - 1, n - 1) : Z(-A(n - 1, n - 1));
}
std::vector<Z> charpoly(const ZM& A) { // Faddeev-LeVerrier, exact over Z
    size_t n = A.m; std::vector<Z> c(n + 1, Z(0)); c[n] = 1;
    ZM M(n, n);
    for (size_t k = 1; k <= n; ++k) {
        M = mul(A, M);
        for (size_t i = 0; i < n; ++i) M(i, i) += c[n - k + 1];
        ZM AM = mul(A, M); Z t(0);
        for (size_t i = 0; i < n; ++i) t += AM(i, i);
        c[n - k] = -t / Z((uint64_t)k);
    }
    return c;
}
}
WORKLOADF(det) {
    sim::enter("par");
    draw_thresholds(false);
    size_t bits = bits_of_run(130);
    size_t n = (size_t)Psize("n", 1, Pick("hi", {1, 2, 3, 5, 8, 12}));
    ZM a = zmat(n, n, bits, true, Pseed("a"), (int)P("sa", 0, 5));
    if (Pbool("singular", 15) && n > 1) for (size_t j = 0; j < n; ++j) a(n - 1, j) = a(0, j) * 2;
    Buf<Z> A(n, n, "A"); A.set(a);
    ZZ f; Z d = scal("old", Z(0), 40);
    int strat = (int)P("strat", 0, 2); size_t nt = (size_t)P("nt", 1, 8);
    {
        sim::Section s;
        if (strat == 0) FFPACK::Det(f, d, n, A.p, A.ld);
        else if (strat == 1) FFPACK::pDet(f, d, n, A.p, A.ld, nt);
        else { ParSeqHelper::Parallel<CuttingStrategy::Recursive, StrategyParameter::Threads> par(nt); PAR_BLOCK { FFPACK::Det(f, d, n, A.p, A.ld, par, (size_t*)nullptr, (size_t*)nullptr); } }
    }
    Z want = bareiss(a);
    if (d != want) sim::violation("wrong-result", "determinant over Z, n=%zu, %zu bits: %s, expected %s", n, bits, str(d).c_str(), str(want).c_str());
    A.pad("A");
    sim::observe((uint64_t)pmod(d, Z(1000000007)));
}
WORKLOADF(charpoly) {
    sim::enter("seq");
    draw_thresholds(false);
    size_t bits = bits_of_run(80);
    size_t n = (size_t)Psize("n", 1, Pick("hi", {1, 2, 3, 5, 8}));
    ZM a = zmat(n, n, bits, true, Pseed("a"), (int)P("sa", 0, 5));
    Buf<Z> A(n, n, "A"); A.set(a);
    ZZ f; Givaro::Poly1Dom<ZZ> R(f); Givaro::Poly1Dom<ZZ>::Element cp;
    size_t old = (size_t)P("old", 0, 4);
    cp.resize(old); for (auto& x : cp) x = 5;
    bool dflt = Pbool("default");
    {
        sim::Section s;
        ZZ::RandIter G(f, (uint64_t)P("gseed", 1, 1000000));
        if (dflt) FFPACK::CharPoly(R, cp, n, A.p, A.ld, G);
        else FFPACK::CharPoly(R, cp, n, A.p, A.ld, G, Pbool("tag") ? FFPACK::FfpackLUK : FFPACK::FfpackArithProgKrylovPrecond);
    }
    std::vector<Z> want = charpoly(a);
    if (cp.size() != n + 1) sim::violation("wrong-result", "characteristic polynomial over Z has %zu coefficients for n=%zu", cp.size(), n);
    for (size_t i = 0; i <= n; ++i) if (cp[i] != want[i]) sim::violation("wrong-result", "characteristic polynomial over Z, n=%zu, %zu bits: coefficient %zu is %s, expected %s", n, bits, i, str(cp[i]).c_str(), str(want[i]).c_str());
    sim::observe(n);
}
#endif
#ifdef MP_MOD
namespace {
ZM zlow(const ZM& A, bool unit) { ZM B = A; for (size_t i = 0; i < A.m; ++i) for (size_t j = 0; j < A.n; ++j) if (j > i) B(i, j) = 0; else if (j == i && unit) B(i, j) = 1; return B; }
ZM zup(const ZM& A, bool unit) { ZM B = A; for (size_t i = 0; i < A.m; ++i) for (size_t j = 0; j < A.n; ++j) if (j < i) B(i, j) = 0; else if (j == i && unit) B(i, j) = 1; return B; }
void swr(ZM& A, size_t i, size_t j) { if (i != j) for (size_t k = 0; k < A.n; ++k) std::swap(A(i, k), A(j, k)); }
void swc(ZM& A, size_t i, size_t j) { if (i != j) for (size_t k = 0; k < A.m; ++k) std::swap(A(k, i), A(k, j)); }
size_t zrank(ZM A, const Z& p) {
    size_t r = 0;
    for (size_t j = 0; j < A.n && r < A.m; ++j) {
        size_t i = r; while (i < A.m && A(i, j) == 0) ++i;
        if (i == A.m) continue;
        swr(A, i, r);
        Z inv; Givaro::Integer g; Givaro::inv(inv, A(r, j), p);
        for (size_t x = r + 1; x < A.m; ++x) if (A(x, j) != 0) { Z c = pmod(A(x, j) * inv, p); for (size_t y = j; y < A.n; ++y) A(x, y) = pmod(A(x, y) - c * A(r, y), p); }
        ++r;
    }
    return r;
}
}
WORKLOADF(alg) {
    sim::enter("par");
    draw_thresholds(false);
    Z p; F f = Mk<F>::mk(p);
    size_t bits = p.bitsize();
    long hi = Pick("hi", {2, 4, 8, 13});
    size_t m = (size_t)Psize("m", 1, hi), n = (size_t)Psize("n", 1, hi);
    int op = (int)P("op", 0, 4);
    int sa = (int)P("sa", 0, 5);
    auto rnd = [&](size_t r, size_t c, const char* nm, int s) { ZM x = reduce(zmat(r, c, bits, false, Pseed(nm), s), p); if (s == 1 || s == 4) for (auto& e : x.a) e = p - 1; return x; };
    char w[160];
    if (op == 0) { // triangular solve
        bool left = Pbool("left"), up = Pbool("up"), ta = Pbool("ta"), unit = Pbool("unit");
        size_t t = left ? m : n;
        ZM a = rnd(t, t, "a", sa), b = rnd(m, n, "b", (int)P("sb", 0, 5));
        for (size_t i = 0; i < t; ++i) if (a(i, i) == 0) a(i, i) = 1;
        Z al = scal("alpha", p, bits);
        Buf<Z> A(t, t, "A"), B(m, n, "B"); A.set(a); B.set(b);
        { sim::Section s; ftrsm(f, left ? FflasLeft : FflasRight, up ? FflasUpper : FflasLower, tr(ta), unit ? FflasUnit : FflasNonUnit, m, n, al, A.p, A.ld, B.p, B.ld); }
        ZM x = B.get(); canon(x, p, "ftrsm");
        ZM T = up ? zup(a, unit) : zlow(a, unit); if (ta) T = trans(T);
        ZM got = reduce(left ? mul(T, x) : mul(x, T), p), want = b; for (auto& e : want.a) e = pmod(e * al, p);
        snprintf(w, sizeof w, "ftrsm over Z/p %zux%zu, %zu bits, left %d upper %d trans %d unit %d (product check)", m, n, bits, (int)left, (int)up, (int)ta, (int)unit);
        compare(got, want, w); A.same(a, "ftrsm A"); B.pad("B"); sim::observe(hash(x));
    } else if (op == 1 || op == 2) { // PLUQ sequential / parallel, LUdivine rank
        ZM a = rnd(m, n, "a", sa);
        size_t r = (size_t)Psize("r", 0, (long)std::min(m, n));
        if (Pbool("deficient")) { ZM x = rnd(m, r, "x", 0), y = rnd(r, n, "y", 0); a = reduce(mul(x, y), p); }
        Buf<Z> A(m, n, "A"); A.set(a);
        bool unit = Pbool("unit");
        size_t* Pp = (size_t*)sim::user_alloc(m * sizeof(size_t), 16); size_t* Qp = (size_t*)sim::user_alloc(n * sizeof(size_t), 16);
        size_t R = 0; size_t nt = (size_t)P("nt", 1, 6); int strat = (int)P("strat", 0, 2);
        {
            sim::Section s;
            FFLAS_DIAG d = unit ? FflasUnit : FflasNonUnit;
            if (strat == 0) { ParSeqHelper::Parallel<CuttingStrategy::Recursive, StrategyParameter::Threads> par(nt); PAR_BLOCK { R = FFPACK::PLUQ(f, d, m, n, A.p, A.ld, Pp, Qp, par); } }
            else R = FFPACK::PLUQ(f, d, m, n, A.p, A.ld, Pp, Qp);
        }
        ZM g = A.get(); canon(g, p, "PLUQ");
        size_t wr = zrank(a, p);
        snprintf(w, sizeof w, "PLUQ over Z/p %zux%zu, %zu bits, strategy %d", m, n, bits, strat);
        if (R != wr) sim::violation("wrong-result", "%s: rank %zu, true rank %zu", w, R, wr);
        for (size_t i = 0; i < m; ++i) if (Pp[i] < i || Pp[i] >= m) sim::violation("wrong-result", "%s: invalid row permutation", w);
        for (size_t i = 0; i < n; ++i) if (Qp[i] < i || Qp[i] >= n) sim::violation("wrong-result", "%s: invalid column permutation", w);
        ZM L(m, R), U(R, n);
        for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < R; ++j) L(i, j) = i == j ? (unit ? g(i, j) : Z(1)) : i > j ? g(i, j) : Z(0);
        for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < n; ++j) U(i, j) = i == j ? (unit ? Z(1) : g(i, j)) : j > i ? g(i, j) : Z(0);
        for (size_t i = m; i-- > 0;) swr(L, i, Pp[i]);
        for (size_t i = n; i-- > 0;) swc(U, i, Qp[i]);
        compare(reduce(mul(L, U), p), a, w); A.pad("A"); sim::observe(hash(g) + R);
    } else if (op == 3) { // determinant and inverse
        size_t t = m; ZM a = rnd(t, t, "a", sa);
        if (Pbool("singular", 20) && t > 1) for (size_t j = 0; j < t; ++j) a(t - 1, j) = a(0, j);
        bool reg = zrank(a, p) == t;
        Buf<Z> A(t, t, "A"), B(t, t, "B"); A.set(a);
        int nul = 0; bool detop = Pbool("det"); Z d(3);
        { sim::Section s; if (detop) FFPACK::Det(f, d, t, A.p, A.ld); else FFPACK::Invert(f, t, A.p, A.ld, B.p, B.ld, nul); }
        if (detop) {
            ZM x = a; Z want(1);
            for (size_t k = 0; k < t && want != 0; ++k) { size_t r = k; while (r < t && x(r, k) == 0) ++r; if (r == t) { want = 0; break; } if (r != k) { swr(x, r, k); want = pmod(-want, p); } want = pmod(want * x(k, k), p); Z inv; Givaro::inv(inv, x(k, k), p); for (size_t i = k + 1; i < t; ++i) { Z c = pmod(x(i, k) * inv, p); for (size_t j = k; j < t; ++j) x(i, j) = pmod(x(i, j) - c * x(k, j), p); } }
            if (d != want) sim::violation("wrong-result", "determinant over Z/p, n=%zu, %zu bits: %s, expected %s", t, bits, str(d).c_str(), str(want).c_str());
        } else {
            if ((nul == 0) != reg) sim::violation("wrong-result", "Invert over Z/p n=%zu: nullity %d, matrix regular: %d", t, nul, (int)reg);
            if (reg) { ZM x = B.get(); canon(x, p, "Invert"); ZM I(t, t); for (size_t i = 0; i < t; ++i) I(i, i) = 1; snprintf(w, sizeof w, "Invert over Z/p n=%zu, %zu bits", t, bits); compare(reduce(mul(a, x), p), I, w); B.pad("B"); }
        }
        sim::observe(reg);
    } else { // vector operations
        ZM a = rnd(m, n, "a", sa), x = rnd(n, 1, "x", (int)P("sx", 0, 5)), y = rnd(m, 1, "y", (int)P("sy", 0, 5));
        Z al = scal("alpha", p, bits), be = scal("beta", p, bits);
        bool ta = Pbool("ta"); if (ta) std::swap(x, y);
        Buf<Z> A(m, n, "A"), X(x.m, 1, "X"), Y(y.m, 1, "Y"); A.set(a); X.set(x); Y.set(y);
        int what = (int)P("vop", 0, 2);
        if (what == 0) {
            { sim::Section s; fgemv(f, tr(ta), m, n, al, A.p, A.ld, X.p, X.ld, be, Y.p, Y.ld); }
            ZM got = Y.get(), want = mul(ta ? trans(a) : a, x); canon(got, p, "fgemv");
            for (size_t i = 0; i < want.a.size(); ++i) want.a[i] = pmod(al * want.a[i] + be * y.a[i], p);
            snprintf(w, sizeof w, "fgemv over Z/p %zux%zu, %zu bits, trans %d", m, n, bits, (int)ta);
            compare(got, want, w); Y.pad("Y"); A.same(a, "fgemv A"); X.same(x, "fgemv X"); sim::observe(hash(got));
        } else if (what == 1) {
            ZM u = ta ? x : y, v = ta ? y : x; // u has m entries, v has n
            Buf<Z>&U = ta ? X : Y, &V = ta ? Y : X;
            { sim::Section s; fger(f, m, n, al, U.p, U.ld, V.p, V.ld, A.p, A.ld); }
            ZM got = A.get(), want = mul(u, trans(v)); canon(got, p, "fger");
            for (size_t i = 0; i < want.a.size(); ++i) want.a[i] = pmod(al * want.a[i] + a.a[i], p);
            snprintf(w, sizeof w, "fger over Z/p %zux%zu, %zu bits", m, n, bits);
            compare(got, want, w); A.pad("A"); sim::observe(hash(got));
        } else {
            Z d;
            { sim::Section s; d = fdot(f, x.m, X.p, X.ld, X.p, X.ld); }
            Z want(0); for (auto& e : x.a) want += e * e; want = pmod(want, p);
            if (d != want) sim::violation("wrong-result", "fdot over Z/p, n=%zu, %zu bits: %s, expected %s", x.m, bits, str(d).c_str(), str(want).c_str());
            sim::observe((uint64_t)pmod(d, Z(1000000007)));
        }
    }
}
#endif
