// Characteristic and minimal polynomials: randomised (Las Vegas / Monte Carlo) algorithms under simulated randomness.
#include "wl_elim.h"
#include "wl_vec.h"
#include <givaro/givpoly1.h>
using namespace FFLAS;
typedef FIELD F;
typedef Givaro::Poly1Dom<F> R_t;
typedef R_t::Element Poly;
#define BAD(...) sim::violation("wrong-result", __VA_ARGS__)
namespace {
// square matrices of every similarity type
ref::M gen_sim(size_t n, i64 p) {
    int kind = (int)P("A.type", 0, 9);
    uint64_t seed = Pseed("A.tseed");
    sim::Rng g(seed + 9);
    if (kind <= 2 || n == 0) return gen_struct(n, n, p, "A");
    if (kind == 3) return gen_regular(n, p, "A");
    ref::M A(n, n);
    auto el = [&] { return (i64)g.below((uint64_t)p); };
    if (kind == 4) { i64 c = g.below(3) ? el() : 0; for (size_t i = 0; i < n; ++i) A(i, i) = c; if (g.below(2)) return A; A(n - 1, 0) = el(); return A; }
    // block diagonal of companion / Jordan blocks, possibly repeated, then conjugated
    size_t i = 0; std::vector<i64> last; size_t maxb = 1 + (size_t)g.below(n);
    bool rep = g.below(2);
    while (i < n) {
        size_t b = 1 + (size_t)g.below(maxb);
        if (rep && last.size()) b = last.size();
        if (b > n - i) b = n - i;
        if (!(rep && last.size() == b)) { last.assign(b, 0); for (auto& x : last) x = kind == 5 ? 0 : el(); if (kind == 6) { i64 l = el(); for (auto& x : last) x = 0; last[0] = l; } }
        for (size_t k = 0; k + 1 < b; ++k) A(i + k + 1, i + k) = 1;
        for (size_t k = 0; k < b; ++k) A(i + k, i + b - 1) = last[k];
        i += b;
    }
    if (kind <= 7) { // conjugate by a unit lower and a unit upper triangular matrix and a permutation
        ref::M L = rnd(n, n, p, seed + 1, g.below(2) ? 70 : 0), U = rnd(n, n, p, seed + 2, g.below(2) ? 70 : 0), X;
        for (size_t a = 0; a < n; ++a) { for (size_t b = a + 1; b < n; ++b) L(a, b) = U(b, a) = 0; L(a, a) = U(a, a) = 1; }
        ref::M T = ref::mul(L, U, p);
        ref::inverse(T, X, p);
        A = ref::mul(ref::mul(T, A, p), X, p);
    } else if (g.below(2)) A = ref::transpose(A);
    return A;
}
std::string pstr(const std::vector<i64>& v) { std::string s; for (size_t i = 0; i < v.size() && i < 14; ++i) s += (i ? "," : "") + std::to_string(v[i]); return s; }
std::vector<i64> pmod(std::vector<i64> a, const std::vector<i64>& b, i64 p) { // b monic
    while (a.size() >= b.size()) { i64 c = a.back(); size_t o = a.size() - b.size(); for (size_t i = 0; i < b.size(); ++i) a[o + i] = ref::mod((ref::i128)a[o + i] - (ref::i128)c * b[i], p); a.pop_back(); }
    return a;
}
std::vector<i64> pmul(const std::vector<i64>& a, const std::vector<i64>& b, i64 p) { std::vector<i64> c(a.size() + b.size() - 1, 0); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) c[i + j] = ref::mod((ref::i128)c[i + j] + (ref::i128)a[i] * b[j], p); return c; }
template <class V> std::vector<i64> take(const F& f, const V& v, const char* what) { std::vector<i64> r; for (auto& x : v) r.push_back(get(f, x, what)); return r; }
// minimal polynomial of (A, v): first dependency among v, Av, A^2 v, ...
std::vector<i64> vecmin(const ref::M& A, std::vector<i64> v, i64 p) {
    size_t n = A.m;
    std::vector<std::vector<i64>> rows, comb; std::vector<size_t> piv;
    for (size_t k = 0;; ++k) {
        std::vector<i64> w = v, c(n + 1, 0); c[k] = 1;
        for (size_t r = 0; r < rows.size(); ++r) if (w[piv[r]]) { i64 t = w[piv[r]]; for (size_t j = 0; j < n; ++j) w[j] = ref::mod((ref::i128)w[j] - (ref::i128)t * rows[r][j], p); for (size_t j = 0; j <= n; ++j) c[j] = ref::mod((ref::i128)c[j] - (ref::i128)t * comb[r][j], p); }
        size_t q = 0; while (q < n && !w[q]) ++q;
        if (q == n) { c.resize(k + 1); return c; }
        i64 iv = ref::invm(w[q], p);
        for (auto& x : w) x = ref::mulm(x, iv, p);
        for (auto& x : c) x = ref::mulm(x, iv, p);
        rows.push_back(w); comb.push_back(c); piv.push_back(q);
        std::vector<i64> z(n, 0);
        for (size_t i = 0; i < n; ++i) { ref::i128 s = 0; for (size_t j = 0; j < n; ++j) s = (s + (ref::i128)A(i, j) * v[j]) % p; z[i] = (i64)s; }
        v = z;
    }
}
}
WORKLOADF(charpoly) {
    sim::enter("seq");
    draw_thresholds(false);
    F f = make_field<F>(); i64 p = charac(f);
    size_t n = (size_t)Psize("n", 0, Pick("hi", {3, 6, 10, 16, 30}));
    ref::M a = gen_sim(n, p);
    Mat<F> A(f, n, n, "A"); A.set(a);
    R_t R(f);
    int tag = (int)P("tag", 0, 3);
    FFPACK::FFPACK_CHARPOLY_TAG T = tag == 0 ? FFPACK::FfpackAuto : tag == 1 ? FFPACK::FfpackDanilevski : tag == 2 ? FFPACK::FfpackLUK : FFPACK::FfpackArithProgKrylovPrecond;
    int form = (int)P("form", 0, 2);
    size_t deg = (size_t)Pick("deg", {1, 2, 3, 5, 8, 14, 30});
    bool useDeg = Pbool("useDeg", 70);
    Poly cp; std::list<Poly> fl;
    size_t old = (size_t)P("old", 0, 3); { for (size_t i = 0; i < old; ++i) { F::Element e; put(f, e, 1); cp.push_back(e); } }
    uint64_t gs = (uint64_t)P("gseed", 1, 1000000000);
    if (!n && form == 2) form = 0;
    {
        sim::Section s;
        F::RandIter G(f, gs);
        if (form == 0) { if (useDeg) FFPACK::CharPoly(R, cp, n, A.p, A.ld, G, T, deg); else FFPACK::CharPoly(R, cp, n, A.p, A.ld, G, T); }
        else if (form == 1) { if (useDeg) FFPACK::CharPoly(R, cp, n, A.p, A.ld, T, deg); else FFPACK::CharPoly(R, cp, n, A.p, A.ld, T); }
        else { if (useDeg) FFPACK::CharPoly(R, fl, n, A.p, A.ld, G, T, deg); else FFPACK::CharPoly(R, fl, n, A.p, A.ld, G, T); }
    }
    std::vector<i64> want = n ? ref::charpoly(a, p) : std::vector<i64>{1}, got;
    if (form == 2) { got = {1}; for (auto& q : fl) { std::vector<i64> c = take(f, q, "characteristic polynomial factor"); if (c.empty() || c.back() != 1) BAD("CharPoly mod %lld, n=%zu, variant %d: a factor is not monic (%s)", p, n, tag, pstr(c).c_str()); got = pmul(got, c, p); } }
    else got = take(f, cp, "characteristic polynomial");
    if (got != want) BAD("CharPoly mod %lld, n=%zu, variant %d, degree %zu, form %d: %s, expected %s (constant term first)", p, n, tag, useDeg ? deg : 0, form, pstr(got).c_str(), pstr(want).c_str());
    A.padding_ok("A");
    for (i64 x : got) sim::observe((uint64_t)x);
}
WORKLOADF(minpoly) {
    sim::enter("seq");
    draw_thresholds(false);
    F f = make_field<F>(); i64 p = charac(f);
    size_t n = (size_t)Psize("n", 0, Pick("hi", {3, 6, 10, 16, 24}));
    ref::M a = gen_sim(n, p);
    Mat<F> A(f, n, n, "A"); A.set(a); A.snapshot();
    bool vec = Pbool("vec") && n;
    std::vector<std::vector<i64>> res;
    if (vec) {
        Vec V(f, n, "incv"); ref::M v = rnd(n, 1, p, Pseed("v"), Pbool("sparse") ? 80 : 0);
        bool nz = false; for (auto x : v.a) nz |= x != 0;
        if (!nz) v.a[(size_t)P("e", 0, (long)n - 1)] = 1;
        V.set(v); V.snapshot();
        Poly m;
        { sim::Section s; FFPACK::MatVecMinPoly(f, m, n, A.p, A.ld, V.p, V.inc); }
        std::vector<i64> got = take(f, m, "minimal polynomial"), want = vecmin(a, v.a, p);
        if (got != want) BAD("MatVecMinPoly mod %lld, n=%zu, incv %zu: %s, expected %s (constant term first)", p, n, V.inc, pstr(got).c_str(), pstr(want).c_str());
        V.unchanged("MatVecMinPoly v"); V.gaps("v");
        for (i64 x : got) sim::observe((uint64_t)x);
    } else {
        std::vector<i64> mu = n ? ref::minpoly(a, p) : std::vector<i64>{1};
        size_t best = 0; int tries = (int)Pick("tries", {1, 3});
        for (int t = 0; t < tries; ++t) {
            Poly m; uint64_t gs = (uint64_t)P("gseed", 1, 1000000000) + 7919ull * (uint64_t)t;
            { sim::Section s; if (Pbool("own")) { F::RandIter G(f, gs); FFPACK::MinPoly(f, m, n, A.p, A.ld, G); } else FFPACK::MinPoly(f, m, n, A.p, A.ld); }
            std::vector<i64> got = take(f, m, "minimal polynomial");
            if (got.empty() || got.back() != 1 || (n && got.size() < 2)) BAD("MinPoly mod %lld, n=%zu: not a monic polynomial of positive degree (%s)", p, n, pstr(got).c_str());
            std::vector<i64> r = pmod(mu, got, p); bool z = true; for (auto x : r) z &= x == 0;
            if (got.size() > mu.size() || !z) BAD("MinPoly mod %lld, n=%zu: %s does not divide the minimal polynomial %s (constant term first)", p, n, pstr(got).c_str(), pstr(mu).c_str());
            best = std::max(best, got.size());
            for (i64 x : got) sim::observe((uint64_t)x);
        }
        // Monte Carlo: each attempt misses with probability at most n/p
        if (tries == 3 && p > 60000 && best < mu.size()) BAD("MinPoly mod %lld, n=%zu: three attempts with independent random vectors all returned a strict divisor (degree %zu) of the minimal polynomial (degree %zu)", p, n, best - 1, mu.size() - 1);
    }
    A.unchanged("MinPoly A"); A.padding_ok("A");
}
