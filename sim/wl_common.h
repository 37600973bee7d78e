// Shared by all workloads: fields, guarded matrices, conversions to the reference model.
#ifndef VERIF_WL_COMMON_H
#define VERIF_WL_COMMON_H
#include "wl_base.h"
#include <fflas-ffpack/fflas-ffpack-config.h>
#include <givaro/modular.h>
#include <givaro/modular-balanced.h>
#include <givaro/zring.h>
#ifdef VERIF_ONLY_FFLAS
#include <fflas-ffpack/fflas/fflas.h>
#else
#include <fflas-ffpack/fflas-ffpack.h>
#endif
#include <cstring>
#include <cmath>
#include <type_traits>

// VIA_C: the calls go through the C interface of the precompiled library (cif.h); VSEL selects what it offers
#ifdef VIA_C
#define VSEL(cval, expr) (cval)
#define NT(x) cns::x
#else
#define VSEL(cval, expr) (expr)
#define NT(x) FFPACK::x
#endif
using sim::P; using sim::Psize; using sim::Pick; using sim::Pbool; using sim::Pseed;
typedef ref::i64 i64;

#define VCAT2(a, b) a##_##b
#define VCAT(a, b) VCAT2(a, b)
#define VSTR2(a) #a
#define VSTR(a) VSTR2(a)
// WORKLOADF(name): workload name is <name>_<FTAG>
#define WORKLOADF(NAME) \
    static void wl_##NAME(); \
    static sim::Reg reg_##NAME(#NAME "_" VSTR(FTAG), &wl_##NAME); \
    static void wl_##NAME()

#ifdef VIA_C
#include "cif.h"
#endif
template <class F> struct Primes;
template <> struct Primes<Givaro::Modular<double>> { static std::vector<long> v() { return {2, 3, 5, 7, 11, 13, 17, 101, 251, 8191, 65521, 1048573, 8388593, 67108859, 94906249}; } };
template <> struct Primes<Givaro::Modular<float>> { static std::vector<long> v() { return {2, 3, 5, 7, 11, 17, 101, 251, 1009, 2039, 4093}; } };
template <> struct Primes<Givaro::ModularBalanced<double>> { static std::vector<long> v() { return {3, 5, 7, 11, 13, 101, 8191, 65521, 1048573, 67108859, 134217689}; } };
template <> struct Primes<Givaro::ModularBalanced<float>> { static std::vector<long> v() { return {3, 5, 7, 11, 101, 1009, 4093, 8191}; } };
template <> struct Primes<Givaro::Modular<int64_t>> { static std::vector<long> v() { return {2, 3, 5, 7, 101, 65521, 1048573, 67108859, 1073741789, 2147483647L, 3037000493L}; } };
template <> struct Primes<Givaro::ModularBalanced<int64_t>> { static std::vector<long> v() { return {3, 5, 7, 101, 65521, 67108859, 1073741789}; } };
template <> struct Primes<Givaro::Modular<uint64_t>> { static std::vector<long> v() { return {2, 3, 5, 7, 101, 65521, 1048573, 67108859, 1073741789, 2147483647L, 4294967291L}; } };
template <> struct Primes<Givaro::Modular<uint32_t>> { static std::vector<long> v() { return {2, 3, 5, 7, 101, 1009, 32749, 46337, 65521}; } };
template <> struct Primes<Givaro::Modular<int32_t>> { static std::vector<long> v() { return {2, 3, 5, 7, 101, 1009, 32749, 46337}; } };
template <> struct Primes<Givaro::ModularBalanced<int32_t>> { static std::vector<long> v() { return {3, 5, 7, 101, 1009, 32749}; } };

static inline bool is_prime(uint64_t n) {
    if (n < 2) return false;
    for (uint64_t q : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) { if (n % q == 0) return n == q; }
    uint64_t d = n - 1; int s = 0;
    while (!(d & 1)) { d >>= 1; ++s; }
    for (uint64_t a : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
        i64 x = ref::powm((i64)a, d, (i64)n);
        if (x == 1 || (uint64_t)x == n - 1) continue;
        bool comp = true;
        for (int i = 1; i < s && comp; ++i) { x = ref::mulm(x, x, (i64)n); if ((uint64_t)x == n - 1) comp = false; }
        if (comp) return false;
    }
    return true;
}
template <class F> F make_field(const char* name = "p") {
    std::vector<long> v = Primes<F>::v();
    std::vector<long> w;
    for (long x : v) if ((double)x <= (double)F::maxCardinality()) w.push_back(x);
    long p = Pick(name, w);
    // otherwise any prime of the field's range: log-uniform, or among the largest
    // or a prime at which the sum of j products just fits, or just does not fit, in the mantissa of some machine type
    int kind = (int)P("pkind", 0, 11);
    if (kind >= 10) {
        long top = w.back(), lo = w.front();
        long j = P("pfit", 1, 64);
        double B = std::ldexp(1.0, (int)Pick("pmant", {24, 53, 53, 63, 64, 31, 32}));
        double x0 = std::sqrt(B / (double)j) * (Pbool("pbal", 30) ? 2 : 1);
        long x = x0 > (double)top ? top : (long)x0 + (kind == 11 ? 1 : 0);
        if (kind == 11) while (x < top && !is_prime((uint64_t)x)) ++x;
        while (x > lo && !is_prime((uint64_t)x)) --x;
        p = x < lo ? lo : x > top ? top : x;
    } else if (kind >= 6) {
        long top = w.back(), lo = w.front();
        sim::Rng r(Pseed("pseed"));
        double u = (double)(r.next() >> 11) / 9007199254740992.0;
        long x = kind == 9 ? (long)((double)top * (0.5 + 0.5 * u)) : (long)std::exp(std::log((double)lo) + u * (std::log((double)top) - std::log((double)lo)));
        if (x > top) x = top;
        while (x > lo && !is_prime((uint64_t)x)) --x;
        p = x < lo ? lo : x;
    }
    return F((typename F::Residu_t)p);
}
template <class F> i64 charac(const F& f) { return (i64)(uint64_t)f.characteristic(); }

template <class F> void put(const F& f, typename F::Element& e, i64 v) { f.init(e, (int64_t)v); }

// is the stored value the reduced representation of a residue?
template <class E, class F> typename std::enable_if<std::is_floating_point<E>::value, bool>::type canonical(const F& f, const E& e) {
    return e == std::floor(e) && e >= (E)f.minElement() && e <= (E)f.maxElement();
}
template <class E, class F> typename std::enable_if<std::is_integral<E>::value, bool>::type canonical(const F& f, const E& e) {
    return e >= (E)f.minElement() && e <= (E)f.maxElement();
}
template <class F> i64 get(const F& f, const typename F::Element& e, const char* what) {
    if (!canonical<typename F::Element>(f, e)) sim::violation("wrong-result", "%s: entry %g is not a reduced field element (mod %lld)", what, (double)e, charac(f));
    int64_t x = (int64_t)e;
    i64 p = charac(f);
    x %= p;
    if (x < 0) x += p;
    return x;
}
static const uint64_t SENT64 = 0x7ff7a5a57ff7a5a5ull; // NaN as double and as two floats

// matrix with guarded padding, built on sim::user_alloc
template <class F> struct Mat {
    typedef typename F::Element E;
    const F& f;
    size_t m, n, ld, off;
    E* raw; E* p;
    size_t total;
    std::vector<char> snap;
    Mat(const F& f_, size_t m_, size_t n_, const char* name, bool pad = true) : f(f_), m(m_), n(n_) {
        char b[40];
        snprintf(b, sizeof b, "%s.pad", name);
        size_t extra = pad ? (size_t)Pick(b, {0, 0, 1, 3, 7}) : 0;
        snprintf(b, sizeof b, "%s.off", name);
        off = pad ? (size_t)Pick(b, {0, 0, 1, 2, 3}) : 0;
        ld = n + extra;
        if (ld == 0) ld = 1;
        total = off + m * ld;
        raw = (E*)sim::user_alloc(total * sizeof(E), 64);
        fill_sent();
        p = raw + off;
    }
    void fill_sent() { for (size_t i = 0; i < total; ++i) sent(raw[i], i); }
    void sent(E& e, size_t i) const { const char* s = (const char*)&SENT64; size_t o = (i * sizeof(E)) & 7; for (size_t k = 0; k < sizeof(E); ++k) ((char*)&e)[k] = s[(o + k) & 7]; }
    bool is_sent(const E& e, size_t i) const { E t; sent(t, i); return !memcmp(&t, &e, sizeof(E)); }
    void set(const ref::M& A) { for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) put(f, p[i * ld + j], A(i, j)); }
    ref::M get(const char* what) const { ref::M A(m, n); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) A(i, j) = ::get(f, p[i * ld + j], what); return A; }
    void snapshot() { snap.assign((char*)raw, (char*)(raw + total)); }
    void unchanged(const char* what) const {
        if (snap.size() && memcmp(snap.data(), raw, snap.size())) sim::violation("footprint", "%s: read-only operand was modified", what);
    }
    void padding_ok(const char* what) const {
        for (size_t i = 0; i < total; ++i) {
            bool pad = i < off || (i - off) % ld >= n;
            if (pad && !is_sent(raw[i], i)) sim::violation("footprint", "%s: memory outside the %zux%zu matrix (leading dimension %zu) was written, at element offset %ld", what, m, n, ld, (long)i - (long)off);
        }
    }
};
static inline ref::M rnd(size_t m, size_t n, i64 p, uint64_t seed, int zero_pct = 0) {
    sim::Rng r(seed); ref::M A(m, n);
    for (auto& x : A.a) { x = (i64)r.below((uint64_t)p); if (zero_pct && (int)r.below(100) < zero_pct) x = 0; }
    return A;
}
// biased entries: extremes of the field range stress delayed reductions
static inline ref::M rnd_ext(size_t m, size_t n, i64 p, uint64_t seed, int style) {
    ref::M A = rnd(m, n, p, seed, style == 3 ? 70 : 0);
    sim::Rng r(seed + 17);
    if (style == 1) for (auto& x : A.a) x = p - 1;
    if (style == 2) for (auto& x : A.a) x = (r.below(2)) ? p - 1 : (p / 2);
    if (style == 4) for (auto& x : A.a) x = (r.below(2)) ? (p + 1) / 2 : (p - 1) / 2;
    if (style == 5 || style == 6) for (auto& x : A.a) x = style == 5 ? (p - 1) / 2 : (p + 1) / 2 % p;
    return A;
}
// random matrix of rank r with random rank profile
static inline ref::M rnd_rank(size_t m, size_t n, size_t r, i64 p, uint64_t seed) {
    ref::M L = rnd(m, r, p, seed + 1), U = rnd(r, n, p, seed + 2);
    // sparsify some rows/columns to make profiles non-generic
    sim::Rng g(seed + 3);
    for (size_t i = 0; i < m; ++i) if (g.below(5) == 0) for (size_t j = 0; j < r; ++j) L(i, j) = 0;
    for (size_t j = 0; j < n; ++j) if (g.below(5) == 0) for (size_t i = 0; i < r; ++i) U(i, j) = 0;
    return ref::mul(L, U, p);
}
static inline FFLAS::FFLAS_TRANSPOSE tr(bool b) { return b ? FFLAS::FflasTrans : FFLAS::FflasNoTrans; }
#endif
