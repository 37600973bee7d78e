// Shared by the elimination workloads: structured inputs and LAPACK permutations, independent of the library.
#ifndef VERIF_WL_ELIM_H
#define VERIF_WL_ELIM_H
#include "wl_common.h"
#include <algorithm>
// matrix with a chosen kind of rank structure
static inline ref::M gen_struct(size_t m, size_t n, i64 p, const char* nm) {
    char b[40];
    auto q = [&](const char* s) { snprintf(b, sizeof b, "%s.%s", nm, s); return b; };
    int kind = (int)P(q("kind"), 0, 7);
    uint64_t seed = Pseed(q("seed"));
    size_t mn = std::min(m, n);
    size_t r = (size_t)Psize(q("r"), 0, (long)mn);
    sim::Rng g(seed + 5);
    switch (kind) {
    case 0: return rnd(m, n, p, seed);
    case 1: return rnd_rank(m, n, r, p, seed);
    case 2: { // L.E.U with E a random r-sub-permutation: exact rank, arbitrary rank profile matrix
        std::vector<size_t> ri(m), ci(n);
        for (size_t i = 0; i < m; ++i) ri[i] = i;
        for (size_t i = 0; i < n; ++i) ci[i] = i;
        for (size_t i = m; i > 1; --i) std::swap(ri[i - 1], ri[g.below(i)]);
        for (size_t i = n; i > 1; --i) std::swap(ci[i - 1], ci[g.below(i)]);
        ref::M E(m, n), L = rnd(m, m, p, seed + 1), U = rnd(n, n, p, seed + 2);
        for (size_t i = 0; i < r; ++i) E(ri[i], ci[i]) = 1 + (i64)g.below((uint64_t)p - 1);
        for (size_t i = 0; i < m; ++i) { for (size_t j = i + 1; j < m; ++j) L(i, j) = 0; L(i, i) = 1; }
        for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < i; ++j) U(i, j) = 0; U(i, i) = 1; }
        if (g.below(3) == 0) return E;
        return ref::mul(ref::mul(L, E, p), U, p);
    }
    case 3: return rnd(m, n, p, seed, 70);
    case 4: return rnd(m, n, p, seed, 93);
    case 5: { // zero leading block
        ref::M A = rnd(m, n, p, seed);
        size_t a = (size_t)g.below(m + 1), c = (size_t)g.below(n + 1);
        for (size_t i = 0; i < a; ++i) for (size_t j = 0; j < c; ++j) A(i, j) = 0;
        return A;
    }
    case 6: { // repeated rows and columns, extreme entries
        ref::M A = rnd_ext(m, n, p, seed, 2);
        for (size_t i = 1; i < m; ++i) if (g.below(3) == 0) { size_t k = (size_t)g.below(i); for (size_t j = 0; j < n; ++j) A(i, j) = A(k, j); }
        for (size_t j = 1; j < n; ++j) if (g.below(3) == 0) { size_t k = (size_t)g.below(j); for (size_t i = 0; i < m; ++i) A(i, j) = A(i, k); }
        return A;
    }
    default: { // anti-triangular or zero
        ref::M A(m, n);
        if (g.below(4)) for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) if (i + j + 1 >= mn) A(i, j) = (i64)g.below((uint64_t)p);
        return A;
    }
    }
}
// non-singular square matrix with arbitrary pivot structure
static inline ref::M gen_regular(size_t n, i64 p, const char* nm) {
    char b[40];
    snprintf(b, sizeof b, "%s.seed", nm);
    uint64_t seed = Pseed(b);
    snprintf(b, sizeof b, "%s.kind", nm);
    int kind = (int)P(b, 0, 2);
    sim::Rng g(seed + 5);
    ref::M E(n, n), L = rnd(n, n, p, seed + 1, kind == 2 ? 80 : 0), U = rnd(n, n, p, seed + 2, kind == 2 ? 80 : 0);
    std::vector<size_t> c(n);
    for (size_t i = 0; i < n; ++i) c[i] = i;
    if (kind) for (size_t i = n; i > 1; --i) std::swap(c[i - 1], c[g.below(i)]);
    for (size_t i = 0; i < n; ++i) E(i, c[i]) = 1 + (i64)g.below((uint64_t)p - 1);
    for (size_t i = 0; i < n; ++i) { for (size_t j = i + 1; j < n; ++j) L(i, j) = 0; L(i, i) = 1; }
    for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < i; ++j) U(i, j) = 0; U(i, i) = 1; }
    return ref::mul(ref::mul(L, E, p), U, p);
}
static inline void swap_rows(ref::M& A, size_t i, size_t j) { if (i != j) for (size_t k = 0; k < A.n; ++k) std::swap(A(i, k), A(j, k)); }
static inline void swap_cols(ref::M& A, size_t i, size_t j) { if (i != j) for (size_t k = 0; k < A.m; ++k) std::swap(A(k, i), A(k, j)); }
// P^T.A for the LAPACK permutation P: transpositions undone from last to first
static inline void rows_rev(ref::M& A, const size_t* P, size_t n) { for (size_t i = n; i-- > 0;) swap_rows(A, i, P[i]); }
static inline void rows_fwd(ref::M& A, const size_t* P, size_t n) { for (size_t i = 0; i < n; ++i) swap_rows(A, i, P[i]); }
static inline void cols_rev(ref::M& A, const size_t* P, size_t n) { for (size_t i = n; i-- > 0;) swap_cols(A, i, P[i]); }
static inline void cols_fwd(ref::M& A, const size_t* P, size_t n) { for (size_t i = 0; i < n; ++i) swap_cols(A, i, P[i]); }
struct Perm { // guarded permutation array
    size_t n; size_t* p;
    Perm(size_t n_) : n(n_) { p = (size_t*)sim::user_alloc(n * sizeof(size_t), 16); for (size_t i = 0; i < n; ++i) p[i] = 0x5a5a5a5a5a5aull; }
    void lapack(const char* what, size_t upto, size_t bound) const {
        for (size_t i = 0; i < upto; ++i) if (p[i] < i || p[i] >= bound) sim::violation("wrong-result", "%s: entry %zu of the transposition sequence of length %zu is %zu", what, i, upto, p[i]);
    }
};
static inline std::string list(const std::vector<size_t>& v) { std::string s; for (size_t x : v) s += (s.empty() ? "" : ",") + std::to_string(x); return s; }
#endif
