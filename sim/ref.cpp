#include "ref.h"
#include <algorithm>
#include <cstdio>
namespace ref {
i64 mod(i128 x, i64 p) { i128 r = x % p; if (r < 0) r += p; return (i64)r; }
i64 mulm(i64 a, i64 b, i64 p) { return (i64)((i128)a * b % p); }
i64 powm(i64 a, uint64_t e, i64 p) { i64 r = 1 % p; a = mod(a, p); while (e) { if (e & 1) r = mulm(r, a, p); a = mulm(a, a, p); e >>= 1; } return r; }
i64 invm(i64 a, i64 p) {
    i64 r0 = p, r1 = mod(a, p), t0 = 0, t1 = 1;
    while (r1) { i64 q = r0 / r1, r = r0 - q * r1; r0 = r1; r1 = r; i64 t = (i64)((i128)t0 - (i128)q * t1); t0 = t1; t1 = t; }
    return mod(t0, p);
}
M mul(const M& A, const M& B, i64 p) {
    M C(A.m, B.n);
    if (p < (1LL << 31)) {
        std::vector<unsigned long long> acc(B.n);
        unsigned long long lim = ~0ull - (unsigned long long)(p - 1) * (unsigned long long)(p - 1);
        for (size_t i = 0; i < A.m; ++i) {
            std::fill(acc.begin(), acc.end(), 0ull);
            for (size_t l = 0; l < A.n; ++l) {
                unsigned long long x = (unsigned long long)A(i, l);
                if (!x) continue;
                for (size_t j = 0; j < B.n; ++j) { if (acc[j] > lim) acc[j] %= (unsigned long long)p; acc[j] += x * (unsigned long long)B(l, j); }
            }
            for (size_t j = 0; j < B.n; ++j) C(i, j) = (i64)(acc[j] % (unsigned long long)p);
        }
        return C;
    }
    for (size_t i = 0; i < A.m; ++i)
        for (size_t l = 0; l < A.n; ++l) { i64 x = A(i, l); if (x) for (size_t j = 0; j < B.n; ++j) C(i, j) = (i64)(((i128)x * B(l, j) + C(i, j)) % p); }
    return C;
}
M transpose(const M& A) { M T(A.n, A.m); for (size_t i = 0; i < A.m; ++i) for (size_t j = 0; j < A.n; ++j) T(j, i) = A(i, j); return T; }
M identity(size_t n) { M I(n, n); for (size_t i = 0; i < n; ++i) I(i, i) = 1; return I; }
M add(const M& A, const M& B, i64 p) { M C(A.m, A.n); for (size_t i = 0; i < C.a.size(); ++i) C.a[i] = mod((i128)A.a[i] + B.a[i], p); return C; }
M sub(const M& A, const M& B, i64 p) { M C(A.m, A.n); for (size_t i = 0; i < C.a.size(); ++i) C.a[i] = mod((i128)A.a[i] - B.a[i], p); return C; }
M scale(i64 s, const M& A, i64 p) { M C(A.m, A.n); for (size_t i = 0; i < C.a.size(); ++i) C.a[i] = mulm(s, A.a[i], p); return C; }
static size_t elim(M& A, i64 p, i64* detp, std::vector<size_t>* piv) {
    size_t r = 0; i64 d = 1 % p;
    for (size_t j = 0; j < A.n && r < A.m; ++j) {
        size_t k = r; while (k < A.m && A(k, j) == 0) ++k;
        if (k == A.m) continue;
        if (k != r) { for (size_t l = 0; l < A.n; ++l) std::swap(A(k, l), A(r, l)); d = mod(-(i128)d, p); }
        d = mulm(d, A(r, j), p);
        i64 iv = invm(A(r, j), p);
        for (size_t i = r + 1; i < A.m; ++i) if (A(i, j)) {
            i64 f = mulm(A(i, j), iv, p);
            for (size_t l = j; l < A.n; ++l) A(i, l) = mod((i128)A(i, l) - (i128)f * A(r, l), p);
        }
        if (piv) piv->push_back(j);
        ++r;
    }
    if (detp) *detp = (A.m == A.n && r == A.m) ? d : 0;
    return r;
}
size_t rank(M A, i64 p) { return elim(A, p, nullptr, nullptr); }
i64 det(M A, i64 p) { i64 d; elim(A, p, &d, nullptr); return d; }
bool inverse(const M& A, M& X, i64 p) {
    size_t n = A.m; M W(n, 2 * n);
    for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) W(i, j) = A(i, j); W(i, n + i) = 1 % p; }
    for (size_t j = 0; j < n; ++j) {
        size_t k = j; while (k < n && !W(k, j)) ++k;
        if (k == n) return false;
        if (k != j) for (size_t l = 0; l < 2 * n; ++l) std::swap(W(k, l), W(j, l));
        i64 iv = invm(W(j, j), p);
        for (size_t l = 0; l < 2 * n; ++l) W(j, l) = mulm(W(j, l), iv, p);
        for (size_t i = 0; i < n; ++i) if (i != j && W(i, j)) { i64 f = W(i, j); for (size_t l = 0; l < 2 * n; ++l) W(i, l) = mod((i128)W(i, l) - (i128)f * W(j, l), p); }
    }
    X = M(n, n);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) X(i, j) = W(i, n + j);
    return true;
}
size_t profiles(const M& A, i64 p, std::vector<size_t>& rrp, std::vector<size_t>& crp) {
    rrp.clear(); crp.clear();
    M B = A; size_t r = elim(B, p, nullptr, &crp);
    M T = transpose(A); elim(T, p, nullptr, &rrp);
    return r;
}
M rank_profile_matrix(const M& A, i64 p) {
    // eliminate choosing, row by row, the leftmost pivot; only rows below and columns to the right are updated
    M W = A, R(A.m, A.n);
    std::vector<char> used(A.n, 0);
    for (size_t i = 0; i < A.m; ++i) {
        size_t j = 0; while (j < A.n && !(W(i, j) && !used[j])) ++j;
        // columns already used have been cleared in row i by construction
        if (j == A.n) continue;
        R(i, j) = 1; used[j] = 1;
        i64 iv = invm(W(i, j), p);
        for (size_t k = i + 1; k < A.m; ++k) if (W(k, j)) { i64 f = mulm(W(k, j), iv, p); for (size_t l = j; l < A.n; ++l) W(k, l) = mod((i128)W(k, l) - (i128)f * W(i, l), p); }
    }
    return R;
}
std::vector<i64> charpoly(const M& A0, i64 p) {
    size_t n = A0.m; M H = A0;
    for (size_t j = 0; j + 2 < n + 0 && n >= 2; ++j) {
        size_t k = j + 1; while (k < n && !H(k, j)) ++k;
        if (k == n) continue;
        if (k != j + 1) { for (size_t l = 0; l < n; ++l) std::swap(H(k, l), H(j + 1, l)); for (size_t l = 0; l < n; ++l) std::swap(H(l, k), H(l, j + 1)); }
        i64 iv = invm(H(j + 1, j), p);
        for (size_t i = j + 2; i < n; ++i) if (H(i, j)) {
            i64 f = mulm(H(i, j), iv, p);
            for (size_t l = 0; l < n; ++l) H(i, l) = mod((i128)H(i, l) - (i128)f * H(j + 1, l), p);
            for (size_t l = 0; l < n; ++l) H(l, j + 1) = mod((i128)H(l, j + 1) + (i128)f * H(l, i), p);
        }
    }
    std::vector<std::vector<i64>> c(n + 1);
    c[0] = {1 % p};
    for (size_t k = 1; k <= n; ++k) {
        std::vector<i64> q(k + 1, 0);
        for (size_t i = 0; i < k; ++i) { q[i + 1] = mod((i128)q[i + 1] + c[k - 1][i], p); q[i] = mod((i128)q[i] - (i128)H(k - 1, k - 1) * c[k - 1][i], p); }
        i64 t = 1 % p;
        for (size_t i = 1; i < k; ++i) {
            t = mulm(t, H(k - i, k - i - 1), p);
            if (!t) break;
            i64 f = mulm(t, H(k - i - 1, k - 1), p);
            for (size_t l = 0; l < c[k - i - 1].size(); ++l) q[l] = mod((i128)q[l] - (i128)f * c[k - i - 1][l], p);
        }
        c[k] = q;
    }
    return c[n];
}
std::vector<i64> polyeval_mat_zero(const std::vector<i64>& c, const M& A, i64 p, bool& zero) {
    size_t n = A.m; M X(n, n);
    for (size_t k = c.size(); k-- > 0;) { X = mul(X, A, p); for (size_t i = 0; i < n; ++i) X(i, i) = mod((i128)X(i, i) + c[k], p); }
    zero = true;
    for (auto x : X.a) if (x) zero = false;
    return {};
}
std::vector<i64> minpoly(const M& A, i64 p) {
    // smallest d with A^d in span(I..A^{d-1})
    size_t n = A.m;
    if (n == 0) return {1 % p};
    std::vector<std::vector<i64>> rows; std::vector<std::vector<i64>> comb; std::vector<size_t> piv;
    M Pw = identity(n);
    for (size_t d = 0; d <= n; ++d) {
        std::vector<i64> v = Pw.a, cv(n + 1, 0); cv[d] = 1;
        for (size_t r = 0; r < rows.size(); ++r) { i64 f = v[piv[r]]; if (f) { for (size_t i = 0; i < v.size(); ++i) v[i] = mod((i128)v[i] - (i128)f * rows[r][i], p); for (size_t i = 0; i <= n; ++i) cv[i] = mod((i128)cv[i] - (i128)f * comb[r][i], p); } }
        size_t k = 0; while (k < v.size() && !v[k]) ++k;
        if (k == v.size()) { cv.resize(d + 1); return cv; }
        i64 iv = invm(v[k], p);
        for (auto& x : v) x = mulm(x, iv, p);
        for (auto& x : cv) x = mulm(x, iv, p);
        rows.push_back(v); comb.push_back(cv); piv.push_back(k);
        Pw = mul(Pw, A, p);
    }
    return {};
}
uint64_t hash(const M& A) { uint64_t h = A.m * 31 + A.n; for (auto x : A.a) { h = (h ^ (uint64_t)x) * 1099511628211ull; h ^= h >> 31; } return h; }
std::string diff(const M& A, const M& B) {
    char b[256];
    if (A.m != B.m || A.n != B.n) return "shapes differ";
    size_t cnt = 0, fi = 0, fj = 0;
    for (size_t i = 0; i < A.m; ++i) for (size_t j = 0; j < A.n; ++j) if (A(i, j) != B(i, j)) { if (!cnt) { fi = i; fj = j; } ++cnt; }
    if (!cnt) return "equal";
    snprintf(b, sizeof b, "%zu of %zu entries differ, first at (%zu,%zu): got %lld expected %lld", cnt, A.m * A.n, fi, fj, A(fi, fj), B(fi, fj));
    return b;
}
}
