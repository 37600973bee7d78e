// Executable reference models (uninstrumented, exact, deliberately naive).
#ifndef VERIF_REF_H
#define VERIF_REF_H
#include <cstdint>
#include <vector>
#include <gmp.h>
#include <string>
namespace ref {
typedef long long i64;
typedef __int128 i128;
// residues mod p (p < 2^62) in [0,p), row-major dense
struct M {
    size_t m = 0, n = 0;
    std::vector<i64> a;
    M() {}
    M(size_t m_, size_t n_) : m(m_), n(n_), a(m_ * n_, 0) {}
    i64& operator()(size_t i, size_t j) { return a[i * n + j]; }
    i64 operator()(size_t i, size_t j) const { return a[i * n + j]; }
    bool operator==(const M& o) const { return m == o.m && n == o.n && a == o.a; }
};
i64 mod(i128 x, i64 p);
i64 mulm(i64 a, i64 b, i64 p);
i64 invm(i64 a, i64 p);
i64 powm(i64 a, uint64_t e, i64 p);
M mul(const M& A, const M& B, i64 p);
M transpose(const M& A);
M identity(size_t n);
M add(const M& A, const M& B, i64 p);
M sub(const M& A, const M& B, i64 p);
M scale(i64 s, const M& A, i64 p);
size_t rank(M A, i64 p);
i64 det(M A, i64 p);
bool inverse(const M& A, M& X, i64 p);
// row echelon: returns rank, row rank profile and column rank profile
size_t profiles(const M& A, i64 p, std::vector<size_t>& rrp, std::vector<size_t>& crp);
std::vector<i64> charpoly(const M& A, i64 p);    // monic, c[i] coefficient of X^i  (Hessenberg, any prime p)
std::vector<i64> polyeval_mat_zero(const std::vector<i64>& c, const M& A, i64 p, bool& zero); // evaluates c(A), sets zero
std::vector<i64> minpoly(const M& A, i64 p);     // by linear algebra on powers
M permP(const std::vector<size_t>& lapack);      // unused
uint64_t hash(const M& A);
std::string diff(const M& A, const M& B);        // human-readable first difference
// rank of every leading submatrix gives the rank profile matrix
M rank_profile_matrix(const M& A, i64 p);
}
#endif
