// BLAS seam: every BLAS call of the library goes through these wrappers
// (-Wl,--wrap). The real OpenBLAS does the arithmetic; the simulator sees the
// memory footprint, may deschedule the caller around the call, may separate
// the call's reads from its writes, and may corrupt one entry of the result.
#include "sim.h"
#include <cblas.h>
#include <cstring>
#include <cstdlib>
#include <sys/mman.h>
namespace sim {
void touch(const void* p, size_t n, bool w, void* pc);
void touch2d(const void* p, size_t rows, size_t rowbytes, size_t ldbytes, bool w, void* pc);
void blas_point();
bool torn_now();
void torn_yield();
static uint64_t corrupt_at = 0, blas_calls = 0;
void blas_corrupt_at(uint64_t n) { corrupt_at = n ? blas_calls + n : 0; }
static char* tmpbuf(size_t n) {
    static char* b = nullptr; static size_t cap = 0, used = 0;
    if (!b) { cap = 1ull << 30; b = (char*)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    char* p = b + used; used += (n + 63) & ~size_t(63);
    if (used > cap) return nullptr;
    return p;
}
template <class T> static void result(T* c, size_t rows, size_t cols, size_t ld) {
    ++blas_calls;
    if (corrupt_at && blas_calls == corrupt_at && rows && cols) {
        fault("blas_corruption");
        c[(blas_calls * 7 % rows) * ld + (blas_calls * 13 % cols)] += T(1);
    }
}
}
using namespace sim;
#define PC __builtin_return_address(0)
typedef enum CBLAS_ORDER O; typedef enum CBLAS_TRANSPOSE TR; typedef enum CBLAS_UPLO UL; typedef enum CBLAS_DIAG DG; typedef enum CBLAS_SIDE SD;
static inline size_t z(blasint n) { return n > 0 ? (size_t)n : 0; }
template <class T> static void vec(const T* x, blasint n, blasint inc, bool w, void* pc) {
    if (n <= 0) return;
    if (inc == 1) touch(x, z(n) * sizeof(T), w, pc);
    else if (inc > 1) for (blasint i = 0; i < n; ++i) touch(x + (size_t)i * (size_t)inc, sizeof(T), w, pc);
    else touch(x, sizeof(T), w, pc);
}
template <class T> static void mat(const T* a, O o, blasint m, blasint n, blasint ld, bool w, void* pc) {
    if (o == CblasColMajor) { blasint t = m; m = n; n = t; }
    touch2d(a, z(m), z(n) * sizeof(T), z(ld) * sizeof(T), w, pc);
}
// run F on C directly, or on a copy with a yield before the copy-back
template <class T, class Fn> static void on_result(O o, blasint m, blasint n, T* c, blasint ldc, Fn f, bool save) {
    if (o == CblasColMajor) { blasint t = m; m = n; n = t; }
    (void)save;
    if (m > 0 && n > 0 && torn_now()) {
        T* t = (T*)tmpbuf(z(m) * z(n) * sizeof(T));
        if (t) {
            for (size_t i = 0; i < z(m); ++i) memcpy(t + i * z(n), c + i * z(ldc), z(n) * sizeof(T));
            f(t, n);
            torn_yield();
            for (size_t i = 0; i < z(m); ++i) memcpy(c + i * z(ldc), t + i * z(n), z(n) * sizeof(T));
            return;
        }
    }
    f(c, ldc);
    if (m > 0 && n > 0) result(c, z(m), z(n), z(ldc));
}
#define DEF(T, p) \
extern "C" { \
void __real_cblas_##p##gemm(O, TR, TR, blasint, blasint, blasint, T, const T*, blasint, const T*, blasint, T, T*, blasint); \
void __wrap_cblas_##p##gemm(O o, TR ta, TR tb, blasint m, blasint n, blasint k, T al, const T* a, blasint lda, const T* b, blasint ldb, T be, T* c, blasint ldc) { \
    blas_point(); void* pc = PC; \
    if (m > 0 && n > 0 && k > 0) { \
    mat(a, o, ta == CblasNoTrans ? m : k, ta == CblasNoTrans ? k : m, lda, false, pc); \
    mat(b, o, tb == CblasNoTrans ? k : n, tb == CblasNoTrans ? n : k, ldb, false, pc); } \
    if (be != T(0)) mat(c, o, m, n, ldc, false, pc); \
    on_result<T>(o, m, n, c, ldc, [&](T* cc, blasint l) { __real_cblas_##p##gemm(o, ta, tb, m, n, k, al, a, lda, b, ldb, be, cc, l); }, be != T(0)); \
    mat(c, o, m, n, ldc, true, pc); blas_point(); } \
void __real_cblas_##p##gemv(O, TR, blasint, blasint, T, const T*, blasint, const T*, blasint, T, T*, blasint); \
void __wrap_cblas_##p##gemv(O o, TR ta, blasint m, blasint n, T al, const T* a, blasint lda, const T* x, blasint ix, T be, T* y, blasint iy) { \
    blas_point(); void* pc = PC; mat(a, o, m, n, lda, false, pc); \
    vec(x, ta == CblasNoTrans ? n : m, ix, false, pc); if (be != T(0)) vec(y, ta == CblasNoTrans ? m : n, iy, false, pc); \
    __real_cblas_##p##gemv(o, ta, m, n, al, a, lda, x, ix, be, y, iy); \
    vec(y, ta == CblasNoTrans ? m : n, iy, true, pc); blas_point(); } \
void __real_cblas_##p##ger(O, blasint, blasint, T, const T*, blasint, const T*, blasint, T*, blasint); \
void __wrap_cblas_##p##ger(O o, blasint m, blasint n, T al, const T* x, blasint ix, const T* y, blasint iy, T* a, blasint lda) { \
    blas_point(); void* pc = PC; vec(x, m, ix, false, pc); vec(y, n, iy, false, pc); mat(a, o, m, n, lda, false, pc); \
    __real_cblas_##p##ger(o, m, n, al, x, ix, y, iy, a, lda); mat(a, o, m, n, lda, true, pc); blas_point(); } \
void __real_cblas_##p##trsm(O, SD, UL, TR, DG, blasint, blasint, T, const T*, blasint, T*, blasint); \
void __wrap_cblas_##p##trsm(O o, SD s, UL u, TR t, DG d, blasint m, blasint n, T al, const T* a, blasint lda, T* b, blasint ldb) { \
    blas_point(); void* pc = PC; blasint k = s == CblasLeft ? m : n; \
    bool up = (u == CblasUpper) == (o == CblasRowMajor); \
    for (blasint i = 0; i < k; ++i) { blasint lo = up ? i + (d == CblasUnit) : 0, hi = up ? k : i + 1 - (d == CblasUnit); if (hi > lo) touch(a + (size_t)i * z(lda) + lo, z(hi - lo) * sizeof(T), false, pc); } \
    mat(b, o, m, n, ldb, false, pc); \
    on_result<T>(o, m, n, b, ldb, [&](T* cc, blasint l) { __real_cblas_##p##trsm(o, s, u, t, d, m, n, al, a, lda, cc, l); }, true); \
    mat(b, o, m, n, ldb, true, pc); blas_point(); } \
void __real_cblas_##p##trmm(O, SD, UL, TR, DG, blasint, blasint, T, const T*, blasint, T*, blasint); \
void __wrap_cblas_##p##trmm(O o, SD s, UL u, TR t, DG d, blasint m, blasint n, T al, const T* a, blasint lda, T* b, blasint ldb) { \
    blas_point(); void* pc = PC; blasint k = s == CblasLeft ? m : n; \
    bool up = (u == CblasUpper) == (o == CblasRowMajor); \
    for (blasint i = 0; i < k; ++i) { blasint lo = up ? i + (d == CblasUnit) : 0, hi = up ? k : i + 1 - (d == CblasUnit); if (hi > lo) touch(a + (size_t)i * z(lda) + lo, z(hi - lo) * sizeof(T), false, pc); } \
    mat(b, o, m, n, ldb, false, pc); \
    on_result<T>(o, m, n, b, ldb, [&](T* cc, blasint l) { __real_cblas_##p##trmm(o, s, u, t, d, m, n, al, a, lda, cc, l); }, true); \
    mat(b, o, m, n, ldb, true, pc); blas_point(); } \
void __real_cblas_##p##syrk(O, UL, TR, blasint, blasint, T, const T*, blasint, T, T*, blasint); \
void __wrap_cblas_##p##syrk(O o, UL u, TR t, blasint n, blasint k, T al, const T* a, blasint lda, T be, T* c, blasint ldc) { \
    blas_point(); void* pc = PC; mat(a, o, t == CblasNoTrans ? n : k, t == CblasNoTrans ? k : n, lda, false, pc); \
    bool up = (u == CblasUpper) == (o == CblasRowMajor); \
    if (be != T(0)) for (blasint i = 0; i < n; ++i) touch(c + (size_t)i * z(ldc) + (up ? i : 0), z(up ? n - i : i + 1) * sizeof(T), false, pc); \
    __real_cblas_##p##syrk(o, u, t, n, k, al, a, lda, be, c, ldc); \
    for (blasint i = 0; i < n; ++i) touch(c + (size_t)i * z(ldc) + (up ? i : 0), z(up ? n - i : i + 1) * sizeof(T), true, pc); blas_point(); } \
void __real_cblas_##p##axpy(blasint, T, const T*, blasint, T*, blasint); \
void __wrap_cblas_##p##axpy(blasint n, T al, const T* x, blasint ix, T* y, blasint iy) { void* pc = PC; vec(x, n, ix, false, pc); vec(y, n, iy, true, pc); __real_cblas_##p##axpy(n, al, x, ix, y, iy); } \
void __real_cblas_##p##copy(blasint, const T*, blasint, T*, blasint); \
void __wrap_cblas_##p##copy(blasint n, const T* x, blasint ix, T* y, blasint iy) { void* pc = PC; vec(x, n, ix, false, pc); vec(y, n, iy, true, pc); __real_cblas_##p##copy(n, x, ix, y, iy); } \
void __real_cblas_##p##scal(blasint, T, T*, blasint); \
void __wrap_cblas_##p##scal(blasint n, T al, T* x, blasint ix) { void* pc = PC; vec(x, n, ix, true, pc); __real_cblas_##p##scal(n, al, x, ix); } \
T __real_cblas_##p##dot(blasint, const T*, blasint, const T*, blasint); \
T __wrap_cblas_##p##dot(blasint n, const T* x, blasint ix, const T* y, blasint iy) { void* pc = PC; vec(x, n, ix, false, pc); vec(y, n, iy, false, pc); return __real_cblas_##p##dot(n, x, ix, y, iy); } \
void __real_cblas_##p##swap(blasint, T*, blasint, T*, blasint); \
void __wrap_cblas_##p##swap(blasint n, T* x, blasint ix, T* y, blasint iy) { void* pc = PC; vec(x, n, ix, true, pc); vec(y, n, iy, true, pc); __real_cblas_##p##swap(n, x, ix, y, iy); } \
}
DEF(double, d)
DEF(float, s)
extern "C" {
void* __real_memcpy(void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { touch(s, n, false, PC); touch(d, n, true, PC); return __real_memcpy(d, s, n); }
void* __real_memmove(void*, const void*, size_t);
void* __wrap_memmove(void* d, const void* s, size_t n) { touch(s, n, false, PC); touch(d, n, true, PC); return __real_memmove(d, s, n); }
void* __real_memset(void*, int, size_t);
void* __wrap_memset(void* d, int c, size_t n) { touch(d, n, true, PC); return __real_memset(d, c, n); }
}
