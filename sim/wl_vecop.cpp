// Vector operations with strides, conversions, reductions of unreduced data, transposition, squaring.
#include "wl_vec.h"
#include <fflas-ffpack/fflas/fflas_transpose.h>
#include <fflas-ffpack/fflas/fflas_freivalds.inl>
using namespace FFLAS;
typedef FIELD F;
#define BAD(...) sim::violation("wrong-result", __VA_ARGS__)
namespace {
typedef F::Element E;
// integers far outside the reduced range, exactly representable in the element type
i64 wild(sim::Rng& g, i64 p) {
    const i64 lim = std::is_same<E, float>::value ? (1 << 23) : std::is_same<E, int32_t>::value ? (1ll << 30) : (1ll << 52);
    switch (g.below(6)) {
    case 0: return (i64)g.below((uint64_t)p);
    case 1: return -(i64)g.below((uint64_t)p);
    case 2: return p * (i64)g.below(3) - p;
    case 3: return g.below(2) ? lim - 1 : 1 - lim;
    default: { i64 x = (i64)(g.next() >> 1) % lim; return g.below(2) ? x : -x; }
    }
}
i64 md(i64 x, i64 p) { x %= p; return x < 0 ? x + p : x; }
i64 scal(const char* nm, i64 p) { switch (P(nm, 0, 4)) { case 0: return 1; case 1: return 0; case 2: return p - 1; default: { char b[32]; snprintf(b, sizeof b, "%s.v", nm); return (i64)(Pseed(b) % (uint64_t)p); } } }
const char* ON[] = {"fadd", "fsub", "faddin", "fsubin", "fadd with a scalar", "faxpy", "fscal", "fscalin", "fneg", "fnegin", "fassign", "fzero", "fswap", "fequal", "fiszero", "freduce in place", "freduce", "finit", "fconvert"};
}
WORKLOADF(fvec) {
    sim::enter("seq");
    F f = make_field<F>(); i64 p = charac(f), m1 = p - 1;
    long hi = Pick("hi", {5, 20, 70, 200});
    int op = VSEL((int)P("cop", 0, 16), (int)P("op", 0, 18));
    size_t n = (size_t)Psize("n", 0, hi);
    int style = (int)P("style", 0, 6);
    ref::M a = rnd_ext(n, 1, p, Pseed("a"), style), b = rnd_ext(n, 1, p, Pseed("b"), style), c = rnd_ext(n, 1, p, Pseed("c"), style);
    if (op == 14 && Pbool("zero")) { b = ref::M(n, 1); if (n && Pbool("one")) b((size_t)P("at", 0, (long)n - 1), 0) = 1; }
    if (op == 13 && Pbool("almost")) { b = a; if (n && Pbool("one")) { size_t at = (size_t)P("at", 0, (long)n - 1); b(at, 0) = (b(at, 0) + 1) % p; } }
    Vec A(f, n, "A"), B(f, n, "B"), C(f, n, "C");
    A.set(a); B.set(b); C.set(c);
    i64 al = scal("alpha", p); E eal; put(f, eal, al);
    std::vector<i64> w(n); sim::Rng g(Pseed("wild")); for (auto& x : w) x = wild(g, p);
    size_t dinc = (size_t)Pick("dinc", {1, 1, 2, 3}); double* D = (double*)sim::user_alloc((n ? (n - 1) * dinc + 1 : 0) * sizeof(double), 16);
    if (op == 15) for (size_t i = 0; i < n; ++i) C.p[i * C.inc] = (E)w[i];
    if (op == 16) for (size_t i = 0; i < n; ++i) B.p[i * B.inc] = (E)w[i];
    if (op == 17) for (size_t i = 0; i < n; ++i) D[i * dinc] = (double)w[i];
    A.snapshot(); B.snapshot();
    bool eq = false;
    {
        sim::Section s;
        switch (op) {
        case 0: fadd(f, n, A.p, A.inc, B.p, B.inc, C.p, C.inc); break;
        case 1: fsub(f, n, A.p, A.inc, B.p, B.inc, C.p, C.inc); break;
        case 2: faddin(f, n, B.p, B.inc, C.p, C.inc); break;
        case 3: fsubin(f, n, B.p, B.inc, C.p, C.inc); break;
        case 4: fadd(f, n, A.p, A.inc, eal, B.p, B.inc, C.p, C.inc); break;
        case 5: faxpy(f, n, eal, B.p, B.inc, C.p, C.inc); break;
        case 6: fscal(f, n, eal, B.p, B.inc, C.p, C.inc); break;
        case 7: fscalin(f, n, eal, C.p, C.inc); break;
        case 8: fneg(f, n, B.p, B.inc, C.p, C.inc); break;
        case 9: fnegin(f, n, C.p, C.inc); break;
        case 10: fassign(f, n, B.p, B.inc, C.p, C.inc); break;
        case 11: fzero(f, n, C.p, C.inc); break;
        case 12: fswap(f, n, B.p, B.inc, C.p, C.inc); break;
        case 13: eq = fequal(f, n, A.p, A.inc, B.p, B.inc); break;
        case 14: eq = fiszero(f, n, B.p, B.inc); break;
        case 15: freduce(f, n, C.p, C.inc); break;
        case 16: freduce(f, n, B.p, B.inc, C.p, C.inc); break;
        case 17: finit(f, n, (const double*)D, dinc, C.p, C.inc); break;
        default: fconvert(f, n, D, dinc, B.p, B.inc); break;
        }
    }
    ref::M want = c;
    switch (op) {
    case 0: want = ref::add(a, b, p); break;
    case 1: want = ref::add(a, ref::scale(m1, b, p), p); break;
    case 2: want = ref::add(c, b, p); break;
    case 3: want = ref::add(c, ref::scale(m1, b, p), p); break;
    case 4: want = ref::add(a, ref::scale(al, b, p), p); break;
    case 5: want = ref::add(c, ref::scale(al, b, p), p); break;
    case 6: want = ref::scale(al, b, p); break;
    case 7: want = ref::scale(al, c, p); break;
    case 8: want = ref::scale(m1, b, p); break;
    case 9: want = ref::scale(m1, c, p); break;
    case 10: case 12: want = b; break;
    case 11: want = ref::M(n, 1); break;
    case 13: if (eq != (a == b)) BAD("fequal of vectors of %zu answers %d", n, (int)eq); break;
    case 14: if (eq != (b == ref::M(n, 1))) BAD("fiszero of a vector of %zu answers %d", n, (int)eq); break;
    case 15: case 16: case 17: for (size_t i = 0; i < n; ++i) want(i, 0) = md(w[i], p); break;
    case 18: for (size_t i = 0; i < n; ++i) if (md((i64)D[i * dinc], p) != b(i, 0) || D[i * dinc] != (double)(i64)D[i * dinc]) BAD("fconvert of a vector of %zu mod %lld: entry %zu is %g, expected %lld", n, p, i, D[i * dinc], b(i, 0)); break;
    }
    ref::M got = C.get(ON[op]);
    if (!(got == want)) BAD("%s on vectors of %zu mod %lld (strides %zu %zu %zu, alpha %lld): %s", ON[op], n, p, A.inc, B.inc, C.inc, al, ref::diff(got, want).c_str());
    if (op == 12) { if (!(B.get("fswap") == c)) BAD("fswap of vectors of %zu mod %lld: second vector wrong", n, p); } else B.unchanged(ON[op]);
    A.unchanged(ON[op]); A.gaps(ON[op]); B.gaps(ON[op]); C.gaps(ON[op]);
    sim::observe(ref::hash(got));
}
WORKLOADF(fmat) { // transposition, squaring, conversions and reductions of matrices
    sim::enter("seq");
    draw_thresholds(Pbool("big", 10));
    F f = make_field<F>(); i64 p = charac(f);
    long hi = Pick("hi", {5, 12, 40, 75});
    int op = VSEL((int)P("cop", 2, 4), (int)P("op", 0, 5));
    if (op == 2 && hi > 40) hi = 40;
    size_t m = (size_t)Psize("m", 0, hi), n = (size_t)Psize("n", 0, hi);
    int style = (int)P("style", 0, 6);
    sim::Rng g(Pseed("wild"));
    if (op <= 1) {
        bool inplace = op == 1;
        if (inplace && Pbool("square", 70)) n = m;
        ref::M a = rnd(m, n, p, Pseed("a"));
        if (!inplace) {
            Mat<F> A(f, m, n, "A"), B(f, n, m, "B"); A.set(a); A.snapshot();
            { sim::Section s; ftranspose(f, m, n, (F::ConstElement_ptr)A.p, A.ld, B.p, B.ld); }
            if (!(B.get("ftranspose") == ref::transpose(a))) BAD("ftranspose %zux%zu: %s", m, n, ref::diff(B.get("ftranspose"), ref::transpose(a)).c_str());
            A.unchanged("ftranspose"); B.padding_ok("ftranspose");
        } else if (m == n) {
            Mat<F> A(f, m, n, "A"); A.set(a);
            { sim::Section s; ftranspose(f, m, n, (F::ConstElement_ptr)A.p, A.ld, A.p, A.ld); }
            if (!(A.get("ftranspose") == ref::transpose(a))) BAD("ftranspose in place, order %zu: %s", m, ref::diff(A.get("ftranspose"), ref::transpose(a)).c_str());
            A.padding_ok("ftranspose");
        } else {
            if (!m || !n) sim::skip("empty");
            Mat<F> A(f, m, n, "A", false); A.set(a);
            { sim::Section s; ftranspose(f, m, n, (F::ConstElement_ptr)A.p, n, A.p, m); }
            for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) if (get(f, A.p[j * m + i], "ftranspose") != a(i, j)) BAD("ftranspose in place %zux%zu: entry (%zu,%zu) wrong", m, n, j, i);
        }
    } else if (op == 2) {
        bool t = Pbool("t"); i64 al = scal("alpha", p), be = scal("beta", p);
        ref::M a = rnd_ext(m, m, p, Pseed("a"), style), c = rnd_ext(m, m, p, Pseed("c"), style);
        Mat<F> A(f, m, m, "A"), C(f, m, m, "C"); A.set(a); A.snapshot(); C.set(c);
        E eal, ebe; put(f, eal, al); put(f, ebe, be);
        if (!std::is_floating_point<E>::value) { double q = (double)p * (double)p * (double)(m + 1) * (double)p; if (q > 9e15 || !m) sim::skip("generic fsquare computes in double precision"); }
        bool same = Pbool("same", 20) && std::is_floating_point<E>::value;
        if (same) { C.set(a); c = a; }
        { sim::Section s; if (same) fsquare(f, tr(t), m, eal, C.p, C.ld, ebe, C.p, C.ld); else fsquare(f, tr(t), m, eal, A.p, A.ld, ebe, C.p, C.ld); }
        ref::M x = t ? ref::transpose(a) : a, want = ref::add(ref::scale(al, ref::mul(x, x, p), p), ref::scale(be, c, p), p);
        ref::M got = C.get("fsquare");
        if (!(got == want)) BAD("fsquare order %zu mod %lld (alpha %lld beta %lld%s): %s", m, p, al, be, same ? ", in place" : "", ref::diff(got, want).c_str());
        A.unchanged("fsquare"); C.padding_ok("fsquare");
    } else if (op == 3 || op == 4) {
        ref::M w(m, n), want(m, n); for (size_t i = 0; i < m * n; ++i) { w.a[i] = wild(g, p); want.a[i] = md(w.a[i], p); }
        Mat<F> A(f, m, n, "A"), B(f, m, n, "B");
        for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) A.p[i * A.ld + j] = (E)w(i, j);
        A.snapshot();
        bool out = op == 4;
        { sim::Section s; if (out) freduce(f, m, n, A.p, A.ld, B.p, B.ld); else freduce(f, m, n, A.p, A.ld); }
        Mat<F>& R = out ? B : A;
        if (!(R.get("freduce") == want)) BAD("freduce %zux%zu mod %lld (leading dimensions %zu %zu): %s", m, n, p, A.ld, B.ld, ref::diff(R.get("freduce"), want).c_str());
        if (out) A.unchanged("freduce");
        A.padding_ok("freduce"); B.padding_ok("freduce");
    } else if (op == 5) {
        size_t ld = n + (size_t)P("dpad", 0, 3); if (!ld) ld = 1; double* D = (double*)sim::user_alloc(m * ld * sizeof(double), 16);
        ref::M a = rnd(m, n, p, Pseed("a")), want(m, n);
        for (size_t i = 0; i < m * ld; ++i) D[i] = 0.5;
        Mat<F> A(f, m, n, "A"), B(f, m, n, "B"); A.set(a); A.snapshot();
        { sim::Section s; fconvert(f, m, n, D, ld, A.p, A.ld); }
        for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < ld; ++j) { double x = D[i * ld + j]; if (j >= n ? x != 0.5 : md((i64)x, p) != a(i, j)) BAD("fconvert %zux%zu mod %lld: entry (%zu,%zu) is %g", m, n, p, i, j, x); }
        A.unchanged("fconvert");
        for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) { i64 x = wild(g, p); D[i * ld + j] = (double)x; want(i, j) = md(x, p); }
        { sim::Section s; finit(f, m, n, (const double*)D, ld, B.p, B.ld); }
        if (!(B.get("finit") == want)) BAD("finit %zux%zu mod %lld: %s", m, n, p, ref::diff(B.get("finit"), want).c_str());
        B.padding_ok("finit");
    }
}
WORKLOADF(frei) { // Freivalds' check of a product
    sim::enter("seq");
    F f = make_field<F>(); i64 p = charac(f);
    long hi = Pick("hi", {5, 12, 40});
    size_t m = (size_t)Psize("m", 0, hi), n = (size_t)Psize("n", 0, hi);
    sim::Rng g(Pseed("wild"));
    size_t k = (size_t)Psize("k", 0, hi); bool ta = Pbool("ta"), tb = Pbool("tb"); i64 al = scal("alpha", p);
    ref::M a = rnd(ta ? k : m, ta ? m : k, p, Pseed("a")), b = rnd(tb ? n : k, tb ? k : n, p, Pseed("b"));
    ref::M c = ref::scale(al, ref::mul(ta ? ref::transpose(a) : a, tb ? ref::transpose(b) : b, p), p);
    Mat<F> A(f, a.m, a.n, "A"), B(f, b.m, b.n, "B"), C(f, m, n, "C"); A.set(a); B.set(b);
    bool bad = m && n && Pbool("bad");
    if (bad) { size_t i = (size_t)P("bi", 0, (long)m - 1), j = (size_t)P("bj", 0, (long)n - 1); c(i, j) = (c(i, j) + 1 + (i64)g.below((uint64_t)p - 1)) % p; }
    C.set(c); A.snapshot(); B.snapshot(); C.snapshot();
    E eal; put(f, eal, al);
    int tries = bad ? (int)std::ceil(60.0 / std::log2((double)p)) : 1; bool ok = true;
    for (int i = 0; i < tries && ok; ++i) {
        if (bad) { sim::set_clock(sim::mix(Pseed("clk"), (uint64_t)i) >> 14, 1); sim::fault("corrupted_result"); }
        sim::Section s; ok = freivalds(f, tr(ta), tr(tb), m, n, k, eal, A.p, A.ld, B.p, B.ld, C.p, C.ld);
    }
    if (bad && ok) BAD("freivalds accepts a wrong product %zux%zux%zu mod %lld in %d independent checks", m, n, k, p, tries);
    if (!bad && !ok) BAD("freivalds refuses a correct product %zux%zux%zu mod %lld", m, n, k, p);
    sim::observe(ok);
    A.unchanged("freivalds"); B.unchanged("freivalds"); C.unchanged("freivalds");
}
