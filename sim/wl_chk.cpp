// Result checkers: accept every correct result, reject wrong results (library compiled with its internal checks on).
#define ENABLE_ALL_CHECKINGS 1
#include "wl_elim.h"
#include <givaro/givpoly1.h>
#include <memory>
using namespace FFLAS;
typedef FIELD F;
typedef Givaro::Poly1Dom<F> R_t;
typedef R_t::Element Poly;
namespace {
const char* NAMES[] = {"fgemm", "ftrsm", "PLUQ", "Det", "Invert", "CharPoly"};
// one operation, its operands and its checkers
struct Op {
    const F& f; i64 p; int which; bool seeded;
    size_t m = 0, n = 0, k = 0; double miss = 1; // miss: upper bound on the probability that a wrong result passes one check
    bool ta = false, tb = false, left = false, up = false, unit = false, oop = false; int tag = 0;
    i64 al = 1, be = 0;
    std::unique_ptr<Mat<F>> A, B, C;
    std::unique_ptr<Perm> Pp, Qp;
    ref::M a, b, c, good; // inputs and the expected main result
    std::vector<i64> want; // polynomial
    i64 det = 0; int nullity = 0; size_t R = 0;
    F::Element d; Poly cp; R_t R1;
    Op(const F& f_, int w) : f(f_), p(charac(f_)), which(w), R1(f_) {
        long hi = Pick("hi", {3, 6, 10, 20, 40});
        auto sc = [&](const char* nm) -> i64 { int s = (int)P(nm, 0, 5); return s == 0 ? 0 : s <= 2 ? 1 : s == 3 ? p - 1 : (i64)(Pseed(nm) % (uint64_t)p); };
        miss = 1.0 / (double)p;
        if (which == 0) {
            m = (size_t)Psize("m", 0, hi); n = (size_t)Psize("n", 0, hi); k = (size_t)Psize("k", 0, hi);
            ta = Pbool("ta"); tb = Pbool("tb"); al = sc("alpha"); be = sc("beta");
            a = rnd_ext(ta ? k : m, ta ? m : k, p, Pseed("A"), (int)P("A.st", 0, 4)); b = rnd_ext(tb ? n : k, tb ? k : n, p, Pseed("B"), (int)P("B.st", 0, 4)); c = rnd(m, n, p, Pseed("C"));
            A.reset(new Mat<F>(f, a.m, a.n, "A")); B.reset(new Mat<F>(f, b.m, b.n, "B")); C.reset(new Mat<F>(f, m, n, "C"));
            good = ref::add(ref::scale(al, ref::mul(ta ? ref::transpose(a) : a, tb ? ref::transpose(b) : b, p), p), ref::scale(be, c, p), p);
        } else if (which == 1) {
            m = (size_t)Psize("m", 0, hi); n = (size_t)Psize("n", 0, hi);
            left = Pbool("left"); up = Pbool("up"); ta = Pbool("ta"); unit = Pbool("unit"); al = sc("alpha");
            k = left ? m : n;
            a = rnd(k, k, p, Pseed("A")); c = rnd(m, n, p, Pseed("C"));
            ref::M t(k, k), x;
            for (size_t i = 0; i < k; ++i) { if (!a(i, i)) a(i, i) = 1; for (size_t j = 0; j < k; ++j) if (i == j) t(i, i) = unit ? 1 : a(i, i); else if ((j > i) == up) t(i, j) = a(i, j); }
            ref::inverse(ta ? ref::transpose(t) : t, x, p);
            A.reset(new Mat<F>(f, k, k, "A")); C.reset(new Mat<F>(f, m, n, "C"));
            good = ref::scale(al, left ? ref::mul(x, c, p) : ref::mul(c, x, p), p);
        } else if (which == 2) {
            m = (size_t)Psize("m", 0, hi); n = (size_t)Psize("n", 0, hi); unit = Pbool("unit");
            c = gen_struct(m, n, p, "A"); C.reset(new Mat<F>(f, m, n, "C")); Pp.reset(new Perm(m)); Qp.reset(new Perm(n));
        } else {
            m = n = (size_t)Psize("n", which == 3 ? 1 : 0, hi);
            if (which == 5 && (i64)n > p / 2) n = m = (size_t)(p / 2);
            if (which == 5) miss = (double)(n ? n : 1) / (double)p;
            if (which == 3) miss = 1.0 / (double)p + 1.0 / (double)p / (double)p;
            c = Pbool("sing", 40) ? gen_struct(n, n, p, "A") : gen_regular(n, p, "A");
            C.reset(new Mat<F>(f, n, n, "C"));
            if (which == 3) { Pp.reset(new Perm(n)); Qp.reset(new Perm(n)); det = ref::det(c, p); }
            if (which == 4) { oop = Pbool("oop"); if (oop) B.reset(new Mat<F>(f, n, n, "B")); if (!ref::inverse(c, good, p)) nullity = (int)(n - ref::rank(c, p)); }
            if (which == 5) { tag = (int)P("tag", 0, 3); want = n ? ref::charpoly(c, p) : std::vector<i64>{1}; }
        }
        reset();
        if (A) A->snapshot();
        if (B && which == 0) B->snapshot();
    }
    void reset() {
        if (A) A->set(a);
        if (B && which == 0) B->set(b);
        C->set(c);
    }
    F::Element* out() { return which == 4 && oop ? B->p : C->p; }
    size_t outld() { return which == 4 && oop ? B->ld : C->ld; }
    // the operation itself; plain: the variant the checkers are not built into
    void run(bool plain, uint64_t gs) {
        F::Element ea, eb; put(f, ea, al); put(f, eb, be);
        if (which == 0) { if (plain) fgemm(f, tr(ta), tr(tb), m, n, k, ea, A->p, A->ld, B->p, B->ld, eb, C->p, C->ld, ParSeqHelper::Sequential()); else fgemm(f, tr(ta), tr(tb), m, n, k, ea, A->p, A->ld, B->p, B->ld, eb, C->p, C->ld); }
        else if (which == 1) { if (plain) ftrsm(f, left ? FflasLeft : FflasRight, up ? FflasUpper : FflasLower, tr(ta), unit ? FflasUnit : FflasNonUnit, m, n, ea, A->p, A->ld, C->p, C->ld, ParSeqHelper::Sequential()); else ftrsm(f, left ? FflasLeft : FflasRight, up ? FflasUpper : FflasLower, tr(ta), unit ? FflasUnit : FflasNonUnit, m, n, ea, A->p, A->ld, C->p, C->ld); }
        else if (which == 2) { if (plain) R = FFPACK::_PLUQ(f, unit ? FflasUnit : FflasNonUnit, m, n, C->p, C->ld, Pp->p, Qp->p, (size_t)Pick("bc", {256, 3, 10})); else R = FFPACK::PLUQ(f, unit ? FflasUnit : FflasNonUnit, m, n, C->p, C->ld, Pp->p, Qp->p); }
        else if (which == 3) { FFPACK::Det(f, d, n, C->p, C->ld, Pp->p, Qp->p); }
        else if (which == 4) { nullity = -1; if (oop) FFPACK::Invert(f, n, C->p, C->ld, B->p, B->ld, nullity); else FFPACK::Invert(f, n, C->p, C->ld, nullity); }
        else { F::RandIter G(f, gs); FFPACK::CharPoly(R1, cp, n, C->p, C->ld, G, tag == 0 ? FFPACK::FfpackAuto : tag == 1 ? FFPACK::FfpackDanilevski : tag == 2 ? FFPACK::FfpackLUK : FFPACK::FfpackArithProgKrylovPrecond); }
    }
    ref::M outm() { return which == 4 && oop ? B->get("result") : C->get("result"); }
    // does what is stored now equal the true result?
    bool right() {
        if (which <= 1) return outm() == good;
        if (which == 4) return nullity != 0 || outm() == good;
        if (which == 5) { std::vector<i64> g; for (auto& x : cp) g.push_back(::get(f, x, "charpoly")); return g == want; }
        // P.L.U.Q = A ; Det stores the factors of a PLUQ with unit L
        ref::M g = C->get("factors");
        size_t r = which == 2 ? R : n;
        if (r > std::min(m, n)) return false;
        bool un = which == 2 && unit;
        ref::M L(m, r), U(r, n);
        for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < r && j <= i; ++j) L(i, j) = i == j && !un ? 1 : g(i, j);
        for (size_t i = 0; i < r; ++i) for (size_t j = i; j < n; ++j) U(i, j) = i == j && un ? 1 : g(i, j);
        ref::M pr = ref::mul(L, U, p);
        rows_rev(pr, Pp->p, m); cols_rev(pr, Qp->p, n);
        return pr == c && (which == 2 || ::get(f, d, "det") == det);
    }
    std::string shape() const { char s[200]; snprintf(s, sizeof s, "%s mod %lld (m=%zu n=%zu k=%zu, transA %d transB %d left %d upper %d unit %d alpha %lld beta %lld variant %d)", NAMES[which], p, m, n, k, (int)ta, (int)tb, (int)left, (int)up, (int)unit, al, be, tag); return s; }
    void readonly() {
        if (A) { A->unchanged("A"); A->padding_ok("A"); }
        if (B) { if (which == 0) B->unchanged("B"); B->padding_ok("B"); }
        C->padding_ok("C");
    }
};
struct Chk { // one checker object of each kind
    std::unique_ptr<CheckerImplem_fgemm<F>> g; std::unique_ptr<CheckerImplem_ftrsm<F>> t;
    std::unique_ptr<FFPACK::CheckerImplem_PLUQ<F>> l; std::unique_ptr<FFPACK::CheckerImplem_Det<F>> d;
    std::unique_ptr<FFPACK::CheckerImplem_invert<F>> i; std::unique_ptr<FFPACK::CheckerImplem_charpoly<F, Poly>> c;
    Chk(Op& o, bool seeded, uint64_t gs) {
        F::RandIter G(o.f, gs); F::Element al, be; put(o.f, al, o.al); put(o.f, be, o.be);
        F::Element* M = o.C->p; size_t ld = o.C->ld;
        switch (o.which) {
        case 0: g.reset(seeded ? new CheckerImplem_fgemm<F>(G, o.m, o.n, o.k, be, M, ld) : new CheckerImplem_fgemm<F>(o.f, o.m, o.n, o.k, be, M, ld)); break;
        case 1: t.reset(seeded ? new CheckerImplem_ftrsm<F>(G, o.m, o.n, al, M, ld) : new CheckerImplem_ftrsm<F>(o.f, o.m, o.n, al, M, ld)); break;
        case 2: l.reset(seeded ? new FFPACK::CheckerImplem_PLUQ<F>(G, o.m, o.n, M, ld) : new FFPACK::CheckerImplem_PLUQ<F>(o.f, o.m, o.n, M, ld)); break;
        case 3: d.reset(seeded ? new FFPACK::CheckerImplem_Det<F>(G, o.n, M, ld) : new FFPACK::CheckerImplem_Det<F>(o.f, o.n, M, ld)); break;
        case 4: i.reset(seeded ? new FFPACK::CheckerImplem_invert<F>(G, o.n, M, ld) : new FFPACK::CheckerImplem_invert<F>(o.f, o.n, M, ld)); break;
        default: c.reset(seeded ? new FFPACK::CheckerImplem_charpoly<F, Poly>(G, o.n, M, ld) : new FFPACK::CheckerImplem_charpoly<F, Poly>(o.f, o.n, M, ld));
        }
    }
    // 1: accepted, 0: rejected with the documented exception
    int check(Op& o) {
        F::Element al; put(o.f, al, o.al);
        try {
            bool r = true;
            if (g) r = g->check(tr(o.ta), tr(o.tb), al, o.A->p, o.A->ld, o.B->p, o.B->ld, o.C->p);
            if (t) r = t->check(o.left ? FflasLeft : FflasRight, o.up ? FflasUpper : FflasLower, tr(o.ta), o.unit ? FflasUnit : FflasNonUnit, o.m, o.n, o.A->p, o.A->ld, o.C->p, o.C->ld);
            if (l) r = l->check(o.C->p, o.C->ld, o.unit ? FflasUnit : FflasNonUnit, o.R, o.Pp->p, o.Qp->p);
            if (d) r = d->check(o.d, o.C->p, o.C->ld, o.Pp->p, o.Qp->p);
            if (i) r = i->check(o.out(), o.nullity);
            if (c) r = c->check(o.cp);
            if (!r) sim::violation("wrong-result", "%s checker: returned false instead of throwing its failure exception", NAMES[o.which]);
            return 1;
        }
        catch (FailureFgemmCheck&) { if (!g) throw; } catch (FailureTrsmCheck&) { if (!t) throw; }
        catch (FailurePLUQCheck&) { if (!l) throw; } catch (FailureDetCheck&) { if (!d) throw; }
        catch (FailureInvertCheck&) { if (!i) throw; } catch (FailureCharpolyCheck&) { if (!c) throw; }
        return 0;
    }
};
int guarded(Op& o, bool plain, uint64_t gs) { // 1: returned, 0: a check failed
    try { o.run(plain, gs); return 1; }
    catch (FailureFgemmCheck&) {} catch (FailureTrsmCheck&) {} catch (FailurePLUQCheck&) {} catch (FailureDetCheck&) {} catch (FailureInvertCheck&) {} catch (FailureCharpolyCheck&) {}
    return 0;
}
// independent draws: the library's generators are linear congruential, so seeds must not be in arithmetic progression
uint64_t fresh(uint64_t gs, int i) {
    uint64_t h = sim::mix(gs, (uint64_t)i * 2654435761u + 77);
    sim::set_clock(1000000000000000ull + h % 900000000000000ull, 1 + (h >> 50));
    return 1 + sim::mix(h, 5) % 2000000000ull;
}
int trials(double miss) { int t = (int)std::ceil(30.0 / -std::log(miss)); return t < 1 ? 1 : t; } // miss^t < 1e-13
}
// a correct result is accepted, whatever the draws
WORKLOADF(chkok) {
    sim::enter("seq");
    draw_thresholds(Pbool("big", 20));
    F f = make_field<F>();
    Op o(f, (int)P("which", 0, 5));
    uint64_t gs = (uint64_t)P("gseed", 1, 1000000000);
    int nc = (int)P("nc", 1, 3), ok = 1;
    if (o.which == 4 && o.oop && o.B->ld != o.C->ld) nc = 0; // the checker takes one leading dimension
    if (o.which == 5 && !o.n) nc = 0;
    {
        sim::Section s;
        std::vector<std::unique_ptr<Chk>> v;
        for (int i = 0; i < nc; ++i) v.emplace_back(new Chk(o, Pbool("seeded"), gs + (uint64_t)i));
        if (!guarded(o, Pbool("plain"), gs)) sim::violation("wrong-result", "%s: the built-in check rejects a run without any fault", o.shape().c_str());
        std::vector<char> before((char*)o.C->raw, (char*)(o.C->raw + o.C->total));
        for (auto& c : v) ok &= c->check(o);
        if (memcmp(before.data(), o.C->raw, before.size())) sim::violation("footprint", "%s: the checker modifies the result it checks", o.shape().c_str());
    }
    if (!o.right()) sim::violation("wrong-result", "%s: wrong result (accepted: %d)", o.shape().c_str(), ok);
    if (!ok) sim::violation("wrong-result", "%s: the checker rejects the correct result", o.shape().c_str());
    o.readonly();
    sim::observe((uint64_t)ok);
}
// a wrong result is rejected, except with the advertised probability: corrupted results
WORKLOADF(chkbad) {
    sim::enter("seq");
    draw_thresholds(Pbool("big", 20));
    F f = make_field<F>();
    Op o(f, (int)P("which", 0, 5));
    uint64_t gs = (uint64_t)P("gseed", 1, 1000000000);
    if (!o.m || !o.n || o.miss > 0.67) sim::skip("empty");
    if (o.which == 4 && o.oop && o.B->ld != o.C->ld) sim::skip("one leading dimension");
    int T = trials(o.miss), ok = 0; bool wrong = false; std::string what;
    {
        sim::Section s;
        bool seeded = Pbool("seeded");
        std::vector<std::unique_ptr<Chk>> v;
        for (int i = 0; i < T; ++i) v.emplace_back(new Chk(o, seeded, fresh(gs, i)));
        guarded(o, true, gs);
        // a fault strikes the result
        sim::Rng r(Pseed("fault"));
        F::Element* X = o.out(); size_t ld = o.outld(), mm = o.C->m, nn = o.C->n;
        auto bump = [&](size_t i, size_t j, i64 dlt) { i64 x = ref::mod((ref::i128)::get(f, X[i * ld + j], "result") + dlt, o.p); put(f, X[i * ld + j], x); };
        int kind = (int)P("kind", 0, 6);
        size_t i = (size_t)r.below(mm), j = (size_t)r.below(nn); i64 dl = 1 + (i64)r.below((uint64_t)o.p - 1);
        if (o.which == 5) {
            size_t q = (size_t)r.below(o.cp.size()); i64 x = ref::mod((ref::i128)::get(f, o.cp[q], "charpoly") + dl, o.p); put(f, o.cp[q], x);
            if (kind == 1) { size_t q2 = (size_t)r.below(o.cp.size()); i64 y = ref::mod((ref::i128)::get(f, o.cp[q2], "charpoly") - dl, o.p); put(f, o.cp[q2], y); }
            if (kind == 2) { F::Element e; put(f, e, dl); o.cp.push_back(e); o.miss = 1; }
            what = "coefficient";
        } else if (o.which == 3 && kind == 5) { put(f, o.d, ref::mod((ref::i128)::get(f, o.d, "det") + dl, o.p)); what = "determinant"; }
        else if (o.which == 3 && kind == 6) { put(f, o.d, o.p - ::get(f, o.d, "det")); what = "sign of the determinant"; }
        else if ((o.which == 2 || o.which == 3) && kind == 4) { Perm& q = r.below(2) ? *o.Pp : *o.Qp; size_t a = (size_t)r.below(q.n); q.p[a] = a + (size_t)r.below(q.n - a); what = "permutation"; }
        else if (o.which == 2 && kind == 5) { if (o.R) { --o.R; what = "rank"; } }
        else {
            bump(i, j, dl); what = "entry";
            if (kind == 1) { bump(i, (size_t)r.below(nn), -dl); what = "two cancelling entries of a row"; }
            if (kind == 2) { bump((size_t)r.below(mm), j, -dl); what = "two cancelling entries of a column"; }
            if (kind == 3) { for (size_t a = 0; a < mm; ++a) for (size_t b = 0; b < nn; ++b) bump(a, b, (i64)r.below((uint64_t)o.p)); what = "all entries"; }
        }
        wrong = !o.right();
        if (o.which == 5 && o.cp.size() > o.n + 1) o.miss = (double)(o.n + 1) / (double)o.p;
        if (wrong) { sim::fault("corrupted_result"); for (auto& c : v) ok += c->check(o); }
    }
    if (!wrong) sim::skip("fault without effect");
    if (std::pow(o.miss, T) < 1e-12 && ok == T) sim::violation("wrong-result", "%s: a wrong result (%s changed) is accepted by %d independent checks", o.shape().c_str(), what.c_str(), T);
    o.readonly();
    sim::observe((uint64_t)ok);
}
// silent corruption of one BLAS call inside an operation that checks itself
WORKLOADF(chkblas) {
    sim::enter("seq");
    draw_thresholds(Pbool("big", 20));
    F f = make_field<F>();
    int w = (int)Pick("which", {0, 1, 2, 4, 5});
    Op o(f, w);
    uint64_t gs = (uint64_t)P("gseed", 1, 1000000000);
    if (o.miss > 0.67) sim::skip("field too small");
    int T = trials(o.miss), ret = 0;
    uint64_t at = (uint64_t)Psize("at", 1, 40);
    for (int t = 0; t < T; ++t) {
        o.reset(); o.cp.clear();
        int r;
        { sim::Section s; sim::blas_corrupt_at(at); r = guarded(o, false, fresh(gs, t)); sim::blas_corrupt_at(0); }
        if (!r) { sim::probe("fault_detected"); break; }
        if (o.right()) break;
        ++ret;
    }
    if (ret == T) sim::violation("wrong-result", "%s: returned a wrong result without raising its check failure, %d times with independent draws, after one BLAS result was corrupted (call %d)", o.shape().c_str(), T, (int)at);
    o.readonly();
    sim::observe((uint64_t)ret);
}
