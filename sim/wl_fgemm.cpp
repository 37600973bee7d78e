// Parallel matrix multiplication, every strategy, against the naive model.
#include "wl_common.h"
using namespace FFLAS;
typedef FIELD F;
namespace {
typedef ParSeqHelper::Parallel<CuttingStrategy::Block, StrategyParameter::Threads> PBlock;
template <class Par> void call(const F& f, FFLAS_TRANSPOSE ta, FFLAS_TRANSPOSE tb, size_t m, size_t n, size_t k, F::Element al, Mat<F>& A, Mat<F>& B, F::Element be, Mat<F>& C, size_t nt, bool region) {
    Par par(nt);
    if (region) { PAR_BLOCK { fgemm(f, ta, tb, m, n, k, al, A.p, A.ld, B.p, B.ld, be, C.p, C.ld, par); } }
    else fgemm(f, ta, tb, m, n, k, al, A.p, A.ld, B.p, B.ld, be, C.p, C.ld, par);
}
i64 scalar(const char* nm, i64 p) {
    switch (P(nm, 0, 4)) { case 0: return 1; case 1: return 0; case 2: return p - 1; default: return (i64)(Pseed("scal") % (uint64_t)p); }
}
}
WORKLOADF(fgemm) {
    sim::enter("par");
    bool big = Pbool("big", 3);
    draw_thresholds(big);
    F f = make_field<F>();
    i64 p = charac(f);
    long hi = big ? 330 : Pick("hi", {6, 12, 24, 40, 64});
    size_t m = (size_t)Psize("m", 0, hi), n = (size_t)Psize("n", 0, hi), k = (size_t)Psize("k", 0, hi);
    bool ta = Pbool("ta"), tb = Pbool("tb");
    i64 al = scalar("alpha", p), be = scalar("beta", p);
    int strat = VSEL(9, (int)P("strat", 0, 9));
    int style = (int)P("style", 0, 6), bst = Pbool("samestyle", 60) ? style : (int)P("bstyle", 0, 6), cst = Pbool("samec", 60) ? style : (int)P("cstyle", 0, 6);
    ref::M a = rnd_ext(ta ? k : m, ta ? m : k, p, Pseed("a"), style), b = rnd_ext(tb ? n : k, tb ? k : n, p, Pseed("b"), bst), c = rnd_ext(m, n, p, Pseed("c"), cst);
    Mat<F> A(f, a.m, a.n, "A"), B(f, b.m, b.n, "B"), C(f, m, n, "C");
    A.set(a); B.set(b);
    bool garbage = be == 0 && Pbool("uninitC");
    if (!garbage) C.set(c);
    A.snapshot(); B.snapshot();
    F::Element eal, ebe; put(f, eal, al); put(f, ebe, be);
    size_t nt = (size_t)P("nt", 1, 12);
    bool region = Pbool("region", 85);
    {
        sim::Section s;
        switch (strat) {
        case 0: call<PBlock>(f, tr(ta), tr(tb), m, n, k, eal, A, B, ebe, C, nt, region); break;
        case 1: call<ParSeqHelper::Parallel<CuttingStrategy::Recursive, StrategyParameter::TwoD>>(f, tr(ta), tr(tb), m, n, k, eal, A, B, ebe, C, nt, region); break;
        case 2: call<ParSeqHelper::Parallel<CuttingStrategy::Recursive, StrategyParameter::TwoDAdaptive>>(f, tr(ta), tr(tb), m, n, k, eal, A, B, ebe, C, nt, region); break;
        case 3: call<ParSeqHelper::Parallel<CuttingStrategy::Recursive, StrategyParameter::ThreeD>>(f, tr(ta), tr(tb), m, n, k, eal, A, B, ebe, C, nt, region); break;
        case 4: call<ParSeqHelper::Parallel<CuttingStrategy::Recursive, StrategyParameter::ThreeDInPlace>>(f, tr(ta), tr(tb), m, n, k, eal, A, B, ebe, C, nt, region); break;
        case 5: call<ParSeqHelper::Parallel<CuttingStrategy::Recursive, StrategyParameter::ThreeDAdaptive>>(f, tr(ta), tr(tb), m, n, k, eal, A, B, ebe, C, nt, region); break;
        case 6: pfgemm(f, tr(ta), tr(tb), m, n, k, eal, A.p, A.ld, B.p, B.ld, ebe, C.p, C.ld, (size_t)P("ntp", 0, 12)); break;
        case 8: { MMHelper<F, MMHelperAlgo::Winograd, ModeTraits<F>::value> H(f, (int)P("w", -1, 4)); fgemm(f, tr(ta), tr(tb), m, n, k, eal, A.p, A.ld, B.p, B.ld, ebe, C.p, C.ld, H); break; }
        case 9: fgemm(f, tr(ta), tr(tb), m, n, k, eal, A.p, A.ld, B.p, B.ld, ebe, C.p, C.ld); break;
        default: call<ParSeqHelper::Sequential>(f, tr(ta), tr(tb), m, n, k, eal, A, B, ebe, C, 1, region);
        }
    }
    ref::M want = ref::mul(ta ? ref::transpose(a) : a, tb ? ref::transpose(b) : b, p);
    want = ref::scale(al, want, p);
    if (be) want = ref::add(want, ref::scale(be, c, p), p);
    ref::M got = C.get("fgemm result");
    if (!(got == want)) sim::violation("wrong-result", "fgemm %zux%zux%zu mod %lld strategy %d: %s", m, n, k, p, strat, ref::diff(got, want).c_str());
    A.unchanged("fgemm A"); B.unchanged("fgemm B");
    A.padding_ok("A"); B.padding_ok("B"); C.padding_ok("C");
    sim::observe(ref::hash(got));
}
