// The parallel language of the library (PALADIN): cutting strategies, parallel loops, task groups, data dependences.
#include <array>
#define VERIF_ONLY_FFLAS
#include "wl_common.h"
using namespace FFLAS;
#define BAD(...) sim::violation("wrong-result", __VA_ARGS__)
namespace {
typedef CuttingStrategy::Block Block; typedef CuttingStrategy::Row Row; typedef CuttingStrategy::Column Column; typedef CuttingStrategy::Single Single;
typedef StrategyParameter::Threads Threads; typedef StrategyParameter::Grain Grain; typedef StrategyParameter::Fixed Fixed;
const char* CUT[] = {"Block", "Row", "Column"}; const char* PAR[] = {"Threads", "Grain", "Fixed"};
struct Cnt { // visits of every index, in guarded memory: unordered visits of one index are races
    size_t n; unsigned* c;
    explicit Cnt(size_t n_) : n(n_) { c = (unsigned*)sim::user_alloc((n ? n : 1) * sizeof(unsigned), 16); for (size_t i = 0; i < n; ++i) c[i] = 0; }
    void once(const char* what) const { for (size_t i = 0; i < n; ++i) if (c[i] != 1) BAD("%s: index %zu is visited %u times", what, i, c[i]); for (size_t i = 0; i < n; ++i) sim::observe(c[i]); }
};
template <class C, class Q> void loop1(int kind, size_t m, size_t th, Cnt& V, size_t& blocks) {
    unsigned* c = V.c;
    ParSeqHelper::Parallel<C, Q> H(th);
    switch (kind) {
    case 0: PAR_BLOCK { FOR1D(i, m, H, c[i] += 1); } break;
    case 1: PAR_BLOCK { SYNCH_GROUP(FORBLOCK1D(it, m, H, TASK(MODE(CONSTREFERENCE(c)), for (size_t i = it.begin(); i != it.end(); ++i) c[i] += 1;);)) } break;
    case 2: PARFOR1D(i, m, H, c[i] += 1); break;
    case 3: { const int mm = (int)m; PAR_BLOCK { FOR1D(i, mm, H, c[i] += 1); } break; }
    case 4: { int mm = (int)m; PARFOR1D(i, mm, H, c[i] += 1); break; }
    case 5: { // every block is one contiguous interval, numbered in order
        size_t pos = 0, idx = 0;
        FORBLOCK1D(it, m, H, {
            if (it.begin() != pos || it.end() < it.begin() || it.end() > m || it.blockindex() != idx) BAD("1D cut of %zu: block %zu is [%zu,%zu)", m, (size_t)it.blockindex(), (size_t)it.begin(), (size_t)it.end());
            for (size_t i = it.begin(); i < it.end(); ++i) c[i] += 1;
            pos = it.end(); ++idx;
        });
        ForStrategy1D<size_t, C, Q> it2(m, H);
        if (it2.numblocks() != idx) BAD("1D cut of %zu: %zu blocks announced, %zu delivered", m, (size_t)it2.numblocks(), idx);
        blocks = idx;
        break; }
    default: { // nested
        size_t half = m / 2;
        PAR_BLOCK { SYNCH_GROUP(TASK(MODE(CONSTREFERENCE(c)), { FOR1D(i, half, H, c[i] += 1); }); TASK(MODE(CONSTREFERENCE(c)), { size_t rest = m - half; unsigned* d = c + half; FOR1D(i, rest, H, d[i] += 1); });) }
    }
    }
}
template <class C, class Q> void loop2(int kind, size_t m, size_t n, size_t th, Cnt& V) {
    unsigned* c = V.c;
    ParSeqHelper::Parallel<C, Q> H(th);
    if (kind == 0) { PAR_BLOCK { FOR2D(i, j, m, n, H, c[i * n + j] += 1); } }
    else if (kind == 1) { PAR_BLOCK { SYNCH_GROUP(FORBLOCK2D(it, m, n, H, TASK(MODE(CONSTREFERENCE(c)), for (size_t i = it.ibegin(); i != it.iend(); ++i) for (size_t j = it.jbegin(); j != it.jend(); ++j) c[i * n + j] += 1;);)) } }
    else {
        size_t idx = 0;
        FORBLOCK2D(it, m, n, H, {
            if (it.iend() > m || it.jend() > n || it.ibegin() >= it.iend() || it.jbegin() >= it.jend() || it.blockindex() != idx || it.rowblockindex() >= it.rownumblocks() || it.colblockindex() >= it.colnumblocks()) BAD("2D cut of %zux%zu: block %zu (%zu,%zu) is [%zu,%zu)x[%zu,%zu)", m, n, idx, (size_t)it.rowblockindex(), (size_t)it.colblockindex(), (size_t)it.ibegin(), (size_t)it.iend(), (size_t)it.jbegin(), (size_t)it.jend());
            for (size_t i = it.ibegin(); i < it.iend(); ++i) for (size_t j = it.jbegin(); j < it.jend(); ++j) c[i * n + j] += 1;
            ++idx;
        });
    }
}
template <class C> void pick1(int q, int kind, size_t m, size_t th, Cnt& V, size_t& b) { if (q == 0) loop1<C, Threads>(kind, m, th, V, b); else if (q == 1) loop1<C, Grain>(kind, m, th, V, b); else loop1<C, Fixed>(kind, m, th, V, b); }
template <class C> void pick2(int q, int kind, size_t m, size_t n, size_t th, Cnt& V) { if (q == 0) loop2<C, Threads>(kind, m, n, th, V); else if (q == 1) loop2<C, Grain>(kind, m, n, th, V); else loop2<C, Fixed>(kind, m, n, th, V); }
}
WORKLOADF(loops) {
    sim::enter("par");
    sim_thr_val[T_MINCUT] = (int)Pick("mincuts", {1, 2, 3, 5, 8, 256});
    bool two = Pbool("two");
    int cut = (int)P("cut", 0, 2), q = (int)P("param", 0, 2);
    size_t th = (size_t)Pick("th", {1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 17, 64, 65, 66, 100, 128});
    size_t hi = (size_t)Pick("hi", {3, 10, 40, 130});
    if (two && hi > 40) hi = 40;
    size_t m = (size_t)Psize("m", 0, (long)hi), n = (size_t)Psize("n", 0, (long)hi);
    char what[160];
    if (!two) {
        int kind = (int)P("kind", 0, 6); size_t b = 0;
        snprintf(what, sizeof what, "parallel loop (form %d) over %zu indices, %s/%s %zu", kind, m, CUT[cut], PAR[q], th);
        Cnt V(m);
        { sim::Section s; if (cut == 0) pick1<Block>(q, kind, m, th, V, b); else if (cut == 1) pick1<Row>(q, kind, m, th, V, b); else pick1<Column>(q, kind, m, th, V, b); }
        V.once(what);
        if (kind == 5 && q == 0 && b > th) BAD("1D cut of %zu for %zu threads gives %zu blocks", m, th, b);
    } else {
        int kind = (int)P("kind2", 0, 2);
        snprintf(what, sizeof what, "2D parallel loop (form %d) over %zux%zu indices, %s/%s %zu", kind, m, n, CUT[cut], PAR[q], th);
        Cnt V(m * n);
        { sim::Section s; if (cut == 0) pick2<Block>(q, kind, m, n, th, V); else if (cut == 1) pick2<Row>(q, kind, m, n, th, V); else pick2<Column>(q, kind, m, n, th, V); }
        V.once(what);
    }
}
// random programs of tasks with declared data accesses: the outcome is that of the sequential execution
namespace {
struct Prog { size_t cells, len; std::vector<std::array<unsigned, 5>> ops; };
inline uint64_t f2(uint64_t a, uint64_t b, unsigned k) { return (a * 6364136223846793005ull + b * 1442695040888963407ull) ^ (a >> 29) ^ k; }
void body(uint64_t* x, const std::array<unsigned, 5>& o) {
    switch (o[0]) {
    case 0: x[o[1]] = f2(x[o[2]], x[o[3]], o[4]); break;           // write from two reads
    case 1: x[o[1]] = f2(x[o[1]], x[o[2]], o[4]); break;           // update
    default: x[o[1]] = o[4]; break;                                // overwrite
    }
}
struct Life { volatile uint64_t v; Life() : v(7) {} ~Life() { v = 0; } uint64_t get() const { return v - 7; } }; // local helper of a group, alive while its tasks run
uint64_t tree(uint64_t* leaf, size_t b, size_t e, int depth) { // divide and conquer: results of child tasks are used after the group
    if (e - b <= 1 || depth == 0) { uint64_t s = 0; for (size_t i = b; i < e; ++i) { leaf[i] = leaf[i] * 3 + 1; s += leaf[i]; } return s; }
    size_t h = b + (e - b) / 2; uint64_t l = 0, r = 0;
    SYNCH_GROUP(
        Life help;
        TASK(MODE(CONSTREFERENCE(l, help) READWRITE(leaf[b])), { l = tree(leaf, b, h, depth - 1) + help.get(); });
        TASK(MODE(CONSTREFERENCE(r, help) READWRITE(leaf[h])), { r = tree(leaf, h, e, depth - 1) + help.get(); });
    );
    return f2(l, r, (unsigned)depth);
}
uint64_t tree_ref(std::vector<uint64_t>& leaf, size_t b, size_t e, int depth) {
    if (e - b <= 1 || depth == 0) { uint64_t s = 0; for (size_t i = b; i < e; ++i) { leaf[i] = leaf[i] * 3 + 1; s += leaf[i]; } return s; }
    size_t h = b + (e - b) / 2; uint64_t l = tree_ref(leaf, b, h, depth - 1), r = tree_ref(leaf, h, e, depth - 1);
    return f2(l, r, (unsigned)depth);
}
}
WORKLOADF(tasks) {
    sim::enter("par");
    size_t cells = (size_t)P("cells", 2, 6);
    uint64_t* x = (uint64_t*)sim::user_alloc(cells * 8, 16);
    std::vector<uint64_t> y(cells);
    sim::Rng g(Pseed("data"));
    for (size_t i = 0; i < cells; ++i) y[i] = x[i] = g.next();
    if (Pbool("tree", 40)) {
        size_t nl = (size_t)Psize("leaves", 1, 20); int depth = (int)P("depth", 0, 5);
        uint64_t* leaf = (uint64_t*)sim::user_alloc(nl * 8, 16); std::vector<uint64_t> rl(nl);
        for (size_t i = 0; i < nl; ++i) rl[i] = leaf[i] = g.next();
        uint64_t got = 0, want = tree_ref(rl, 0, nl, depth);
        { sim::Section s; PAR_BLOCK { got = tree(leaf, 0, nl, depth); } }
        if (got != want) BAD("task groups: divide and conquer over %zu leaves, depth %d: wrong value", nl, depth);
        for (size_t i = 0; i < nl; ++i) if (leaf[i] != rl[i]) BAD("task groups: leaf %zu of %zu differs", i, nl);
        sim::observe(got);
        return;
    }
    size_t len = (size_t)Psize("len", 0, 14);
    std::vector<std::array<unsigned, 5>> ops(len);
    for (auto& o : ops) { o[0] = (unsigned)g.below(3); for (int k = 1; k < 4; ++k) o[(size_t)k] = (unsigned)g.below(cells); o[4] = (unsigned)g.next(); }
    for (auto& o : ops) body(y.data(), o);
    {
        sim::Section s;
        const std::array<unsigned, 5>* op = ops.data();
        PAR_BLOCK {
            SYNCH_GROUP(
                for (size_t t = 0; t < len; ++t) {
                    const std::array<unsigned, 5>* o = op + t; unsigned w = (*o)[1]; unsigned r1 = (*o)[2]; unsigned r2 = (*o)[3];
                    if ((*o)[0] == 0) { TASK(MODE(READ(x[r1], x[r2]) READWRITE(x[w])), { body(x, *o); }) CHECK_DEPENDENCIES; }
                    else if ((*o)[0] == 1) { TASK(MODE(READ(x[r1]) READWRITE(x[w])), { body(x, *o); }) CHECK_DEPENDENCIES; }
                    else { TASK(MODE(WRITE(x[w])), { body(x, *o); }) CHECK_DEPENDENCIES; }
                    (void)r1; (void)r2; (void)w;
                }
            )
        }
    }
    for (size_t i = 0; i < cells; ++i) { if (x[i] != y[i]) BAD("task program of %zu tasks on %zu cells: cell %zu differs from the sequential execution", len, cells, i); sim::observe(x[i]); }
}
