// strided guarded vector over FIELD
#ifndef VERIF_WL_VEC_H
#define VERIF_WL_VEC_H
#include "wl_common.h"
namespace {
typedef FIELD VF;
struct Vec { // strided guarded vector
    const VF& f; size_t n, inc; VF::Element* p; std::vector<char> snap; size_t tot;
    Vec(const VF& f_, size_t n_, const char* nm) : f(f_), n(n_) {
        inc = (size_t)Pick(nm, {1, 1, 2, 3, 5});
        tot = n ? (n - 1) * inc + 1 : 0;
        p = (VF::Element*)sim::user_alloc(tot * sizeof(VF::Element), 64);
        for (size_t i = 0; i < tot; ++i) sent(p[i]);
    }
    void sent(VF::Element& e) const { memcpy(&e, &SENT64, sizeof e); }
    void set(const ref::M& v) { for (size_t i = 0; i < n; ++i) put(f, p[i * inc], v.a[i]); }
    ref::M get(const char* w) const { ref::M v(n, 1); for (size_t i = 0; i < n; ++i) v(i, 0) = ::get(f, p[i * inc], w); return v; }
    void snapshot() { snap.assign((char*)p, (char*)(p + tot)); }
    void unchanged(const char* w) const { if (snap.size() && memcmp(snap.data(), p, snap.size())) sim::violation("footprint", "%s: read-only vector was modified", w); }
    void gaps(const char* w) const { VF::Element s; sent(s); for (size_t i = 0; i < tot; ++i) if (i % inc && memcmp(&s, &p[i], sizeof s)) sim::violation("footprint", "%s: the gap between strided entries was written at offset %zu (stride %zu)", w, i, inc); }
};
}
#endif
