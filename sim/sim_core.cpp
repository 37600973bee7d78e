// Deterministic simulator core: replay log, fibers, simulated OpenMP runtime
// (replaces libgomp), heap seam, access-level seam (own __tsan_* hooks),
// happens-before race detector, clock and I/O seams, driver main().
// One OS thread; every choice comes from the run seed or from a replay file.
#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <deque>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <map>
#include <new>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

namespace sim {

// =====================================================================
// raw syscalls that bypass our own interposed libc symbols
static inline ssize_t raw_write(int fd, const void* b, size_t n) { return syscall(SYS_write, fd, b, n); }
static inline ssize_t raw_read(int fd, void* b, size_t n) { return syscall(SYS_read, fd, b, n); }
static u64 real_now_us() {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return (u64)ts.tv_sec * 1000000ull + (u64)ts.tv_nsec / 1000;
}

u64 mix(u64 a, u64 b) {
    u64 z = a + 0x9E3779B97F4A7C15ull * (b + 1);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
u64 Rng::next() {
    s += 0x9E3779B97F4A7C15ull;
    u64 z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static u64 hstr(const char* s) {
    u64 h = 1469598103934665603ull;
    for (; *s; ++s) h = (h ^ (u8)*s) * 1099511628211ull;
    return h;
}

// =====================================================================
// internal allocator (never seen by the code under test)
static const size_t IARENA_SIZE = 8ull << 30;
static char* const IARENA = (char*)0x180000000000ull;
static char* ibump = nullptr;
static void* ialloc(size_t n) {
    if (!ibump) {
        void* p = mmap(IARENA, IARENA_SIZE, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
        if (p != (void*)IARENA) _exit(97);
        ibump = IARENA;
    }
    n = (n + 15) & ~(size_t)15;
    char* p = ibump;
    ibump += n;
    if (ibump > IARENA + IARENA_SIZE) _exit(96);
    return p;
}
template <class T> struct IA {
    typedef T value_type;
    IA() {}
    template <class U> IA(const IA<U>&) {}
    T* allocate(size_t n) { return (T*)ialloc(n * sizeof(T)); }
    void deallocate(T*, size_t) {}
    template <class U> bool operator==(const IA<U>&) const { return true; }
    template <class U> bool operator!=(const IA<U>&) const { return false; }
};
template <class T> using ivec = std::vector<T, IA<T>>;
template <class A, class B> using imap = std::map<A, B, std::less<A>, IA<std::pair<const A, B>>>;
typedef std::basic_string<char, std::char_traits<char>, IA<char>> istr;

// =====================================================================
// shared result block (parent <-> run)
enum { MAXLOG = 1 << 20, MAXPARAM = 512, MAXCNT = 256, TRACELEN = 1 << 20 };
struct LogRec { u32 idx; u32 val; };
struct PreRec { u64 acc; u32 val; u32 pad; };
struct ParRec { char name[40]; long val, lo, hi; };
struct CntRec { char name[48]; u64 n; };
struct Shared {
    volatile int state;  // 0 running, 1 finished
    volatile int status;
    char cls[64];
    char msg[4096];
    u64 hash;         // hash of the whole event history
    u64 ihash;        // hash of the interleaving only (switches, task placement)
    int expect_exit;
    u64 steps, accesses, switches, tasks, parallels, races;
    u64 clock_us;     // simulated time covered
    u32 nlog, npre, npar, ncnt;
    u32 nracepc;
    u32 racepc[16];
    LogRec log[MAXLOG];
    PreRec pre[1 << 16];
    ParRec par[MAXPARAM];
    CntRec cnt[MAXCNT];
    u32 tracelen;
    char trace[TRACELEN];
};
static Shared* R = nullptr;

// =====================================================================
// run state
Knobs K;
static u64 g_seed = 1;
static bool g_replay = false;
static bool g_replay_generate = false; // replay keeps generated schedule
static imap<u32, u32>* g_rlog = nullptr;
static imap<u64, u32>* g_rpre = nullptr;
static imap<istr, long>* g_rpar = nullptr;
static u64 g_schedrng = 1;
static u32 g_choice_no = 0;
static bool g_trace = false;
static u64 g_hash = 1469598103934665603ull, g_ihash = 1469598103934665603ull;
static bool g_in_op = false;
static u64 step_no_ = 0, acc_no_ = 0;
static const char* g_mode_filter = "";

static inline void hash_ev(u64 x) { g_hash = (g_hash ^ x) * 1099511628211ull; g_hash ^= g_hash >> 29; }
static inline void hash_il(u64 x) { g_ihash = (g_ihash ^ x) * 1099511628211ull; g_ihash ^= g_ihash >> 29; hash_ev(x); }
void observe(u64 h) { hash_ev(h); }

static void tracef(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
static void tracef(const char* fmt, ...) {
    if (!R) return;
    if (!g_trace) return;
    u32 room = TRACELEN - R->tracelen;
    if (room < 512) return;
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(R->trace + R->tracelen, room, fmt, ap);
    va_end(ap);
    if (n > 0) R->tracelen += (u32)std::min<int>(n, (int)room - 1);
}

[[noreturn]] static void finish(int st, const char* cls) {
    if (R) {
        R->status = st;
        snprintf(R->cls, sizeof R->cls, "%s", cls);
        R->hash = g_hash;
        R->ihash = g_ihash;
        R->steps = step_no_;
        R->accesses = acc_no_;
        R->state = 1;
    }
    syscall(SYS_exit_group, st == ST_VIOLATION ? 1 : 0);
    __builtin_unreachable();
}
void expect_exit(bool b) { if (R) R->expect_exit = b; }
void violation(const char* cls, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    if (R) vsnprintf(R->msg, sizeof R->msg, fmt, ap);
    va_end(ap);
    hash_ev(hstr(cls));
    finish(ST_VIOLATION, cls);
}
void skip(const char* why) {
    if (R) snprintf(R->msg, sizeof R->msg, "%s", why);
    finish(ST_SKIP, "skip");
}
void note(const char* fmt, ...) {
    if (!g_trace || !R) return;
    char b[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    tracef("  # %s\n", b);
}
static void count(const char* kind, const char* name, u64 k) {
    if (!R) return;
    char b[48];
    snprintf(b, sizeof b, "%s:%s", kind, name);
    for (u32 i = 0; i < R->ncnt; ++i)
        if (!strcmp(R->cnt[i].name, b)) { R->cnt[i].n += k; return; }
    if (R->ncnt < MAXCNT) { strcpy(R->cnt[R->ncnt].name, b); R->cnt[R->ncnt++].n = k; }
}
void probe(const char* n, u64 k) { count("probe", n, k); }
void fault(const char* n, u64 k) { count("fault", n, k); }

// ---------------------------------------------------------------- parameters
static long par_value(const char* name, long lo, long hi, long generated) {
    long v = generated;
    if (g_rpar) {
        auto it = g_rpar->find(istr(name));
        if (it != g_rpar->end()) v = it->second;
    }
    if (v < lo) v = lo;
    if (v > hi) v = hi;
    if (R) {
        for (u32 i = 0; i < R->npar; ++i)
            if (!strcmp(R->par[i].name, name)) return v;
        if (R->npar < MAXPARAM) {
            ParRec& p = R->par[R->npar++];
            snprintf(p.name, sizeof p.name, "%s", name);
            p.val = v; p.lo = lo; p.hi = hi;
        }
    }
    hash_ev(mix(hstr(name), (u64)v));
    return v;
}
long P(const char* name, long lo, long hi) {
    u64 h = mix(mix(g_seed, 77), hstr(name));
    return par_value(name, lo, hi, lo + (long)(h % (u64)(hi - lo + 1)));
}
long Psize(const char* name, long lo, long hi) {
    u64 h = mix(mix(g_seed, 78), hstr(name));
    u64 h2 = mix(h, 3);
    long span = hi - lo + 1, v;
    switch (h % 6) {
    case 0: v = lo + (long)(h2 % (u64)std::min<long>(span, 4)); break;
    case 1: v = lo + (long)(h2 % (u64)std::min<long>(span, 17)); break;
    case 2: v = lo + (long)(h2 % (u64)std::max<long>(1, span / 3)); break;
    default: v = lo + (long)(h2 % (u64)span);
    }
    return par_value(name, lo, hi, v);
}
long Pick(const char* name, const std::vector<long>& v) {
    long i = P(name, 0, (long)v.size() - 1);
    return v[(size_t)i];
}
bool Pbool(const char* name, int pct) {
    u64 h = mix(mix(g_seed, 79), hstr(name));
    return par_value(name, 0, 1, (long)(h % 100) < pct) != 0;
}
u64 Pseed(const char* name) { return (u64)P(name, 0, 0x3fffffff); }

// ---------------------------------------------------------------- decisions
static u64 srnd() { g_schedrng += 0x9E3779B97F4A7C15ull; return mix(g_schedrng, 5); }
static unsigned decide(unsigned n, unsigned proposal) {
    u32 idx = g_choice_no++;
    unsigned v = proposal;
    if (g_replay) {
        auto it = g_rlog->find(idx);
        v = it == g_rlog->end() ? 0 : it->second;
    }
    if (v >= n) v = n ? n - 1 : 0;
    if (v && R && R->nlog < MAXLOG) { R->log[R->nlog].idx = idx; R->log[R->nlog++].val = v; }
    hash_ev(v);
    return v;
}
unsigned choose(unsigned n, const char*) {
    if (n <= 1) return 0;
    return decide(n, (unsigned)(srnd() % n));
}
static bool coin(int pct) { return pct > 0 && decide(2, (int)(srnd() % 100) < pct) != 0; }

// =====================================================================
// application arena + heap seam
static const size_t ARENA_SIZE = 16ull << 30;
static char* const ARENA = (char*)0x100000000000ull;
static char* const SHADOW = (char*)0x200000000000ull;   // 8x arena
static char* const GSHADOW = (char*)0x2f0000000000ull;  // globals (non-PIE image, < 4 GiB)
static char* abump = nullptr;
static char* afirst = nullptr;

struct Hdr { // precedes each user block
    u64 magic;
    u64 size;
    char* base; // start of the raw chunk
    u64 raw;    // raw chunk size
    u64 id;
    u64 inop;
    Hdr *prev, *next;
    u64 pre[2]; // front canary
};
static const u64 MAGIC = 0xfeedc0dedeadbee5ull, FREED = 0xdeadfeeddeadf4eeull;
static const u64 CANARY = 0x7ff7a5a57ff7a5a5ull; // NaN as double and as float
static const size_t REDZONE = 64;
static Hdr* live_head = nullptr;
static u64 next_id = 1, op_allocs = 0;
static u64 fail_at = 0;
static bool fail_fired_ = false, fail_sticky_ = false;
static bool g_fail_stop_ok = false; // memory exhaustion is injected: stopping is an acceptable outcome, a wrong answer is not
enum { NBIN = 2048 };
struct FreeNode { FreeNode* next; };
static FreeNode* bins[NBIN];
static bool g_run_heap = false;

extern "C" { volatile int sim_hook = 0; }

// shadow cell for 4 application bytes
struct Cell { u32 ws, wpc, r1, r1pc, r2, r2pc, wmask_rmask, pad; };
enum : u32 { S_NONE = 0, S_REDZONE = 0xffffffffu, S_FREED = 0xfffffffeu };
static bool g_shadow = false;
static inline Cell* cell_of(uintptr_t a) {
    if (a - (uintptr_t)ARENA < ARENA_SIZE) return (Cell*)(SHADOW + ((a - (uintptr_t)ARENA) >> 2) * sizeof(Cell));
    if (a < (1ull << 32)) return (Cell*)(GSHADOW + (a >> 2) * sizeof(Cell));
    return nullptr;
}
static void shadow_set(uintptr_t a, size_t n, u32 ws) {
    if (!g_shadow || !n) return;
    uintptr_t e = (a + n + 3) & ~(uintptr_t)3;
    a &= ~(uintptr_t)3;
    Cell* c = cell_of(a);
    if (!c) return;
    size_t k = (e - a) >> 2;
    if (ws == S_NONE) {
        // large clears: drop pages instead of touching them
        memset((void*)c, 0, k * sizeof(Cell));
    } else
        for (size_t i = 0; i < k; ++i) { memset((void*)&c[i], 0, sizeof(Cell)); c[i].ws = ws; }
}

static void arena_init() {
    if (abump) return;
    void* p = mmap(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (p != (void*)ARENA) _exit(98);
    abump = afirst = ARENA + 4096;
}
static int bin_of(size_t raw) {
    if (raw <= 65536) return (int)(raw / 64);
    int b = 1025;
    size_t s = 131072;
    while (s < raw && b < NBIN - 1) { s *= 2; ++b; }
    return b;
}
static size_t round_raw(size_t raw) {
    raw = (raw + 63) & ~(size_t)63;
    if (raw <= 65536) return raw;
    size_t s = 131072;
    while (s < raw) s *= 2;
    return s;
}
static void poison_fill(void* p, size_t n, u64 id) {
    switch (K.poison) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xff, n); break; // NaN / -1
    case 2: { // large finite doubles, plausible float pairs
        u64 v = 0x4330000000000007ull; for (size_t i = 0; i + 8 <= n; i += 8) memcpy((char*)p + i, &v, 8); break; }
    case 3: { // small integers stored as doubles: looks like field data
        for (size_t i = 0; i + 8 <= n; i += 8) { double d = (double)((i / 8 + id) % 5 + 1); memcpy((char*)p + i, &d, 8); } break; }
    case 4: { // small floats
        for (size_t i = 0; i + 4 <= n; i += 4) { float d = (float)((i / 4 + id) % 3 + 1); memcpy((char*)p + i, &d, 4); } break; }
    case 5: { u64 s = mix(g_seed, id); for (size_t i = 0; i + 8 <= n; i += 8) { s = mix(s, i); memcpy((char*)p + i, &s, 8); } break; }
    default: break; // stale
    }
}
static void sched_point_mem();
static void* heap_alloc(size_t size, size_t align, bool user = false, void* pc = nullptr) {
    arena_init();
    if (g_in_op && !user) {
        ++op_allocs;
        if (fail_at && (op_allocs == fail_at || (fail_sticky_ && op_allocs > fail_at))) {
            fail_fired_ = true;
            if (g_fail_stop_ok && R) R->expect_exit = 1;
            errno = ENOMEM;
            fault("alloc_fail");
            tracef("[alloc] allocation %lu of %zu bytes FAILS (injected)\n", (unsigned long)op_allocs, size);
            return nullptr;
        }
    }
    if (align < 16) align = 16;
    size_t raw = sizeof(Hdr) + align * 2 + size + REDZONE;
    if (raw < size || raw > (4ull << 30)) { errno = ENOMEM; return nullptr; }
    raw = round_raw(raw);
    char* base = nullptr;
    int b = bin_of(raw);
    bool reuse = K.reuse == 0 || !g_run_heap;
    if (reuse && bins[b]) {
        base = (char*)bins[b];
        bins[b] = bins[b]->next;
    } else {
        base = abump;
        abump += raw;
        if (abump > ARENA + ARENA_SIZE) _exit(95);
    }
    uintptr_t u = (uintptr_t)base + sizeof(Hdr);
    u = (u + align - 1) & ~(uintptr_t)(align - 1);
    if ((u & (2 * align - 1)) == 0 && g_run_heap && (mix(g_seed, next_id) & 1)) u += align; // not more aligned than asked
    Hdr* h = (Hdr*)(u - sizeof(Hdr));
    h->magic = MAGIC; h->size = size; h->base = base; h->raw = raw; h->id = next_id++;
    h->inop = g_in_op && !user ? (u64)(pc ? pc : (void*)1) : 0; // allocation site
    h->pre[0] = h->pre[1] = CANARY;
    h->prev = nullptr; h->next = live_head;
    if (live_head) live_head->prev = h;
    live_head = h;
    char* end = (char*)u + size;
    char* rawend = base + raw;
    if (g_run_heap) {
        poison_fill((void*)u, size, h->id);
        size_t rz = std::min<size_t>((size_t)(rawend - end), 256);
        // byte-exact canary phase-locked to 8-byte boundaries
        for (size_t i = 0; i < rz; ++i) end[i] = ((const char*)&CANARY)[((uintptr_t)(end + i)) & 7];
        if (g_shadow) {
            shadow_set((uintptr_t)base, (size_t)((char*)u - base), S_REDZONE);
            shadow_set(u, size, S_NONE);
            uintptr_t e4 = (u + size + 3) & ~(uintptr_t)3;
            size_t rzs = (uintptr_t)rawend > e4 ? std::min<size_t>((uintptr_t)rawend - e4, 1024) : 0;
            shadow_set(e4, rzs, S_REDZONE);
        }
    }
    return (void*)u;
}
static bool g_leak_is_violation = false;
static void leak_check();
static const char* hdr_bad(Hdr* h) {
    if (h->magic != MAGIC) return "header overwritten (write before the block)";
    if (h->pre[0] != CANARY || h->pre[1] != CANARY) return "front canary overwritten (write before the block)";
    char* end = (char*)(h + 1) + h->size;
    if (g_run_heap) {
        size_t rz = std::min<size_t>((size_t)(h->base + h->raw - end), 256);
        for (size_t i = 0; i < rz; ++i)
            if (end[i] != ((const char*)&CANARY)[((uintptr_t)(end + i)) & 7]) return "rear canary overwritten (write past the end of the block)";
    }
    return nullptr;
}
static u64 g_run_first_id = 0;
static void heap_free(void* p) {
    if (!p) return;
    if ((char*)p < ARENA || (char*)p >= ARENA + ARENA_SIZE) { if (g_run_heap) violation("oob", "free() of a pointer %p not returned by the allocator", p); return; }
    Hdr* h = (Hdr*)p - 1;
    if (h->magic == FREED) { if (g_run_heap) violation("oob", "double free of a %lu-byte block", (unsigned long)h->size); return; }
    if (g_run_heap && h->id >= g_run_first_id) {
        if (const char* w = hdr_bad(h)) violation("oob", "heap corruption found at free of a %lu-byte block: %s", (unsigned long)h->size, w);
    }
    if (h->prev) h->prev->next = h->next; else live_head = h->next;
    if (h->next) h->next->prev = h->prev;
    h->magic = FREED;
    if (g_run_heap && h->id < g_run_first_id) return; // pre-run block: leave alone
    if (g_run_heap) {
        if (K.poison != 6) {
            if (K.poison == 1 || K.poison == 5) memset(p, 0xff, h->size);
        }
        if (g_shadow) shadow_set((uintptr_t)p, h->size, S_FREED);
    }
    if (K.reuse == 0 || !g_run_heap) {
        int b = bin_of(h->raw);
        FreeNode* f = (FreeNode*)h->base;
        // note: base <= h; node overlaps at most the header padding
        u64 raw = h->raw; (void)raw;
        f->next = bins[b];
        bins[b] = f;
    }
}
HeapMark heap_mark() { HeapMark m; m.id = next_id; return m; }
size_t heap_live_since(HeapMark m, size_t* bytes, char* d, size_t dl) {
    size_t n = 0, b = 0;
    if (d && dl) d[0] = 0;
    for (Hdr* h = live_head; h; h = h->next)
        if (h->id >= m.id && h->inop) {
            ++n; b += h->size;
            if (d && strlen(d) + 24 < dl) sprintf(d + strlen(d), "%lu ", (unsigned long)h->size);
        }
    if (bytes) *bytes = b;
    return n;
}
void heap_check(const char* when) {
    for (Hdr* h = live_head; h; h = h->next) {
        if (h->id < g_run_first_id) break;
        if (const char* w = hdr_bad(h)) violation("oob", "%s: heap corruption around a %lu-byte block: %s", when, (unsigned long)h->size, w);
    }
}
u64 heap_alloc_count() { return op_allocs; }
void heap_fail_at(u64 n) { fail_at = n ? op_allocs + n : 0; }
bool heap_fail_fired() { return fail_fired_; }
void heap_fail_sticky(bool b) { fail_sticky_ = b; }
void* user_alloc(size_t n, size_t a) { return heap_alloc(n, a, true); }

// =====================================================================
// fibers
struct Task; struct Team;
enum Wait { W_NONE, W_TASKWAIT, W_BARRIER, W_JOIN, W_GUARD, W_DEAD, W_LOCK, W_DEPS };
struct Fiber {
    void* sp = nullptr;
    char *stk = nullptr, *stktop = nullptr;
    int id = 0;
    Team* team = nullptr;
    int tid = 0;
    Task* cur = nullptr;
    Wait wait = W_NONE;
    u64 waitgen = 0;
    void* waitobj = nullptr;
    u32 wsidx = 0;
    u32 strand = 0;
    int prio = 0;
    uintptr_t minsp = 0;
    uintptr_t usp = 0;              // where the frames of the program end while the runtime runs on this stack (0: at sp)
    struct Zone { uintptr_t lo, hi; };
    ivec<Zone> zones;               // frames of the runtime between frames of the program
    u64 eh[2] = {0, 0};
    char* tls = nullptr;
    std::function<void()>* body = nullptr;
    void (*ofn)(void*) = nullptr;
    void* odata = nullptr;
};
static ivec<Fiber*>* fibers;
static Fiber* cur = nullptr; // current fiber
static Fiber* rootf = nullptr;
static ivec<char*>* freestk;
static Fiber* stkowner[ARENA_SIZE >> 20]; // stacks are aligned to their size
static const size_t STK = 1 << 20;

extern "C" void sim_switch(void** from, void* to);
__asm__(
    ".text\n.globl sim_switch\n.type sim_switch,@function\nsim_switch:\n"
    "  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
    "  subq $8,%rsp\n  stmxcsr (%rsp)\n  fnstcw 4(%rsp)\n"
    "  movq %rsp,(%rdi)\n  movq %rsi,%rsp\n"
    "  ldmxcsr (%rsp)\n  fldcw 4(%rsp)\n  addq $8,%rsp\n"
    "  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n"
    ".size sim_switch,.-sim_switch\n");

static size_t tls_size = 0;
static char* tls_base = nullptr;
static int tls_cb(struct dl_phdr_info* i, size_t, void*) {
    static bool first = true;
    if (first) {
        first = false;
        for (int k = 0; k < i->dlpi_phnum; ++k)
            if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_phdr[k].p_memsz) {
                tls_size = i->dlpi_phdr[k].p_memsz;
                tls_base = (char*)i->dlpi_tls_data;
            }
    }
    return 0;
}
static char* tls_init_img = nullptr;

#define step_no step_no_
static void step() {
    if (++step_no > (u64)K.step_cap) violation("hang", "no completion within %ld simulated steps", K.step_cap);
}
static void switch_to(Fiber* f) {
    if (f == cur) return;
    Fiber* o = cur;
    if (R) R->switches++;
    hash_il((u64)f->id + 1);
    tracef("[sched] thread %d -> thread %d\n", o->id, f->id);
    u64* g = (u64*)abi::__cxa_get_globals();
    o->eh[0] = g[0]; o->eh[1] = g[1];
    g[0] = f->eh[0]; g[1] = f->eh[1];
    if (tls_size) { memcpy(o->tls, tls_base, tls_size); memcpy(tls_base, f->tls, tls_size); }
    cur = f;
    sim_switch(&o->sp, f->sp);
}
static void fiber_main();
static Fiber* new_fiber() {
    Fiber* f = new (ialloc(sizeof(Fiber))) Fiber();
    f->id = (int)fibers->size();
    if (freestk->size()) { f->stk = freestk->back(); freestk->pop_back(); }
    else {
        arena_init();
        abump = (char*)(((uintptr_t)abump + STK - 1) & ~(uintptr_t)(STK - 1));
        f->stk = abump;
        abump += STK;
        mprotect(f->stk, 4096, PROT_NONE);
    }
    f->stktop = f->stk + STK;
    stkowner[(size_t)(f->stk - ARENA) >> 20] = f;
    uintptr_t sp = (uintptr_t)f->stktop - 256;
    sp &= ~(uintptr_t)63;
    u64* s = (u64*)sp;
    *--s = 0;                    // alignment: at entry rsp%16==8
    *--s = (u64)&fiber_main;     // return address
    for (int i = 0; i < 6; ++i) *--s = 0;
    --s;
    u32 mx;
    __asm__ volatile("stmxcsr %0" : "=m"(mx));
    unsigned short cw;
    __asm__ volatile("fnstcw %0" : "=m"(cw));
    ((u32*)s)[0] = mx;
    ((unsigned short*)s)[2] = cw;
    f->sp = s;
    f->minsp = (uintptr_t)f->stktop;
    if (tls_size) { f->tls = (char*)ialloc(tls_size); memcpy(f->tls, tls_init_img, tls_size); }
    f->prio = (int)(srnd() % 1000000);
    fibers->push_back(f);
    return f;
}

// A block kept in a static or thread-local object (a cache, a lazily built table) is not lost: only blocks that
// no global, thread-local or live block designates count as leaked.
extern "C" char __data_start[], _end[];
static bool leak_candidate(Hdr* h) { return h->id >= 1000000 && h->inop > 1 && h->inop < (1ull << 32); }
static void leak_check() {
    imap<uintptr_t, Hdr*> cand;
    for (Hdr* h = live_head; h; h = h->next) if (leak_candidate(h)) cand[(uintptr_t)(h + 1)] = h;
    if (cand.empty()) return;
    ivec<Hdr*> todo;
    auto scan = [&](const char* lo, const char* hi) {
        for (uintptr_t a = ((uintptr_t)lo + 7) & ~(uintptr_t)7; a + 8 <= (uintptr_t)hi; a += 8) {
            uintptr_t v; memcpy(&v, (const void*)a, 8);
            if (v < (uintptr_t)ARENA || v >= (uintptr_t)ARENA + ARENA_SIZE) continue;
            auto it = cand.upper_bound(v);
            if (it == cand.begin()) continue;
            --it;
            if (v >= it->first && v < it->first + std::max<u64>(it->second->size, 1)) { todo.push_back(it->second); cand.erase(it); }
        }
    };
    scan(__data_start, _end);
    if (tls_size) { scan(tls_base, tls_base + tls_size); for (Fiber* f : *fibers) if (f->tls && f != cur) scan(f->tls, f->tls + tls_size); }
    while (!todo.empty()) { Hdr* h = todo.back(); todo.pop_back(); scan((char*)(h + 1), (char*)(h + 1) + h->size); }
    size_t n = 0, bytes = 0;
    Hdr* first = nullptr;
    for (auto& c : cand) { Hdr* h = c.second; ++n; bytes += h->size; if (!first || h->id < first->id) first = h; }
    if (n) violation("leak", "%zu blocks (%zu bytes) allocated by the operation are never released; the first has %lu bytes, allocated at pc 0x%lx", n, bytes, (unsigned long)first->size, (unsigned long)first->inop);
}

// =====================================================================
// happens-before: strands with ancestor bitsets
struct Bits {
    ivec<u64> w;
    void set(u32 i) { if (w.size() <= i / 64) w.resize(i / 64 + 1); w[i / 64] |= 1ull << (i % 64); }
    bool get(u32 i) const { return i / 64 < w.size() && (w[i / 64] >> (i % 64) & 1); }
    void add(const Bits& o) { if (w.size() < o.w.size()) w.resize(o.w.size()); for (size_t i = 0; i < o.w.size(); ++i) w[i] |= o.w[i]; }
};
static ivec<Bits*>* strands; // ancestors of strand i
static bool hb_on() { return K.race && strands->size() < 12000; }
static u32 new_strand(u32 pred, const Bits* extra = nullptr) {
    if (!K.race) return 0;
    if (strands->size() >= 12000) { // detector saturated: stop detecting for the rest of the run
        sim_hook &= ~2;
        if (K.race) probe("race_detector_saturated");
        K.race = false;
        return 0;
    }
    Bits* b = new (ialloc(sizeof(Bits))) Bits();
    if (pred) { b->add(*(*strands)[pred]); b->set(pred); }
    if (extra) b->add(*extra);
    strands->push_back(b);
    return (u32)strands->size() - 1;
}
static inline bool ordered(u32 s, u32 c) { return s == c || (*strands)[c]->get(s); }
static void strand_bits(Bits& out, u32 s) { if (!K.race || !s) return; out.add(*(*strands)[s]); out.set(s); }

// =====================================================================
// tasks and teams
struct Task {
    Task* parent = nullptr;
    Team* team = nullptr;
    void (*fn)(void*) = nullptr;
    void* arg = nullptr;
    u32 id = 0;
    int children = 0; // incomplete
    int ndeps = 0;
    bool done = false, started = false;
    u32 cstrand = 0;  // creator strand at creation
    Bits join;        // finals of completed children
    Bits pre;         // finals of dependence predecessors
    Bits fin;
    ivec<Task*> succ;
    int icv = 1;
    int level = 0, active = 0;
    struct DepInfo { ivec<Task*> prev, last; int kind = 0; }; // two latest generations of tasks naming an address; kind of the latest
    imap<void*, DepInfo>* deps = nullptr; // for children
    int tgroup = 0;
};
struct WS { bool claimed = false; bool init = false; unsigned long long next = 0, end = 0, incr = 1; bool up = true; void* copy = nullptr; int sched = 0; unsigned long long chunk = 1; int taken = 0; ivec<char> sdone; };
struct Team {
    int n = 1;
    Team* parent = nullptr;
    ivec<Task*> ready;
    int outstanding = 0;
    int arrived = 0;
    u64 gen = 0;
    Bits join, arrive_bits, open_bits;
    ivec<WS*> ws;
    int alive = 0;
    void (*fn)(void*) = nullptr;
    void* data = nullptr;
};
static u32 ntasks = 0;
static int g_taskpick = 0;
static int g_victim = -1;

static bool is_desc(Task* t, Task* a) { for (t = t->parent; t; t = t->parent) if (t == a) return true; return false; }
static bool task_allowed(Fiber* f, Task* t) {
    if (f->wait == W_BARRIER) return true;
    return is_desc(t, f->cur);
}
static bool has_task(Fiber* f) {
    for (Task* t : f->team->ready) if (task_allowed(f, t)) return true;
    return false;
}
static bool guard_free(void* g);
struct Lock { int owner = -1; Bits rel; int depth = 0; };
static imap<void*, Lock*>* locks;
static bool eligible(Fiber* f) {
    switch (f->wait) {
    case W_NONE: return true;
    case W_DEAD: return false;
    case W_TASKWAIT: return f->cur->children == 0 || has_task(f);
    case W_BARRIER: return f->team->gen != f->waitgen || (f->team->arrived == f->team->n && f->team->outstanding == 0) || has_task(f);
    case W_JOIN: return ((Team*)f->waitobj)->alive == 0;
    case W_GUARD: return guard_free(f->waitobj);
    case W_LOCK: return ((Lock*)f->waitobj)->owner < 0;
    case W_DEPS: return ((Task*)f->waitobj)->ndeps == 0 || has_task(f);
    }
    return false;
}
static u64 pct_next = 0, pct_count = 0;
static void reschedule(bool may_continue) {
    step();
    // candidates: current first (default), then by id cyclically
    static Fiber* cand[512];
    unsigned n = 0;
    if (may_continue && eligible(cur)) cand[n++] = cur;
    size_t N = fibers->size();
    for (size_t k = 1; k <= N; ++k) {
        Fiber* f = (*fibers)[((size_t)cur->id + k) % N];
        if (f == cur && (n && cand[0] == cur)) continue;
        if (f->wait == W_DEAD) continue;
        if (!eligible(f)) continue;
        if (n < 512) cand[n++] = f;
    }
    if (!n) {
        char b[1024]; int p = 0; b[0] = 0;
        for (Fiber* f : *fibers) if (f->wait != W_DEAD && p < 900)
            p += snprintf(b + p, sizeof b - (size_t)p, " thread%d:%s", f->id, f->wait == W_TASKWAIT ? "taskwait" : f->wait == W_BARRIER ? "barrier" : f->wait == W_JOIN ? "join" : f->wait == W_DEPS ? "task-dependence" : "blocked");
        violation("deadlock", "all simulated threads are blocked:%s", b);
    }
    if (n == 1) { switch_to(cand[0]); return; }
    unsigned prop = 0;
    if (!g_replay) {
        ++pct_count;
        switch (K.sched) {
        case 0: prop = (unsigned)(srnd() % n); break;
        case 1: prop = (srnd() % 8 == 0) ? (unsigned)(srnd() % n) : 0; break;
        case 2: { // priorities with change points
            if (pct_count >= pct_next) { pct_next = pct_count + 1 + srnd() % 40; cand[0]->prio = -(int)(srnd() % 1000000); }
            int best = INT32_MIN;
            for (unsigned i = 0; i < n; ++i) if (cand[i]->prio > best) { best = cand[i]->prio; prop = i; }
            break; }
        case 3: { // one stalled worker
            if (g_victim < 0) g_victim = (int)(srnd() % 8);
            unsigned tries = 0;
            do { prop = (unsigned)(srnd() % n); } while (cand[prop]->id % 8 == g_victim && ++tries < 6);
            if (tries) fault("stalled_worker");
            break; }
        case 4: prop = n - 1; break;       // always somebody else
        default: prop = 0;
        }
    }
    switch_to(cand[decide(n, prop)]);
}
static inline void sched_point() { if (fibers->size() > 1) reschedule(true); }

static Task* pick_task(Fiber* f) {
    static unsigned ix[4096];
    unsigned n = 0;
    Team* T = f->team;
    for (unsigned i = 0; i < T->ready.size() && n < 4096; ++i) if (task_allowed(f, T->ready[i])) ix[n++] = i;
    if (!n) return nullptr;
    unsigned prop = 0;
    switch (g_taskpick) { case 1: prop = n - 1; break; case 2: prop = (unsigned)(srnd() % n); break; default: prop = 0; }
    unsigned v = n > 1 ? decide(n, prop) : 0;
    Task* t = T->ready[ix[v]];
    T->ready.erase(T->ready.begin() + ix[v]);
    return t;
}
static void complete(Task* t, u32 laststrand) {
    Team* T = t->team;
    strand_bits(t->fin, laststrand);
    t->done = true;
    if (t->parent) { t->parent->children--; if (K.race) t->parent->join.add(t->fin); }
    T->outstanding--;
    if (K.race) T->join.add(t->fin);
    for (Task* s : t->succ) {
        if (K.race) s->pre.add(t->fin);
        if (--s->ndeps == 0 && !s->started) T->ready.push_back(s);
    }
}
static void clear_stack_shadow(Fiber* f, uintptr_t top) {
    if (g_shadow && f->minsp < top) {
        shadow_set(f->minsp, top - f->minsp, S_NONE);
    }
    f->minsp = top;
}
static void __attribute__((noinline)) run_task(Task* t) {
    Fiber* f = cur;
    Task* save = f->cur;
    u32 savestrand = f->strand;
    Wait sw = f->wait; u64 sg = f->waitgen; void* so = f->waitobj;
    f->wait = W_NONE;
    t->started = true;
    f->cur = t;
    f->strand = new_strand(t->cstrand, &t->pre);
    hash_il(((u64)t->id << 8) ^ (u64)f->id ^ 0xabcdef0000ull);
    tracef("[task] #%u starts on thread %d\n", t->id, f->id);
    uintptr_t top = (uintptr_t)__builtin_frame_address(0);
    clear_stack_shadow(f, top);
    u64* g = (u64*)abi::__cxa_get_globals();
    u64 e0 = g[0], e1 = g[1];
    g[0] = g[1] = 0;
    t->fn(t->arg);
    g = (u64*)abi::__cxa_get_globals();
    g[0] = e0; g[1] = e1;
    f = cur;
    clear_stack_shadow(f, top);
    u32 last = f->strand;
    tracef("[task] #%u ends on thread %d\n", t->id, f->id);
    complete(t, last);
    f->cur = save;
    f->strand = savestrand;
    f->wait = sw; f->waitgen = sg; f->waitobj = so;
}
static void block(Wait w, void* obj = nullptr) {
    cur->wait = w; cur->waitobj = obj;
    reschedule(true);
    // on return we are eligible again (or were chosen again)
}
static void join_children(Task* t) {
    if (!K.race) return;
    cur->strand = new_strand(cur->strand, &t->join);
}
static void do_taskwait() {
    Fiber* f = cur;
    sched_point();
    Task* t = f->cur;
    while (t->children > 0) {
        f->wait = W_TASKWAIT;
        if (has_task(f)) {
            // run a descendant here, or let another thread go first
            if (fibers->size() > 1 && !coin(60)) { reschedule(true); }
            if (t->children == 0) break;
            f->wait = W_TASKWAIT;
            Task* n = pick_task(f);
            if (n) { f->wait = W_TASKWAIT; run_task(n); f->wait = W_NONE; continue; }
        }
        block(W_TASKWAIT);
    }
    f->wait = W_NONE;
    join_children(t);
}
static void do_barrier() {
    Fiber* f = cur;
    Team* T = f->team;
    sched_point();
    u64 gen = T->gen;
    T->arrived++;
    strand_bits(T->arrive_bits, f->strand);
    for (;;) {
        if (T->gen != gen) break;
        if (T->arrived == T->n && T->outstanding == 0) {
            T->gen++;
            T->arrived = 0;
            if (K.race) { T->open_bits = T->arrive_bits; T->open_bits.add(T->join); T->arrive_bits = Bits(); }
            break;
        }
        f->wait = W_BARRIER; f->waitgen = gen;
        if (has_task(f) && (fibers->size() == 1 || coin(60))) {
            Task* n = pick_task(f);
            if (n) { run_task(n); f->wait = W_NONE; continue; }
        }
        f->wait = W_BARRIER; f->waitgen = gen;
        reschedule(true);
        f->wait = W_BARRIER; f->waitgen = gen;
        if (T->gen != gen) break;
        if (has_task(f)) { Task* n = pick_task(f); if (n) run_task(n); }
    }
    f->wait = W_NONE;
    if (K.race) f->strand = new_strand(f->strand, &T->open_bits);
}

static Task* new_task(Task* parent, Team* team) {
    Task* t = new (ialloc(sizeof(Task))) Task();
    t->parent = parent; t->team = team; t->id = ntasks++;
    if (parent) { t->icv = parent->icv; t->level = parent->level; t->active = parent->active; }
    return t;
}
static void fiber_main() {
    Fiber* f = cur;
    if (f->body) {
        (*f->body)();
        f = cur;
        Team* T = (Team*)f->waitobj; // client group
        (void)T;
    } else {
        f->ofn(f->odata);
        f = cur;
        do_barrier();
        f = cur;
        f->team->alive--;
    }
    if (f->body) { Team* T = f->team->parent; T->alive--; strand_bits(T->join, f->strand); }
    clear_stack_shadow(f, (uintptr_t)f->stktop);
    f->wait = W_DEAD;
    reschedule(false);
    __builtin_trap();
}
static void do_parallel(void (*fn)(void*), void* data, unsigned nreq) {
    Fiber* f = cur;
    Task* me = f->cur;
    int n = nreq ? (int)nreq : me->icv;
    if (n < 1) n = 1;
    if (n > 64) n = 64;
    if (me->active >= K.max_levels) n = 1;
    if (n > 1 && g_in_op && coin(K.short_team)) { n = 1 + (int)choose((unsigned)n, "short"); fault("short_team"); }
    if (R) R->parallels++;
    tracef("[omp] thread %d opens a team of %d\n", f->id, n);
    hash_il(0x7000 + (u64)n);
    Team* T = new (ialloc(sizeof(Team))) Team();
    T->n = n; T->parent = f->team; T->alive = n - 1; T->fn = fn; T->data = data;
    Team* st = f->team; int stid = f->tid; u32 sws = f->wsidx;
    u32 s0 = f->strand;
    f->team = T; f->tid = 0; f->wsidx = 0;
    Task* it = new_task(me, T);
    it->level = me->level + 1; it->active = me->active + (n > 1); it->started = true;
    ivec<Fiber*> mine;
    for (int i = 1; i < n; ++i) {
        Fiber* w = new_fiber();
        w->team = T; w->tid = i; w->ofn = fn; w->odata = data;
        Task* wt = new_task(me, T);
        wt->level = it->level; wt->active = it->active; wt->started = true;
        w->cur = wt;
        w->strand = new_strand(s0);
        mine.push_back(w);
    }
    f->cur = it;
    f->strand = new_strand(s0);
    sched_point();
    fn(data);
    f = cur;
    do_barrier();
    while (T->alive > 0) block(W_JOIN, T);
    f->wait = W_NONE;
    u32 last = f->strand;
    f->team = st; f->tid = stid; f->wsidx = sws; f->cur = me;
    f->strand = last ? new_strand(last) : 0;
    // retire the fibers of this team
    for (Fiber* w : mine) { freestk->push_back(w->stk); }
    while (fibers->size() > 1 && fibers->back()->wait == W_DEAD) fibers->pop_back();
}
void run_clients(const std::vector<std::function<void()>>& fs) {
    Fiber* f = cur;
    Team* G = new (ialloc(sizeof(Team))) Team();
    G->parent = f->team; G->alive = (int)fs.size();
    u32 s0 = f->strand;
    ivec<Fiber*> mine;
    for (auto& b : fs) {
        Fiber* c = new_fiber();
        Team* T = new (ialloc(sizeof(Team))) Team();
        T->n = 1; T->parent = G;
        c->team = T; c->tid = 0;
        c->body = const_cast<std::function<void()>*>(&b);
        c->cur = new_task(nullptr, T);
        c->cur->icv = K.nthreads; c->cur->started = true;
        c->strand = new_strand(s0);
        mine.push_back(c);
    }
    f->strand = new_strand(s0);
    while (G->alive > 0) block(W_JOIN, G);
    f->wait = W_NONE;
    if (K.race) f->strand = new_strand(f->strand, &G->join);
    for (Fiber* w : mine) freestk->push_back(w->stk);
    while (fibers->size() > 1 && fibers->back()->wait == W_DEAD) fibers->pop_back();
}

// ---------------------------------------------------------------- simulated clock
static u64 clk_base = 1600000000000000ull, clk_tick = 1, clk_reads = 0;
void set_clock(u64 s, u64 t) { clk_base = s; clk_tick = t; }
u64 clock_reads() { return clk_reads; }
static u64 sim_now_us() { ++clk_reads; return clk_base + clk_reads * clk_tick + step_no; }

// =====================================================================
// access-level seam
#define acc_no acc_no_
static long acc_cd = 0;
static u64 next_pre = ~0ull; // replay: next access index with a preemption
static imap<u64, u32>::iterator* pre_it = nullptr;
static u32 hotpc[64]; static int nhot = 0;

static void arm_preempt() {
    if (g_replay) {
        auto it = g_rpre->upper_bound(acc_no);
        next_pre = it == g_rpre->end() ? ~0ull : it->first;
    } else if (K.preempt_mean > 0) {
        u64 m = (u64)K.preempt_mean;
        next_pre = acc_no + 1 + srnd() % (2 * m);
    } else next_pre = ~0ull;
}
static void __attribute__((noinline)) preempt_slow(void* pc) {
    // a preemption may only hand over to another thread
    int saved = sim_hook; sim_hook = 0;
    Fiber* me = cur; uintptr_t su = me->usp;
    me->usp = (uintptr_t)__builtin_frame_address(0);
    if (fibers->size() > 1) {
        static Fiber* cand[512];
        unsigned n = 0;
        size_t N = fibers->size();
        for (size_t k = 1; k < N; ++k) { Fiber* f = (*fibers)[((size_t)cur->id + k) % N]; if (f->wait != W_DEAD && eligible(f) && n < 512) cand[n++] = f; }
        if (n) {
            u32 v;
            if (g_replay) { auto it = g_rpre->find(acc_no); v = it == g_rpre->end() ? 0 : it->second; if (v >= n) v = n - 1; }
            else {
                v = (u32)(srnd() % n);
                if (K.sched == 3) for (int t = 0; t < 6 && cand[v]->id % 8 == g_victim; ++t) v = (u32)(srnd() % n);
            }
            if (R && R->npre < (1 << 16)) { R->pre[R->npre].acc = acc_no; R->pre[R->npre++].val = v; }
            hash_ev(acc_no); 
            tracef("[preempt] access %lu at pc 0x%lx in thread %d\n", (unsigned long)acc_no, (unsigned long)pc, cur->id);
            fault("preemption");
            step();
            switch_to(cand[v]);
        }
    }
    me->usp = su;
    sim_hook = saved;
    arm_preempt();
}
static void race_report(uintptr_t a, size_t n, bool w, u32 pc, u32 opc, bool ow) {
    if (R) {
        R->races++;
        u32 ps[2] = {pc, opc};
        for (u32 p : ps) {
            bool f = false;
            for (u32 i = 0; i < R->nracepc; ++i) f |= R->racepc[i] == p;
            if (!f && R->nracepc < 16) R->racepc[R->nracepc++] = p;
            bool h = false;
            for (int i = 0; i < nhot; ++i) h |= hotpc[i] == p;
            if (!h && nhot < 64) hotpc[nhot++] = p;
        }
    }
    extern bool g_race_is_violation;
    if (g_race_is_violation)
        violation("race", "unordered accesses to address %#lx (%zu bytes): %s at pc 0x%x [thread %d, task #%u] and %s at pc 0x%x by a logically concurrent task",
                  (unsigned long)a, n, w ? "write" : "read", pc, cur->id, cur->cur->id, ow ? "write" : "read", opc);
}
bool g_race_is_violation = false;
bool g_oob_is_violation = true;

static inline void race_access(uintptr_t a, size_t n, bool w, u32 pc) {
    u32 c = cur->strand;
    if (!c) return;
    uintptr_t e = a + n;
    for (uintptr_t g = a & ~(uintptr_t)3; g < e; g += 4) {
        Cell* k = cell_of(g);
        if (!k) return;
        u32 m = 0xf;
        if (g < a) m &= 0xfu << (a - g);
        if (g + 4 > e) m &= 0xfu >> (g + 4 - e);
        u32 wm = k->wmask_rmask & 0xf, r1m = (k->wmask_rmask >> 4) & 0xf, r2m = (k->wmask_rmask >> 8) & 0xf;
        if (k->ws >= S_FREED) {
            u32 kind = k->ws;
            k->ws = 0;
            if (g_oob_is_violation)
                violation("oob", "%s of %zu bytes at %#lx (pc 0x%x) touches %s memory", w ? "write" : "read", n, (unsigned long)a, pc, kind == S_FREED ? "freed" : "unallocated (past or before a heap block)");
            continue;
        }
        if (k->ws && k->ws != c && (wm & m) && !ordered(k->ws, c)) race_report(a, n, w, pc, k->wpc, true);
        if (w) {
            if (k->r1 && k->r1 != c && (r1m & m) && !ordered(k->r1, c)) race_report(a, n, w, pc, k->r1pc, false);
            if (k->r2 && k->r2 != c && (r2m & m) && !ordered(k->r2, c)) race_report(a, n, w, pc, k->r2pc, false);
            u32 keep = k->ws == c ? wm : 0;
            k->ws = c; k->wpc = pc; k->r1 = k->r2 = 0;
            k->wmask_rmask = m | keep;
        } else {
            if (k->r1 == c) { k->wmask_rmask |= m << 4; }
            else if (k->r2 == c) { k->wmask_rmask |= m << 8; }
            else if (!k->r1 || ordered(k->r1, c)) { k->r1 = c; k->r1pc = pc; k->wmask_rmask = (k->wmask_rmask & ~0xf0u) | m << 4; }
            else { k->r2 = c; k->r2pc = pc; k->wmask_rmask = (k->wmask_rmask & ~0xf00u) | m << 8; }
        }
    }
}
// An access to a stack below the frames that are alive there touches a local variable whose function has returned
// (or whose scope the runtime's own frames now cover): a task that outlives what it captured by reference.
static void __attribute__((noinline)) dead_frame(Fiber* f, uintptr_t a, size_t n, bool w, void* pc) {
    sim_hook = 0;
    violation("dead-stack", "%s of %zu bytes at %#lx (pc 0x%lx) [thread %d, task #%u] touches a local variable of thread %d that no longer exists",
              w ? "write" : "read", n, (unsigned long)a, (unsigned long)(uintptr_t)pc, cur->id, cur->cur->id, f->id);
}
static inline void stack_access(uintptr_t a, size_t n, bool w, void* pc) {
    if (a - (uintptr_t)ARENA >= ARENA_SIZE) return;
    Fiber* f = stkowner[(a - (uintptr_t)ARENA) >> 20];
    if (!f) return;
    if (f == cur) {
        if (a < (uintptr_t)__builtin_frame_address(0)) dead_frame(f, a, n, w, pc);
        for (auto& z : f->zones) if (a >= z.lo && a < z.hi) dead_frame(f, a, n, w, pc);
    } else {
        uintptr_t lim = f->wait == W_DEAD ? (uintptr_t)f->stktop : f->usp ? f->usp : (uintptr_t)f->sp;
        if (a < lim) dead_frame(f, a, n, w, pc);
        for (auto& z : f->zones) if (a >= z.lo && a < z.hi) dead_frame(f, a, n, w, pc);
    }
}
static inline void access(void* p, size_t n, bool w, void* pc) {
    int h = sim_hook;
    if (!h) return;
    ++acc_no;
    stack_access((uintptr_t)p, n, w, pc);
    if (h & 2) {
        if (!(h & 4)) race_access((uintptr_t)p, n, w, (u32)(uintptr_t)pc);
        if (nhot && !g_replay && (h & 1))
            for (int i = 0; i < nhot; ++i)
                if (hotpc[i] == (u32)(uintptr_t)pc && (srnd() & 1)) { next_pre = acc_no; break; }
    }
    if (acc_no >= next_pre) { if (h & 1) preempt_slow(pc); else next_pre = ~0ull; }
    if ((acc_no & 0xfffff) == 0 && acc_no > 400000000ull) violation("hang", "no completion within 4e8 memory accesses");
}
void touch(const void* p, size_t n, bool w, void* pc) { if (n) access((void*)p, n, w, pc); }
void touch2d(const void* p, size_t rows, size_t rowbytes, size_t ldbytes, bool w, void* pc) {
    if (!sim_hook) return;
    for (size_t i = 0; i < rows; ++i) touch((const char*)p + i * ldbytes, rowbytes, w, pc);
}
void blas_point() { if (g_in_op && fibers && fibers->size() > 1) { int s = sim_hook; sim_hook = 0; if (coin(30)) reschedule(true); sim_hook = s; } }
bool torn_now() { if (!g_in_op || K.preempt_mean == 0 || fibers->size() < 2) return false; return coin(K.torn_blas); }
void torn_yield() { int s = sim_hook; sim_hook = 0; fault("torn_blas"); reschedule(true); sim_hook = s; }
static void sched_point_mem() {}

} // namespace sim

// =====================================================================
// extern "C": tsan hooks
using namespace sim;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {
    if (sim::cur && (sim_hook & 2)) {
        uintptr_t a = (uintptr_t)__builtin_frame_address(0);
        if (a < sim::cur->minsp) sim::cur->minsp = a;
    }
}
void __tsan_func_exit() {}
#define RW(N) \
    void __tsan_read##N(void* p) { sim::access(p, N, false, PC); } \
    void __tsan_write##N(void* p) { sim::access(p, N, true, PC); } \
    void __tsan_unaligned_read##N(void* p) { sim::access(p, N, false, PC); } \
    void __tsan_unaligned_write##N(void* p) { sim::access(p, N, true, PC); } \
    void __tsan_read##N##_pc(void* p, void* q) { sim::access(p, N, false, q); } \
    void __tsan_write##N##_pc(void* p, void* q) { sim::access(p, N, true, q); } \
    void __tsan_volatile_read##N(void* p) { sim::access(p, N, false, PC); } \
    void __tsan_volatile_write##N(void* p) { sim::access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { if (n) sim::access(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { if (n) sim::access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) sim::access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { sim::access(p, 8, false, PC); }
} // extern C

namespace sim {
// release/acquire edges through atomics
static imap<void*, Bits*>* atomics;
static void atomic_sync(void* a) {
    if (!(sim_hook & 2) || !K.race || !cur) return;
    Bits*& b = (*atomics)[a];
    if (!b) b = new (ialloc(sizeof(Bits))) Bits();
    strand_bits(*b, cur->strand);
    cur->strand = new_strand(cur->strand, b);
    // own later accesses must not be released retroactively: a fresh strand was made
}
static void atomic_point(void* a) {
    if (!sim_hook) return;
    ++acc_no;
    if (acc_no >= next_pre && (sim_hook & 1)) preempt_slow(nullptr);
    atomic_sync(a);
}
} // namespace sim
extern "C" {
#define AT(B, T) \
    T __tsan_atomic##B##_load(const volatile T* a, int) { sim::atomic_point((void*)a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##B##_store(volatile T* a, T v, int) { sim::atomic_point((void*)a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { sim::atomic_point((void*)a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { sim::atomic_point((void*)a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { sim::atomic_point((void*)a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { sim::atomic_point((void*)a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { sim::atomic_point((void*)a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { sim::atomic_point((void*)a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { sim::atomic_point((void*)a); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { sim::atomic_point((void*)a); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) { sim::atomic_point((void*)a); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// function-local statics
int __cxa_guard_acquire(uint64_t* g) {
    u8* b = (u8*)g;
    if (b[0]) { if (sim::cur) sim::atomic_sync(g); return 0; }
    while (b[1]) {
        if (!sim::cur || sim::fibers->size() < 2) violation("deadlock", "recursive initialisation of a local static");
        int s = sim_hook; sim_hook = 0;
        block(W_GUARD, g);
        sim::cur->wait = W_NONE;
        sim_hook = s;
        if (b[0]) { sim::atomic_sync(g); return 0; }
    }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(uint64_t* g) { u8* b = (u8*)g; b[0] = 1; b[1] = 0; if (sim::cur) sim::atomic_sync(g); }
void __cxa_guard_abort(uint64_t* g) { u8* b = (u8*)g; b[1] = 0; }
}
namespace sim { static bool guard_free(void* g) { return ((u8*)g)[1] == 0; } }

// =====================================================================
// extern "C": simulated libgomp
struct HookOff { int s; HookOff() : s(sim_hook) { sim_hook = 0; } ~HookOff() { sim_hook = s; } };
// While a fiber is inside the runtime its hooks are off; sim_hook is re-derived on exit.
static int hook_now() { return sim::g_in_op ? ((K.preempt_mean > 0 ? 1 : 0) | (K.race ? 2 : 0)) : 0; }
struct Rt { // runtime entry/exit
    Fiber* f; uintptr_t u;
    __attribute__((always_inline)) Rt() { sim_hook = 0; f = sim::cur; u = 0; if (f) { u = f->usp; f->usp = (uintptr_t)__builtin_frame_address(0) + 16; } }
    ~Rt() { if (f) f->usp = u; sim_hook = hook_now(); }
};
struct User { // the program is called back from the runtime
    Fiber* f; uintptr_t u;
    __attribute__((always_inline)) User() {
        f = sim::cur; u = f->usp;
        if (u) f->zones.push_back(Fiber::Zone{(uintptr_t)__builtin_frame_address(0), u});
        f->usp = 0; sim_hook = hook_now();
    }
    ~User() { sim_hook = 0; f->usp = u; if (u) f->zones.pop_back(); }
};
static void call_user(void (*fn)(void*), void* a) { fn(a); }

extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) {
    Rt rt;
    struct L { static void go(void* v) { void** p = (void**)v; User u; ((void (*)(void*))p[0])(p[1]); } };
    void* p[2] = {(void*)fn, data};
    do_parallel(&L::go, p, nt);
}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long asz, long aal, bool if_clause, unsigned flags, void** depend, int, void*) {
    Rt rt;
    Fiber* f = sim::cur;
    Task* me = f->cur;
    Team* T = f->team;
    if (R) R->tasks++;
    step();
    Task* t = new_task(me, T);
    size_t al = (size_t)(aal > 0 ? aal : 16);
    char* raw = (char*)ialloc((size_t)asz + al + 64);
    char* arg = (char*)(((uintptr_t)raw + al - 1) / al * al);
    if (cpy) { User u; cpy(arg, data); }
    else memcpy(arg, data, (size_t)asz);
    f = sim::cur;
    struct W { void (*fn)(void*); void* a; static void go(void* v) { W* w = (W*)v; User u; w->fn(w->a); } };
    W* w = (W*)ialloc(sizeof(W));
    w->fn = fn; w->a = arg;
    t->fn = &W::go; t->arg = w;
    t->cstrand = f->strand;
    f->strand = new_strand(f->strand);
    me->children++;
    T->outstanding++;
    hash_ev(0x5000);
    tracef("[task] #%u created by task #%u on thread %d (fn pc 0x%lx)\n", t->id, me->id, f->id, (unsigned long)fn);
    if ((flags & 8) && depend) {
        enum { D_IN = 1, D_OUT = 2, D_SET = 5 }; // mutexinoutset is treated as inout, as libgomp does
        size_t nd, nout, nin; void** ad;
        if (depend[0]) { nd = (size_t)depend[0]; nout = (size_t)depend[1]; nin = nd - nout; ad = depend + 2; }
        else { nd = (size_t)depend[1]; nout = (size_t)depend[2] + (size_t)depend[3]; nin = (size_t)depend[4]; ad = depend + 5; }
        if (!me->deps) me->deps = new (ialloc(sizeof(imap<void*, Task::DepInfo>))) imap<void*, Task::DepInfo>();
        auto dep_on = [&](Task* o) { if (!o || o == t) return; if (o->done) { if (K.race) t->pre.add(o->fin); } else { o->succ.push_back(t); t->ndeps++; } };
        for (size_t i = 0; i < nd; ++i) {
            void* addr = ad[i];
            int kind = i < nout ? D_OUT : D_IN;
            if (i >= nout + nin) { void** o = (void**)ad[i]; addr = o[0]; size_t k = (size_t)o[1]; kind = k == 1 ? D_IN : k == 5 ? D_SET : D_OUT; }
            Task::DepInfo& d = (*me->deps)[addr];
            if (kind == D_OUT || kind != d.kind) { d.prev = d.last; d.last.clear(); d.kind = kind; }
            for (Task* r : d.prev) dep_on(r);
            d.last.push_back(t);
        }
        if (t->ndeps) probe("task_with_pending_dependence");
    }
    bool now = !if_clause || (flags & 2) || (T->n == 1 && T->parent == nullptr) || (t->ndeps == 0 && coin(K.undeferred));
    if (now) {
        while (t->ndeps > 0) {
            f->wait = W_DEPS; f->waitobj = t;
            Task* n = has_task(f) ? pick_task(f) : nullptr;
            if (n) { run_task(n); continue; }
            reschedule(true);
        }
        f->wait = W_NONE;
        fault("undeferred_task");
        for (size_t i = 0; i < T->ready.size(); ++i) if (T->ready[i] == t) { T->ready.erase(T->ready.begin() + (long)i); break; }
        run_task(t);
        if (!if_clause || (flags & 2)) { if (K.race) sim::cur->strand = new_strand(sim::cur->strand, &t->fin); }
    } else {
        if (t->ndeps == 0) T->ready.push_back(t);
        sched_point();
    }
}
void GOMP_taskwait() { Rt rt; do_taskwait(); }
void GOMP_taskyield() { Rt rt; sched_point(); }
void GOMP_barrier() { Rt rt; do_barrier(); }
static WS* get_ws() {
    Fiber* f = sim::cur; Team* T = f->team;
    while (T->ws.size() <= f->wsidx) T->ws.push_back(new (ialloc(sizeof(WS))) WS());
    return T->ws[f->wsidx++];
}
bool GOMP_single_start() {
    Rt rt; sched_point();
    WS* w = get_ws();
    if (w->claimed) return false;
    w->claimed = true;
    return true;
}
void* GOMP_single_copy_start() {
    Rt rt; WS* w = get_ws();
    if (!w->claimed) { w->claimed = true; return nullptr; }
    do_barrier(); return w->copy;
}
void GOMP_single_copy_end(void* d) { Rt rt; Fiber* f = sim::cur; f->team->ws[f->wsidx - 1]->copy = d; do_barrier(); }
typedef unsigned long long ull;
static bool loop_next(ull* is, ull* ie) {
    Fiber* f = sim::cur;
    sched_point();
    WS* w = f->team->ws[f->wsidx - 1];
    ull total = w->end; // iterations remaining are counted in [next,end) of iteration numbers
    ull lo, hi;
    if (w->sched == 2) { // static blocks per thread
        if (w->sdone.size() < (size_t)f->team->n) w->sdone.resize((size_t)f->team->n);
        if (w->sdone[(size_t)f->tid]) return false;
        w->sdone[(size_t)f->tid] = 1;
        ull n = (ull)f->team->n, q = total / n, r = total % n, t = (ull)f->tid;
        lo = t * q + std::min(t, r); hi = lo + q + (t < r);
        if (lo == hi) return false;
    } else {
        if (w->next >= total) return false;
        ull left = total - w->next;
        ull c = w->sched == 1 ? std::max<ull>(1, left / (2 * (ull)f->team->n)) : 1 + choose((unsigned)std::min<ull>(left, 4), "chunk");
        if (c > left) c = left;
        lo = w->next; hi = lo + c; w->next = hi;
    }
    hash_il(lo * 131 + (u64)f->tid);
    *is = lo; *ie = hi;
    return true;
}
static ull ws_start_[2];
struct LoopInfo { ull start, incr; bool up; };
static imap<WS*, LoopInfo>* loopinfo;
static bool loop_start(bool up, ull start, ull end, ull incr, bool first) {
    WS* w = get_ws();
    if (!w->init) {
        w->init = true;
        ull n;
        if (up) n = end > start ? (end - start + incr - 1) / incr : 0;
        else { ull d = (ull)(-(long long)incr); n = start > end ? (start - end + d - 1) / d : 0; }
        w->end = n; w->next = 0; w->up = up;
        w->sched = sim::g_in_op ? (int)choose(3, "omp_schedule") : 2;
        w->incr = incr;
        if (!loopinfo) loopinfo = new (ialloc(sizeof(*loopinfo))) imap<WS*, LoopInfo>();
        (*loopinfo)[w] = LoopInfo{start, incr, up};
    }
    (void)first;
    return true;
}
static bool loop_next_conv(ull* is, ull* ie) {
    ull a, b;
    if (!loop_next(&a, &b)) return false;
    WS* w = sim::cur->team->ws[sim::cur->wsidx - 1];
    LoopInfo& l = (*loopinfo)[w];
    *is = l.start + a * l.incr; *ie = l.start + b * l.incr;
    return true;
}
#define LOOPS(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long* a, long* b) { Rt rt; \
    WS* w0; (void)w0; if (i > 0) { loop_start(true, (ull)s, e > s ? (ull)e : (ull)s, (ull)i, true); } else loop_start(false, (ull)s, s > e ? (ull)e : (ull)s, (ull)i, true); \
    return loop_next_conv((ull*)a, (ull*)b); } \
bool GOMP_loop_##NAME##_next(long* a, long* b) { Rt rt; return loop_next_conv((ull*)a, (ull*)b); } \
bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull* a, ull* b) { Rt rt; loop_start(up, s, e, i, true); return loop_next_conv(a, b); } \
bool GOMP_loop_ull_##NAME##_next(ull* a, ull* b) { Rt rt; return loop_next_conv(a, b); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* data, unsigned nt, long s, long e, long i, unsigned) { \
    Rt rt; struct L { void (*fn)(void*); void* d; long s, e, i; static void go(void* v) { L* l = (L*)v; \
        if (l->i > 0) loop_start(true, (ull)l->s, l->e > l->s ? (ull)l->e : (ull)l->s, (ull)l->i, true); else loop_start(false, (ull)l->s, l->s > l->e ? (ull)l->e : (ull)l->s, (ull)l->i, true); \
        User u; l->fn(l->d); } }; \
    L l{fn, data, s, e, i}; do_parallel(&L::go, &l, nt); }
LOOPS(runtime) LOOPS(nonmonotonic_runtime) LOOPS(maybe_nonmonotonic_runtime)
#define LOOPC(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* a, long* b) { (void)c; Rt rt; if (i > 0) loop_start(true, (ull)s, e > s ? (ull)e : (ull)s, (ull)i, true); else loop_start(false, (ull)s, s > e ? (ull)e : (ull)s, (ull)i, true); return loop_next_conv((ull*)a, (ull*)b); } \
bool GOMP_loop_##NAME##_next(long* a, long* b) { Rt rt; return loop_next_conv((ull*)a, (ull*)b); } \
bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { (void)c; Rt rt; loop_start(up, s, e, i, true); return loop_next_conv(a, b); } \
bool GOMP_loop_ull_##NAME##_next(ull* a, ull* b) { Rt rt; return loop_next_conv(a, b); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* data, unsigned nt, long s, long e, long i, long c, unsigned fl) { (void)c; GOMP_parallel_loop_runtime(fn, data, nt, s, e, i, fl); }
LOOPC(dynamic) LOOPC(guided) LOOPC(nonmonotonic_dynamic) LOOPC(nonmonotonic_guided) LOOPC(static)
void GOMP_loop_end() { Rt rt; do_barrier(); }
void GOMP_loop_end_nowait() {}
static Lock* get_lock(void* a) {
    Lock*& l = (*locks)[a];
    if (!l) l = new (ialloc(sizeof(Lock))) Lock();
    return l;
}
static void lock_acq(void* a) {
    Lock* l = get_lock(a);
    sched_point();
    while (l->owner >= 0) { block(W_LOCK, l); }
    sim::cur->wait = W_NONE;
    l->owner = sim::cur->id;
    if (K.race) sim::cur->strand = new_strand(sim::cur->strand, &l->rel);
}
static void lock_rel(void* a) {
    Lock* l = get_lock(a);
    l->owner = -1;
    strand_bits(l->rel, sim::cur->strand);
    if (K.race) sim::cur->strand = new_strand(sim::cur->strand);
    sched_point();
}
static int crit_default, atomic_default;
void GOMP_critical_start() { Rt rt; lock_acq(&crit_default); }
void GOMP_critical_end() { Rt rt; lock_rel(&crit_default); }
void GOMP_critical_name_start(void** p) { Rt rt; lock_acq(p); }
void GOMP_critical_name_end(void** p) { Rt rt; lock_rel(p); }
void GOMP_atomic_start() { Rt rt; lock_acq(&atomic_default); }
void GOMP_atomic_end() { Rt rt; lock_rel(&atomic_default); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() { Rt rt; do_taskwait(); }
void GOMP_ordered_start() {}
void GOMP_ordered_end() {}
void omp_init_lock(void**) {}
void omp_destroy_lock(void**) {}
void omp_set_lock(void** p) { Rt rt; lock_acq(p); }
void omp_unset_lock(void** p) { Rt rt; lock_rel(p); }
int omp_test_lock(void** p) { Rt rt; Lock* l = get_lock(p); if (l->owner >= 0) return 0; lock_acq(p); return 1; }
int omp_get_thread_num() { return sim::cur ? sim::cur->tid : 0; }
int omp_get_num_threads() { return sim::cur ? sim::cur->team->n : 1; }
int omp_get_max_threads() { return sim::cur ? sim::cur->cur->icv : 1; }
void omp_set_num_threads(int n) { if (sim::cur) sim::cur->cur->icv = n > 0 ? n : 1; }
int omp_get_num_procs() { return K.nthreads; }
int omp_in_parallel() { return sim::cur ? sim::cur->cur->active > 0 : 0; }
int omp_get_level() { return sim::cur ? sim::cur->cur->level : 0; }
int omp_get_active_level() { return sim::cur ? sim::cur->cur->active : 0; }
int omp_get_dynamic() { return 1; }
void omp_set_dynamic(int) {}
int omp_get_nested() { return K.max_levels > 1; }
void omp_set_nested(int) {}
void omp_set_max_active_levels(int n) { K.max_levels = n; }
int omp_get_max_active_levels() { return K.max_levels; }
int omp_get_thread_limit() { return 64; }
double omp_get_wtime() { return (double)sim_now_us() * 1e-6; }
double omp_get_wtick() { return 1e-6; }

// =====================================================================
// heap seam entry points
void* malloc(size_t n) { return heap_alloc(n, 16, false, __builtin_return_address(0)); }
void free(void* p) { heap_free(p); }
void* calloc(size_t a, size_t b) {
    if (b && a > (size_t)-1 / b) return nullptr;
    void* p = heap_alloc(a * b, 16);
    if (p) memset(p, 0, a * b);
    return p;
}
void* realloc(void* p, size_t n) {
    if (!p) return malloc(n);
    if (!n) { heap_free(p); return nullptr; }
    void* q = heap_alloc(n, 16);
    if (!q) return nullptr;
    memcpy(q, p, std::min<size_t>(n, ((sim::Hdr*)p - 1)->size));
    heap_free(p);
    return q;
}
int posix_memalign(void** r, size_t a, size_t n) {
    void* p = heap_alloc(n, a, false, __builtin_return_address(0));
    if (!p) return ENOMEM;
    *r = p;
    return 0;
}
void* aligned_alloc(size_t a, size_t n) { return heap_alloc(n, a); }
void* memalign(size_t a, size_t n) { return heap_alloc(n, a); }
void* valloc(size_t n) { return heap_alloc(n, 4096); }
void* pvalloc(size_t n) { return heap_alloc(n, 4096); }
size_t malloc_usable_size(void* p) { return p ? ((sim::Hdr*)p - 1)->size : 0; }
void cfree(void* p) { heap_free(p); }
} // extern C
void* operator new(size_t n) { void* p = heap_alloc(n, 16, false, __builtin_return_address(0)); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = heap_alloc(n, 16, false, __builtin_return_address(0)); if (!p) throw std::bad_alloc(); return p; }
extern "C" {

// =====================================================================
// clock seam
int gettimeofday(struct timeval* tv, void*) { u64 t = sim_now_us(); tv->tv_sec = (time_t)(t / 1000000); tv->tv_usec = (suseconds_t)(t % 1000000); return 0; }
time_t time(time_t* p) { time_t t = (time_t)(sim_now_us() / 1000000); if (p) *p = t; return t; }
int clock_gettime(clockid_t, struct timespec* ts) { u64 t = sim_now_us(); ts->tv_sec = (time_t)(t / 1000000); ts->tv_nsec = (long)(t % 1000000) * 1000; return 0; }
int timespec_get(struct timespec* ts, int b) { clock_gettime(0, ts); return b; }
clock_t clock() { return (clock_t)sim_now_us(); }
int getrusage(__rusage_who_t, struct rusage* r) {
    memset(r, 0, sizeof *r);
    u64 t = sim_now_us();
    r->ru_utime.tv_sec = (time_t)(t / 1000000); r->ru_utime.tv_usec = (suseconds_t)(t % 1000000);
    return 0;
}
} // extern C

// =====================================================================
// I/O seam: files below the run's scratch directory only
namespace sim {
IoPlan IO;
static char scratch_dir[256] = "/tmp/verif-sim";
static bool fdtrack[1024];
std::string scratch(const char* n) { return std::string(scratch_dir) + "/" + n; }
static bool in_scratch(const char* p) { return !strncmp(p, scratch_dir, strlen(scratch_dir)); }
static void io_opened(int fd, const char* path) { if (fd >= 0 && fd < 1024) fdtrack[fd] = in_scratch(path); }
static bool tracked(int fd) { return IO.active && fd >= 0 && fd < 1024 && fdtrack[fd]; }
static ssize_t do_read(int fd, void* b, size_t n) {
    if (tracked(fd)) {
        IO.reads++;
        if (coin(IO.eintr_pct)) { fault("eintr_read"); errno = EINTR; return -1; }
        if (IO.fail_read_at >= 0 && IO.rbytes + (long)n > IO.fail_read_at) {
            long left = IO.fail_read_at - IO.rbytes;
            if (left <= 0) { IO.fired = true; fault("read_error"); tracef("[io] read error %d\n", IO.err); errno = IO.err; return -1; }
            n = (size_t)left;
        }
        if (n > 1 && coin(IO.short_read_pct)) { size_t m = 1 + choose((unsigned)std::min<size_t>(n, 64), "short_read"); if (m < n) { n = m; fault("short_read"); } }
        ssize_t r = raw_read(fd, b, n);
        if (r > 0) IO.rbytes += r;
        return r;
    }
    return raw_read(fd, b, n);
}
static ssize_t do_write(int fd, const void* b, size_t n) {
    if (tracked(fd)) {
        IO.writes++;
        if (coin(IO.eintr_pct)) { fault("eintr_write"); errno = EINTR; return -1; }
        if (IO.fail_write_at >= 0 && IO.wbytes + (long)n > IO.fail_write_at) {
            long left = IO.fail_write_at - IO.wbytes;
            if (left <= 0) { IO.fired = true; fault(IO.err == ENOSPC ? "disk_full" : "write_error"); tracef("[io] write error %d\n", IO.err); errno = IO.err; return -1; }
            n = (size_t)left;
        }
        if (n > 1 && coin(IO.short_write_pct)) { size_t m = 1 + choose((unsigned)std::min<size_t>(n, 64), "short_write"); if (m < n) { n = m; fault("short_write"); } }
        ssize_t r = raw_write(fd, b, n);
        if (r > 0) IO.wbytes += r;
        return r;
    }
    return raw_write(fd, b, n);
}
static int do_open(const char* p, int fl, mode_t m) {
    if (IO.active && in_scratch(p)) {
        if (IO.fail_open_at >= 0 && (long)IO.opens++ == IO.fail_open_at) { IO.fired = true; fault("open_error"); errno = EACCES; return -1; }
    }
    int fd = (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
    io_opened(fd, p);
    return fd;
}
} // namespace sim
extern "C" {
ssize_t read(int fd, void* b, size_t n) { return sim::do_read(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { return sim::do_write(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) {
    ssize_t tot = 0;
    for (int i = 0; i < c; ++i) {
        if (!v[i].iov_len) continue;
        ssize_t r = sim::do_write(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return tot ? tot : -1;
        tot += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return tot;
}
int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = (fl & O_CREAT) ? (mode_t)va_arg(a, int) : 0; va_end(a); return sim::do_open(p, fl, m); }
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = (fl & O_CREAT) ? (mode_t)va_arg(a, int) : 0; va_end(a); return sim::do_open(p, fl | O_LARGEFILE, m); }
// libstdc++ opens through fopen: provide the descriptor tracking by wrapping it
typedef FILE* (*fopen_t)(const char*, const char*);
static FILE* fopen_common(const char* p, const char* m, const char* sym) {
    static fopen_t real[2];
    fopen_t& r = real[sym[5] == '6'];
    if (!r) r = (fopen_t)dlsym(RTLD_NEXT, sym);
    if (sim::IO.active && sim::in_scratch(p) && sim::IO.fail_open_at >= 0 && (long)sim::IO.opens++ == sim::IO.fail_open_at) {
        sim::IO.fired = true; fault("open_error"); errno = EACCES; return nullptr;
    }
    FILE* f = r(p, m);
    if (f) sim::io_opened(fileno(f), p);
    return f;
}
FILE* fopen(const char* p, const char* m) { return fopen_common(p, m, "fopen"); }
FILE* fopen64(const char* p, const char* m) { return fopen_common(p, m, "fopen64"); }
}

// =====================================================================
// knobs, sections
namespace sim {
static bool g_entered = false;
static int g_force_race = -1, g_force_preempt = -1;
void enter(const char* mode) {
    bool par = strstr(mode, "par") != nullptr;
    const char* mf = g_mode_filter;
    bool allow_race = strstr(mf, "norace") == nullptr;
    bool only_race = strstr(mf, "race-always") != nullptr;
    K.poison = (int)P("k.poison", 0, 6);
    K.reuse = (int)P("k.reuse", 0, 1);
    if (par) {
        K.nthreads = (int)Pick("k.threads", {1, 2, 3, 4, 5, 6, 7, 8, 11});
        K.max_levels = (int)Pick("k.levels", {1, 1, 1, 2, 3});
        K.sched = (int)P("k.sched", 0, 5);
        g_taskpick = (int)P("k.taskpick", 0, 2);
        K.undeferred = (int)Pick("k.undeferred", {0, 0, 5, 30, 100});
        K.short_team = (int)Pick("k.short_team", {0, 0, 30});
        K.torn_blas = (int)Pick("k.torn", {0, 20, 60});
        int m = (int)P("k.mode", 0, 3); // 0 task-level, 1 preemptive, 2 race+preempt, 3 race
        if (only_race) m = 2 + (m & 1);
        K.preempt_mean = (m == 1 || m == 2) ? (int)Pick("k.preempt", {50, 500, 5000, 50000}) : 0;
        K.race = allow_race && m >= 2;
    } else {
        K.nthreads = 1; K.race = allow_race && (only_race || Pbool("k.seqshadow", 40));
    }
    set_clock(1000000ull * (u64)P("k.clock", 1000000000L, 1999999999L) + (u64)P("k.clock_us", 0, 999999), (u64)Pick("k.tick", {0, 1, 1, 1000, 1000000}));
    rootf->cur->icv = K.nthreads;
    g_shadow = K.race;
    if (K.race) {
        mmap(SHADOW, ARENA_SIZE / 4 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
        mmap(GSHADOW, (1ull << 32) / 4 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
        strands->clear();
        strands->push_back(nullptr);
        rootf->strand = new_strand(0);
    }
    if (strstr(mf, "allocfail")) {
        g_fail_stop_ok = true;
        long b = Pick("k.failscale", {1, 2, 4, 8, 16, 40, 120, 400});
        heap_fail_at((u64)P("k.failat", 1, b));
        heap_fail_sticky(Pbool("k.failsticky", 40));
    }
    arm_preempt();
    g_entered = true;
}
void start() { g_in_op = true; sim_hook = hook_now(); }
void stop() { sim_hook = 0; g_in_op = false; }

static Workload* wl_head = nullptr;
Reg::Reg(const char* n, WorkFn f) { w.name = n; w.fn = f; w.next = wl_head; wl_head = &w; }

// =====================================================================
// driver
static void on_crash(int sig, siginfo_t* si, void* uc) {
    void* pc = (void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
    const char* c = sig == SIGSEGV || sig == SIGBUS ? "crash" : sig == SIGFPE ? "crash" : sig == SIGABRT ? "abort" : sig == SIGILL ? "crash" : "hang";
    if (g_fail_stop_ok && fail_fired_ && (sig == SIGABRT || (sig == SIGSEGV && (uintptr_t)si->si_addr < (64u << 20)))) {
        // an allocation failed and the process stopped: on the null pointer or by an uncaught exception
        sim_hook = 0; g_in_op = false;
        heap_check("failed allocation");
        probe(sig == SIGABRT ? "stopped by abort" : "stopped on the null pointer");
        finish(ST_OK, "fail-stop");
    }
    if (R) {
        bool stackov = cur && (char*)si->si_addr >= cur->stk && (char*)si->si_addr < cur->stk + 4096;
        snprintf(R->msg, sizeof R->msg, "signal %d at pc %p, address %p%s", sig, pc, sig == SIGSEGV ? si->si_addr : nullptr, stackov ? " (stack overflow)" : "");
    }
    finish(ST_VIOLATION, c);
}
static void on_hang(int, siginfo_t*, void* uc) {
    void* pc = (void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
    if (R) snprintf(R->msg, sizeof R->msg, "no completion within the CPU budget of the run (pc %p)", pc);
    g_hash = 0x68616e67; // the instant of the watchdog is not part of the history
    g_ihash = 0;
    finish(ST_VIOLATION, "hang");
}
static WorkFn g_fn;
static int g_cpu_cap = 10;
static char* g_sigstk;

static void child_main(WorkFn fn, u64 seed) {
    g_seed = seed;
    g_schedrng = mix(seed, 0x5eed);
    g_hash = g_ihash = 1469598103934665603ull;
    // deterministic heap zone for the run
    for (int i = 0; i < NBIN; ++i) bins[i] = nullptr;
    abump = ARENA + (256ull << 20);
    g_run_first_id = next_id = 1000000;
    op_allocs = 0;
    live_head = nullptr;
    ibump = IARENA + (256ull << 20);
    g_run_heap = true;
    K = Knobs();
    fibers = new (ialloc(sizeof(*fibers))) ivec<Fiber*>();
    freestk = new (ialloc(sizeof(*freestk))) ivec<char*>();
    strands = new (ialloc(sizeof(*strands))) ivec<Bits*>();
    strands->push_back(nullptr);
    locks = new (ialloc(sizeof(*locks))) imap<void*, Lock*>();
    atomics = new (ialloc(sizeof(*atomics))) imap<void*, Bits*>();
    if (!g_rlog) g_rlog = new (ialloc(sizeof(*g_rlog))) imap<u32, u32>();
    if (!g_rpre) g_rpre = new (ialloc(sizeof(*g_rpre))) imap<u64, u32>();
    stack_t ss; memset(&ss, 0, sizeof ss);
    ss.ss_sp = g_sigstk; ss.ss_size = 65536;
    sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sa.sa_sigaction = on_crash;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
    sa.sa_sigaction = on_hang;
    sigaction(SIGPROF, &sa, nullptr);
    struct itimerval it; memset(&it, 0, sizeof it);
    it.it_value.tv_sec = g_cpu_cap;
    setitimer(ITIMER_PROF, &it, nullptr);
    alarm(600);

    static Fiber os; // the process' original stack
    os.id = -1;
    if (tls_size) { os.tls = (char*)ialloc(tls_size); }
    rootf = new_fiber();
    Team* T = new (ialloc(sizeof(Team))) Team();
    rootf->team = T;
    rootf->cur = new_task(nullptr, T);
    rootf->cur->started = true;
    static std::function<void()> body;
    g_fn = fn;
    struct B { static void go(void*) {
        g_fn();
        sim_hook = 0; g_in_op = false;
        heap_check("end of run");
        if (g_leak_is_violation) leak_check();
        finish(ST_OK, "ok");
    } };
    rootf->ofn = &B::go;
    cur = &os;
    switch_to(rootf);
}

static u64 run_child(WorkFn fn, u64 seed, bool trace, FILE*) {
    R->state = 0; R->status = 0; R->expect_exit = 0; R->cls[0] = R->msg[0] = 0;
    R->nlog = R->npre = R->npar = R->ncnt = R->tracelen = R->nracepc = 0;
    R->steps = R->accesses = R->switches = R->tasks = R->parallels = R->races = R->clock_us = R->hash = R->ihash = 0;
    u64 t0 = real_now_us();
    fflush(nullptr);   // the child must not flush inherited buffers a second time
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        g_trace = trace;
        if (trace) { /* keep stdout */ }
        int dn = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY, 0);
        syscall(SYS_dup2, dn, 1);
        syscall(SYS_dup2, dn, 2);
        child_main(fn, seed);
        _exit(99);
    }
    int st = 0;
    // wall watchdog (blocked child): generous, deterministic outcome is the CPU cap
    for (;;) {
        pid_t r = waitpid(pid, &st, 0);
        if (r == pid || (r < 0 && errno != EINTR)) break;
    }
    if (R->state != 1) {
        R->status = ST_VIOLATION;
        if (WIFSIGNALED(st)) { snprintf(R->cls, sizeof R->cls, "killed"); snprintf(R->msg, sizeof R->msg, "run ended by signal %d", WTERMSIG(st)); }
        else if (R->expect_exit && WEXITSTATUS(st)) { R->status = ST_OK; snprintf(R->cls, sizeof R->cls, "exit"); }
        else { snprintf(R->cls, sizeof R->cls, "exit"); snprintf(R->msg, sizeof R->msg, "code under test ended the process with status %d", WEXITSTATUS(st)); }
        R->hash = 1; R->ihash = 1;
    }
    return real_now_us() - t0;
}
static void jstr(FILE* o, const char* s) {
    fputc('"', o);
    for (; *s; ++s) {
        if (*s == '"' || *s == '\\') { fputc('\\', o); fputc(*s, o); }
        else if (*s == '\n') fputs("\\n", o);
        else if ((u8)*s < 32) fputc(' ', o);
        else fputc(*s, o);
    }
    fputc('"', o);
}
static void write_replay(const char* path, const char* wl, u64 seed) {
    FILE* o = fopen(path, "w");
    if (!o) return;
    fprintf(o, "workload %s\nseed %lu\nfilter %s\nclass %s\nhash %016lx\n", wl, (unsigned long)seed, *g_mode_filter ? g_mode_filter : "-", R->cls, (unsigned long)R->hash);
    fprintf(o, "raceviol %d\nleakviol %d\n", (int)g_race_is_violation, (int)g_leak_is_violation);
    for (u32 i = 0; i < R->npar; ++i) fprintf(o, "param %s %ld %ld %ld\n", R->par[i].name, R->par[i].val, R->par[i].lo, R->par[i].hi);
    for (u32 i = 0; i < R->nlog; ++i) fprintf(o, "choice %u %u\n", R->log[i].idx, R->log[i].val);
    for (u32 i = 0; i < R->npre; ++i) fprintf(o, "preempt %lu %u\n", (unsigned long)R->pre[i].acc, R->pre[i].val);
    fclose(o);
}
static void print_result(FILE* o, const char* wl, u64 seed, const char* extra) {
    fprintf(o, "{\"status\":%d,\"workload\":\"%s\",\"seed\":%lu,\"class\":\"%s\",\"hash\":\"%016lx\",\"msg\":", R->status, wl, (unsigned long)seed, R->cls, (unsigned long)R->hash);
    jstr(o, R->msg);
    fprintf(o, ",\"races\":%lu,\"nchoices\":%u,\"npreempt\":%u,\"params\":{", (unsigned long)R->races, R->nlog, R->npre);
    for (u32 i = 0; i < R->npar; ++i) fprintf(o, "%s\"%s\":%ld", i ? "," : "", R->par[i].name, R->par[i].val);
    fprintf(o, "}%s}\n", extra);
    fflush(o);
}
} // namespace sim

static sim::Workload* find_wl(const char* n) { for (sim::Workload* w = sim::wl_head; w; w = w->next) if (!strcmp(w->name, n)) return w; return nullptr; }

static std::vector<std::string> split(const std::string& s, char c) {
    std::vector<std::string> r; std::string t;
    for (char x : s) { if (x == c) { r.push_back(t); t.clear(); } else t += x; }
    if (t.size()) r.push_back(t);
    return r;
}

int main(int argc, char** argv) {
    // fixed address space layout
    int pers = personality(0xffffffff);
    if (!(pers & ADDR_NO_RANDOMIZE) && !getenv("VERIF_SIM_REEXEC")) {
        setenv("VERIF_SIM_REEXEC", "1", 1);
        setenv("OPENBLAS_NUM_THREADS", "1", 1);
        if (personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1 || true) { execv("/proc/self/exe", argv); }
    }
    std::string cmd = argc > 1 ? argv[1] : "";
    std::map<std::string, std::string> opt;
    for (int i = 2; i < argc; ++i) {
        std::string a = argv[i];
        if (a.substr(0, 2) == "--" && i + 1 < argc) opt[a.substr(2)] = argv[++i];
        else opt["file"] = a;
    }
    (void)ialloc(16);
    arena_init();
    dl_iterate_phdr(tls_cb, nullptr);
    if (tls_size) { tls_init_img = (char*)ialloc(tls_size); memcpy(tls_init_img, tls_base, tls_size); }
    R = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_sigstk = (char*)mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    (void)abi::__cxa_get_globals();
    snprintf(scratch_dir, sizeof scratch_dir, "/tmp/verif-sim-%d", (int)getpid());
    mkdir(scratch_dir, 0700);
    struct Rm { ~Rm() { std::string c = std::string("rm -rf ") + scratch_dir; if (strlen(scratch_dir) > 12 && system(c.c_str())) {} } } rm;
    if (opt.count("cpu")) g_cpu_cap = atoi(opt["cpu"].c_str());
    std::string filt = opt.count("filter") ? opt["filter"] : "";
    g_mode_filter = strdup(filt.c_str());
    g_race_is_violation = opt.count("raceviol") && opt["raceviol"] == "1";
    g_leak_is_violation = opt.count("leakviol") && opt["leakviol"] == "1";

    if (cmd == "list") {
        for (sim::Workload* w = wl_head; w; w = w->next) printf("%s\n", w->name);
        return 0;
    }
    if (cmd == "replay") {
        FILE* f = fopen(opt["file"].c_str(), "r");
        if (!f) { fprintf(stderr, "cannot open replay file\n"); return 2; }
        char line[512], wl[128] = ""; unsigned long seed = 0;
        g_replay = true;
        g_rlog = new (ialloc(sizeof(*g_rlog))) imap<u32, u32>();
        g_rpre = new (ialloc(sizeof(*g_rpre))) imap<u64, u32>();
        g_rpar = new (ialloc(sizeof(*g_rpar))) imap<istr, long>();
        bool byseed = false; // let the seeded scheduler decide again instead of the recorded choices
        static char fbuf[128] = "";
        while (fgets(line, sizeof line, f)) {
            char a[128]; long x, y; unsigned long ux;
            if (sscanf(line, "workload %127s", wl) == 1) continue;
            if (sscanf(line, "seed %lu", &seed) == 1) continue;
            if (!strncmp(line, "byseed", 6)) { byseed = true; continue; }
            if (sscanf(line, "filter %127s", fbuf) == 1) { if (!strcmp(fbuf, "-")) fbuf[0] = 0; continue; }
            if (sscanf(line, "raceviol %ld", &x) == 1) { g_race_is_violation = x; continue; }
            if (sscanf(line, "leakviol %ld", &x) == 1) { g_leak_is_violation = x; continue; }
            if (sscanf(line, "param %127s %ld", a, &x) == 2) { (*g_rpar)[istr(a)] = x; continue; }
            if (sscanf(line, "choice %ld %ld", &x, &y) == 2) { (*g_rlog)[(u32)x] = (u32)y; continue; }
            if (sscanf(line, "preempt %lu %ld", &ux, &y) == 2) { (*g_rpre)[ux] = (u32)y; continue; }
        }
        fclose(f);
        g_mode_filter = fbuf;
        if (byseed) { g_replay = false; g_rpar = nullptr; g_rlog = nullptr; g_rpre = nullptr; }
        sim::Workload* w = find_wl(wl);
        if (!w) { fprintf(stderr, "unknown workload %s\n", wl); return 2; }
        run_child(w->fn, seed, opt.count("trace") > 0, nullptr);
        print_result(stdout, wl, seed, "");
        if (opt.count("record")) write_replay(opt["record"].c_str(), wl, seed);
        if (opt.count("trace")) {
            FILE* t = opt["trace"] == "-" ? stdout : fopen(opt["trace"].c_str(), "w");
            if (t) { fwrite(R->trace, 1, R->tracelen, t); if (t != stdout) fclose(t); }
        }
        return 0;
    }
    if (cmd == "explore" || cmd == "one") {
        std::vector<sim::Workload*> ws;
        for (auto& n : split(opt["workloads"], ',')) {
            auto p = split(n, ':');
            sim::Workload* w = find_wl(p[0].c_str());
            if (!w) { fprintf(stderr, "unknown workload %s\n", n.c_str()); return 2; }
            int k = p.size() > 1 ? atoi(p[1].c_str()) : 1;
            while (k-- > 0) ws.push_back(w);
        }
        u64 seed = opt.count("seed") ? strtoull(opt["seed"].c_str(), nullptr, 10) : 1;
        u64 runs = opt.count("runs") ? strtoull(opt["runs"].c_str(), nullptr, 10) : 100;
        u64 job = opt.count("job") ? strtoull(opt["job"].c_str(), nullptr, 10) : 0;
        u64 jobs = opt.count("jobs") ? strtoull(opt["jobs"].c_str(), nullptr, 10) : 1;
        double tcap = opt.count("time") ? atof(opt["time"].c_str()) : 1e9;
        bool keep = opt.count("keepgoing") > 0;
        u64 maxviol = opt.count("maxviol") ? strtoull(opt["maxviol"].c_str(), nullptr, 10) : ~0ull;
        std::string rdir = opt.count("replays") ? opt["replays"] : "/tmp";
        std::string hashes = opt.count("hashes") ? opt["hashes"] : "";
        FILE* hf = hashes.size() ? fopen(hashes.c_str(), "w") : nullptr;
        u64 t0 = real_now_us(), done = 0, viol = 0, skips = 0;
        u64 sw = 0, ta = 0, pa = 0, ac = 0, sim_us = 0, rc = 0;
        std::map<std::string, u64> cnt, perwl;
        u64 i = job;
        if (cmd == "one") { i = strtoull(opt["index"].c_str(), nullptr, 10); jobs = 1u << 30; runs = i + 1; }
        u64 lastindex = 0;
        for (; i < runs; i += jobs) {
            if ((double)(real_now_us() - t0) * 1e-6 > tcap) break;
            u64 rs = mix(mix(seed, 0xabc), i);
            sim::Workload* w = ws[(size_t)(mix(rs, 0x77) % ws.size())];
            u64 us = run_child(w->fn, rs, false, nullptr);
            ++done; lastindex = i;
            perwl[w->name]++;
            if (opt.count("verbose")) fprintf(stderr, "run %lu %s %s %.3fs\n", (unsigned long)i, w->name, R->cls, (double)us * 1e-6);
            if (R->status == ST_SKIP) ++skips;
            sw += R->switches; ta += R->tasks; pa += R->parallels; ac += R->accesses; rc += R->races > 0;
            sim_us += R->steps;
            for (u32 c = 0; c < R->ncnt; ++c) cnt[R->cnt[c].name] += R->cnt[c].n;
            if (hf) {
                char ps[64]; u64 ph = 0;
                for (u32 c = 0; c < R->npar; ++c) if (strncmp(R->par[c].name, "k.", 2)) ph = mix(ph, (u64)R->par[c].val + hstr(R->par[c].name));
                snprintf(ps, sizeof ps, "%016lx", (unsigned long)ph);
                fprintf(hf, "%lu %s %s %016lx %016lx %s\n", (unsigned long)i, w->name, R->cls, (unsigned long)R->hash, (unsigned long)R->ihash, ps);
            }
            if (cmd == "one") { printf("R "); print_result(stdout, w->name, rs, ""); }
            if (R->status == ST_VIOLATION) {
                ++viol;
                char path[512];
                snprintf(path, sizeof path, "%s/%s-%lu-%lu.replay", rdir.c_str(), w->name, (unsigned long)seed, (unsigned long)i);
                write_replay(path, w->name, rs);
                char ex[600];
                snprintf(ex, sizeof ex, ",\"index\":%lu,\"replay\":\"%s\",\"racepc\":[%u,%u]", (unsigned long)i, path, R->nracepc > 0 ? R->racepc[0] : 0, R->nracepc > 1 ? R->racepc[1] : 0);
                printf("V ");
                print_result(stdout, w->name, rs, ex);
                if (!keep || viol >= maxviol) break;
            }
        }
        if (hf) fclose(hf);
        printf("S {\"runs\":%lu,\"last\":%lu,\"violations\":%lu,\"skips\":%lu,\"wall\":%.3f,\"switches\":%lu,\"tasks\":%lu,\"parallels\":%lu,\"accesses\":%lu,\"racy_runs\":%lu,\"sim_us\":%lu,\"counters\":{",
               (unsigned long)done, (unsigned long)lastindex, (unsigned long)viol, (unsigned long)skips, (double)(real_now_us() - t0) * 1e-6, (unsigned long)sw, (unsigned long)ta, (unsigned long)pa, (unsigned long)ac, (unsigned long)rc, (unsigned long)sim_us);
        bool f = true;
        for (auto& c : cnt) { printf("%s\"%s\":%lu", f ? "" : ",", c.first.c_str(), (unsigned long)c.second); f = false; }
        printf("},\"per_workload\":{");
        f = true;
        for (auto& c : perwl) { printf("%s\"%s\":%lu", f ? "" : ",", c.first.c_str(), (unsigned long)c.second); f = false; }
        printf("}}\n");
        fflush(stdout);
        return 0;
    }
    fprintf(stderr, "usage: harness list | explore --workloads a,b --seed S --runs N --job j --jobs J | replay FILE [--trace -]\n");
    return 2;
}
