// Deterministic simulator: public interface used by the workloads (harness TUs)
// and by the simulator's own translation units.
#ifndef VERIF_SIM_H
#define VERIF_SIM_H
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- results
enum Status { ST_OK = 0, ST_VIOLATION = 1, ST_SKIP = 2 };

// Report a violation and end the simulated run (never returns).
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// End the run without verdict (generated case is outside the property's domain).
[[noreturn]] void skip(const char* why);
// the code under test may refuse its input by ending the process with a non-zero status
void expect_exit(bool);
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // free text in the trace
void probe(const char* name, uint64_t k = 1);   // "rare condition reached" counter
void fault(const char* name, uint64_t k = 1);   // "fault injected" counter
void observe(uint64_t h);                       // fold a value into the run's trace hash

// ---------------------------------------------------------------- choices
// Every generated quantity has a name; it is a pure function of (run seed, name)
// unless the replay file overrides it.
long P(const char* name, long lo, long hi);              // uniform
long Psize(const char* name, long lo, long hi);          // skewed to small / boundary values
long Pick(const char* name, const std::vector<long>& v); // element of v
bool Pbool(const char* name, int percent = 50);
uint64_t Pseed(const char* name);                        // seed for bulk data
// schedule-time decision in [0,n); 0 is the "nothing unusual" choice.
unsigned choose(unsigned n, const char* what);

struct Rng { // splitmix64-based, for bulk data
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next();
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

// ---------------------------------------------------------------- knobs of the current run
struct Knobs {
    int nthreads = 1;        // omp_get_max_threads
    int max_levels = 1;      // nested parallelism
    int sched = 0;           // scheduling strategy
    int preempt_mean = 0;    // mean accesses between preemptions, 0 = off
    bool race = false;       // happens-before race detector
    int undeferred = 0;      // % of tasks executed at creation
    int short_team = 0;      // % of parallel regions given fewer threads than asked
    int poison = 0;          // fill pattern of fresh memory
    int reuse = 0;           // heap reuse policy
    int torn_blas = 0;       // % of BLAS-3 calls whose reads and writes are separated
    long step_cap = 200000000L;
};
extern Knobs K;

// Run f as the root task of the simulation, with the scheduler active.
// (Called by workloads around the operation under test.)
void enter(const char* mode);   // draws the knobs; mode: "par","seq"
void start();                   // hooks on
void stop();                    // hooks off (oracle phase)
struct Section { Section() { start(); } ~Section() { stop(); } };

// concurrent callers: each function is run by its own simulated OS thread
void run_clients(const std::vector<std::function<void()>>& fs);

// ---------------------------------------------------------------- memory seam
struct HeapMark { uint64_t id; };
HeapMark heap_mark();
size_t heap_live_since(HeapMark m, size_t* bytes, char* descr, size_t dlen); // blocks allocated after m and still live
void heap_check(const char* when);      // canaries of all blocks; violation("oob")
uint64_t heap_alloc_count();            // allocations by the code under test since the start of the run
void heap_fail_at(uint64_t nth);        // n-th allocation from now (1-based) fails; 0 disarms
bool heap_fail_fired();
void heap_fail_sticky(bool);            // all later allocations fail as well
// guarded user buffers: bytes preceded/followed by canaries, kept to the end of run
void* user_alloc(size_t bytes, size_t align);

// ---------------------------------------------------------------- time / randomness seam
void set_clock(uint64_t start_us, uint64_t tick_us);
uint64_t clock_reads();

// ---------------------------------------------------------------- I/O seam
struct IoPlan {
    bool active = false;
    // per-operation behaviour
    int short_read_pct = 0, short_write_pct = 0, eintr_pct = 0;
    long fail_read_at = -1, fail_write_at = -1, fail_open_at = -1; // byte / op index
    int err = 5;
    long disk_capacity = -1;  // ENOSPC beyond
    uint64_t reads = 0, writes = 0, opens = 0;
    long rbytes = 0, wbytes = 0;
    bool fired = false;
};
extern IoPlan IO;
std::string scratch(const char* name);  // file path inside the run's scratch directory

// ---------------------------------------------------------------- faults in results
// n-th call of a wrapped BLAS routine has one entry of its result changed
void blas_corrupt_at(uint64_t nth);

// ---------------------------------------------------------------- workloads
typedef void (*WorkFn)();
struct Workload { const char* name; WorkFn fn; Workload* next; };
struct Reg { Workload w; Reg(const char* n, WorkFn f); };
#define WORKLOAD(NAME) \
    static void wl_##NAME(); \
    static sim::Reg reg_##NAME(#NAME, &wl_##NAME); \
    static void wl_##NAME()

// ---------------------------------------------------------------- internal
extern "C" {
extern volatile int sim_hook;   // bit0 preemption, bit1 race detector
}
uint64_t mix(uint64_t a, uint64_t b);
} // namespace sim
#endif
