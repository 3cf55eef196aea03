// Internals shared by the simulator runtime (rt.cpp) and the engine (engine.cpp).
#pragma once
#include "sim.h"
#include <semaphore.h>
#include <cstdint>
#include <cstddef>
#include <cstring>

namespace sim
{
// ------------------------------------------------------------------ seeded randomness
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? (uint32_t)(((next() >> 32) * (uint64_t)n) >> 32) : 0; }
    bool     chance(uint32_t num, uint32_t den) { return below(den) < num; }
    double   unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
};
inline uint64_t mix(uint64_t a, uint64_t b)
{
    Rng r(a ^ (b * 0x9e3779b97f4a7c15ull) ^ (b >> 29));
    r.next();
    return r.next();
}
inline uint64_t fnv1(uint64_t h, const void *p, size_t n)
{
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++)
        h = (h ^ c[i]) * 1099511628211ull;
    return h;
}
const uint64_t FNV0 = 1469598103934665603ull;

// ------------------------------------------------------------------ one computation call
enum
{
    OUT_KEEP = 1300
};
struct Args
{
    // input
    int      op;
    uint32_t aseed;  // base * 16 + variant
    uint32_t dseed;  // 0: clean
    const struct Ov *ov; // replaced arguments
    Rng      vals;   // value stream
    Rng      dmg;    // damage stream
    uint32_t nscal;  // scalars handed out
    uint32_t ninteg; // integers handed out
    float    sval[16]; // the first scalars handed out, before damage
    uint8_t  skind[16];
    uint32_t dval[16]; // what damage made of them, where it did
    bool     clean_twin; // hand out undamaged values but remember which would be damaged
    // damage bookkeeping (element-wise computations)
    uint64_t dscal;        // bit k: scalar k damaged
    uint64_t delem[7];     // bit k: element k of a spectrum argument damaged
    uint32_t nblocks;
    bool     dother;       // damage that is not attributable to one element
    // output
    uint64_t hash;
    uint32_t nout;
    uint32_t kept;
    uint32_t keep[OUT_KEEP];
};
void args_init(Args &a, int op, uint32_t aseed, uint32_t dseed);

enum Status
{
    ST_OK        = 0,
    ST_BADALLOC  = 1,
    ST_EXCEPTION = 2,
    ST_UNKNOWN   = 3,
    ST_NONE      = 4
};

// ------------------------------------------------------------------ fault kinds (for evidence)
enum FaultKind
{
    FK_PREEMPT,     // preemption inside a call
    FK_STALL,       // caller stopped for ever inside a call
    FK_INTERRUPT,   // call interrupted by another call on its thread
    FK_ALLOC_ONCE,  // one allocation failed
    FK_ALLOC_FROM,  // all allocations failed from one on
    FK_DAMAGE,      // damaged scalar or array handed to a call
    FK_CRASH,       // stream lost, rebuilt from its saved image
    FK_TRUNC,       // stored image truncated
    FK_FLIP,        // stored bits flipped
    FK_ZERO,        // stored range zeroed
    FK_TORN,        // torn write: tail replaced by older/garbage bytes
    FK_SRCREUSE,    // source memory overwritten or freed after use
    FK_AMBIENT,     // call made under a perturbed ambient state
    FK_IOSTATE,     // call made with closed / full / broken standard streams
    FK_PHASE,       // call made before main or after exit began
    FK_LOSS,
    FK_DUP,
    FK_REORDER,
    FK_NKINDS
};
extern const char *const fault_name[];

// Arguments that scouting worked out: those of a call, some of them replaced. Named by calls as args = OVBIT | number << 4.
struct Ov
{
    enum { MAX = 4, COUNT = 32768 };
    uint32_t aseed, n;
    uint32_t at[MAX];
    float    v[MAX];
};
const uint32_t OVBIT = 0x80000000u;
extern Ov      ovs[Ov::COUNT];

// ------------------------------------------------------------------ ambient state of a run
struct Env
{
    uint32_t heap_fill;  // 0: zero, 1..255 byte, 256: random bytes, 257: stale contents, 258: NaN pattern
    uint32_t stack_fill; // same, 257: leave alone
    uint32_t reuse;      // freed blocks are handed out again first
    uint32_t layout;     // seed of heap placement
    uint32_t err;        // errno at entry
    uint32_t fpflags;    // sticky floating-point flags at entry
    uint64_t world;      // seed of clock, random sources, environment variables, thread identity
    uint32_t iomode;     // 0 memfd, 1 closed, 2 full, 3 broken pipe
    uint32_t fpin;       // floating-point control mode at entry: 0 default, 1-3 rounding, 4 denormals flushed
};

// ------------------------------------------------------------------ schedule
struct Sw
{
    uint32_t ev;
    int      to;
};
struct RecSw
{
    int      tid, item;
    uint32_t ev;
    int      to;
};
struct SchedGen
{
    int      mode;  // 0 explicit, 1 random gaps, 2 boosted, 3 few change points
    uint32_t gap;   // mean gap
    uint32_t boost; // 1/boost chance at accesses to writable shared memory
    uint64_t seed;
    uint32_t maxsw;
};

struct Thr;
// What the engine supplies for the item a thread is executing.
struct Trig
{
    const Sw *sw;
    uint32_t  nsw;
    int64_t   stall_ev; // -1 none
    uint32_t  stall_sync; // k > 0: stall just after the k-th access to writable shared memory, lock or atomic
    uint32_t  intr_sync;  // k > 0: interrupt (first interruption) just after the k-th such access
    // interruptions, ascending by ev
    uint32_t       *intr_ev;
    uint32_t        nintr;
    void (*on_intr)(Thr *, uint32_t idx);
    uint32_t fail_n; // 0 none
    bool     fail_persist;
    uint64_t step_cap;
    uint64_t stack_cap; // bytes of stack a single item may use, 0: any
    uint64_t mem_cap; // bytes a single item may have live at once
};

enum
{
    MAXT   = 6,
    RECMAX = 3000
};

struct Shm
{
    // outcome
    volatile int done;
    int          viol;
    char         kind[32];
    char         msg[600];
    int          vt, vi;
    volatile int cur_tid, cur_item;
    // measurements
    uint64_t loghash, events, steps, switches;
    uint64_t ilhash;
    uint32_t faults[FK_NKINDS];
    uint32_t probes[16];
    uint64_t shared_global_accesses;
    int      stall_rec_tid, stall_rec_item;
    int64_t  stall_rec_ev; // where a relative stall / interruption landed
    int64_t  intr_rec_ev;
    int      intr_rec_tid, intr_rec_item;
    // recorded schedule
    uint32_t nrec;
    RecSw    rec[RECMAX];
    // reference results
    int      status;
    uint64_t hash;
    uint32_t nout;
    uint64_t r_events, r_steps;
    uint32_t r_allocs;
    uint64_t r_peak;
    int      r_io;
    uint32_t kept;
    uint32_t keep[OUT_KEEP];
    // per-call results of a batch
    uint32_t nbatch;
    uint64_t bhash[64];
    int      bstat[64];
    uint64_t stack_max; // deepest stack use of a call
    // coverage
    unsigned char cov[8192];
};
extern Shm *shm;

// Comparisons a call made, while scouting looks for arguments that decide them the other way.
struct CmpRec
{
    uint32_t site;
    uint8_t  kind; // 0 floating point, 1 integer against a constant, 2 integer
    double   a, b;
};
struct CmpLog
{
    enum { SITES = 8192, MAX = 2048, PER = 3 };
    uint32_t n, nsite;
    uint64_t pc[SITES]; // open addressing
    uint8_t  per[SITES];
    CmpRec   r[MAX];
    // numbers the operation was given; a constant distance from one of them to what is compared shows a moved range
    enum { CTX = 8 };
    int64_t  ctx[CTX];
    uint32_t nctx;
    uint64_t skip; // the harness chooses the operation by this
    struct Off
    {
        int64_t  off, last;
        uint32_t n;
    } off[SITES][CTX];
};
extern CmpLog *cmplog; // null: off
void           cmp_clear();

struct VC
{
    uint32_t c[MAXT];
};

struct Thr
{
    int      id;
    sem_t    go;
    volatile bool in_sut;
    int      hook;  // inside the runtime
    int      nest;  // inside an interruption
    bool     done, stalled;
    const void *blocked;
    uint64_t ev;    // accesses in current item
    uint64_t steps; // blocks in current item
    uint64_t trig_ev;
    uintptr_t sp_base, sp_low; // stack at the start of the item, and deepest seen
    uint32_t swi, intri;
    uint32_t nsync;  // shared accesses in current item
    uintptr_t tls_lo, tls_hi;
    int      item;
    Trig     tr;
    uint32_t nalloc;
    uint64_t live;    // bytes live that were allocated in this item
    uint64_t peak;
    uint32_t nfailed;
    uint64_t next_gen; // events until the next generated preemption
    VC       vc;
    void    *stack_lo;
    size_t   stack_sz;
};
extern Thr  thr[MAXT + 1]; // last: main
extern int  nthr;
extern __thread Thr *self;
extern SchedGen sgen;
extern Env      env;
extern bool     race_on;
extern bool     log_on;

void rt_init_child(); // arena, shadow (once per child)
void rt_main_thread();
[[noreturn]] void violation(const char *kind, const char *fmt, ...);
void rt_begin_item(Thr *t, int item, const Trig &tr);
void rt_end_item(Thr *t);
void rt_run_threads(int n, void (*body)(Thr *)); // returns when all are done, stalled or a deadlock is found
int  rt_stuck_threads();                         // number of threads that can never finish
uint64_t rt_live_blocks();                       // blocks allocated by library code and not freed
uint64_t rt_live_bytes();
void *rt_heap(size_t n);                         // exact-size block visible to bounds checking
void  rt_heap_free(void *p);
void rt_scrub_stack(uint32_t fill);
int  rt_io_events();
const char *rt_io_name();
void rt_loghash(uint64_t v);
bool rt_is_asan();
void rt_fill(void *p, size_t n, uint32_t fill, uint64_t seed);
void rt_fault(int k);
void rt_lend(void *p, size_t n);
const char *rt_left_behind(); // locks, handlers, threads, mappings left by finished calls
void rt_watch_stack();        // running off the stack becomes a violation
uint64_t rt_hash_writable(); // contents of the program's writable static memory
const char *rt_asan_kind();
} // namespace sim
