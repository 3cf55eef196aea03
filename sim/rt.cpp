// Simulator runtime: the seams under the library code.
//
// The library is compiled with -fsanitize=thread (every memory access becomes a call) and
// -fsanitize-coverage=trace-pc (every basic block becomes a call), but linked against this file
// instead of the sanitizer's runtime. That gives a deterministic scheduling / interruption / stall
// point at every memory access, a deterministic step counter, bounds checking of heap memory, a
// happens-before race detector, and control of allocation, I/O, clocks, random sources, locks and
// one-time initialisation - without any change to the library.
#include "rt.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <elf.h>

namespace sim
{
Thr           thr[MAXT + 1];
int           nthr;
__thread Thr *self;
Shm          *shm;
SchedGen      sgen;
Env           env;
bool          race_on, log_on;

const char *const fault_name[] = {"preemption inside a call", "caller stalled for ever inside a call",
    "call interrupted by calls on the same thread", "one allocation failed", "allocations failed from one on",
    "argument data damaged in storage", "stream lost and rebuilt from saved image", "stored image truncated",
    "stored bits flipped", "stored range zeroed", "torn write", "source memory overwritten or freed",
    "ambient state perturbed", "standard streams closed, full or broken", "call before main or after exit began",
    "reading lost", "reading duplicated", "readings reordered"};
const char *const scode_name[] = {"write", "read", "write_at", "read_at", "put_at", "get_at", "seek_top", "seek_cur",
    "seek_end", "seekTo", "ftell", "mark", "feof", "setReadLE", "setReadBE", "setWriteLE", "setWriteBE", "putUint8",
    "putInt8", "putUint16", "putInt16", "putUint32", "putInt32", "putUint64", "putInt64", "putFloat", "putDouble",
    "getUint8", "getInt8", "getUint16", "getInt16", "getUint32", "getInt32", "getUint64", "getInt64", "getFloat",
    "getDouble", "putPointer32", "putPointer64", "getPointer32", "getPointer64", "adjustPointer32", "adjustPointer64",
    "align", "putString", "get_string", "putSubstr", "getSubstr", "ptr", "init", "shrink"};
static_assert(sizeof(scode_name) / sizeof(scode_name[0]) == S_NCODES, "");

void rt_fault(int k) { shm->faults[k]++; }

[[noreturn]] void violation(const char *kind, const char *fmt, ...)
{
    Thr *t = self;
    if (t)
        t->hook++;
    if (!shm->viol)
    {
        snprintf(shm->kind, sizeof shm->kind, "%s", kind);
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(shm->msg, sizeof shm->msg, fmt, ap);
        va_end(ap);
        shm->vt   = t ? t->id : -1;
        shm->vi   = t ? t->item : -1;
        shm->viol = 1;
        shm->done = 1;
    }
    _exit(3);
}

void rt_loghash(uint64_t v) { shm->loghash = (shm->loghash ^ v) * 0x100000001b3ull + (v >> 31); }

// ------------------------------------------------------------------ address space
enum : uintptr_t
{
    ARENA_BASE = 0x300000000000ull,
    ARENA_SIZE = 256ull << 20,
    SHB_BASE   = 0x310000000000ull, // addressability, one byte per byte
    CELL_BASE  = 0x320000000000ull, // race cells, 16 bytes per byte
    GCELL_BASE = 0x330000000000ull,
    STACK_BASE = 0x340000000000ull,
    STACK_SIZE = 1ull << 20
};
static uintptr_t tls_size, rw_lo, rw_hi, relro_lo, relro_hi, shared_slot;
static uintptr_t brk_;       // next free arena address
static uint64_t  place_rng;

struct Cell
{
    uint32_t w;
    uint16_t r[MAXT];
};
static_assert(sizeof(Cell) == 16, "");

static void *map_at(uintptr_t a, size_t n)
{
    void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)a)
    {
        fprintf(stderr, "sim: mmap %lx failed\n", (unsigned long)a);
        _exit(4);
    }
    return p;
}

#ifndef SIM_ASAN
extern "C" const char __ehdr_start[];
static void find_segments()
{
    const Elf64_Ehdr *e  = (const Elf64_Ehdr *)__ehdr_start;
    const Elf64_Phdr *ph = (const Elf64_Phdr *)((const char *)e + e->e_phoff);
    for (int i = 0; i < e->e_phnum; i++)
    {
        if (ph[i].p_type == PT_LOAD && (ph[i].p_flags & PF_W))
        {
            rw_lo = ph[i].p_vaddr;
            rw_hi = ph[i].p_vaddr + ph[i].p_memsz;
        }
        if (ph[i].p_type == PT_TLS)
            tls_size = (ph[i].p_memsz + ph[i].p_align - 1) / ph[i].p_align * ph[i].p_align;
        if (ph[i].p_type == PT_GNU_RELRO)
        {
            relro_lo = ph[i].p_vaddr;
            relro_hi = (ph[i].p_vaddr + ph[i].p_memsz + 4095) & ~4095ull;
        }
    }
}
#endif
bool rt_is_asan()
{
#ifdef SIM_ASAN
    return true;
#else
    return false;
#endif
}

const void *sut_shared_slot();

static bool child_ready;
void rt_init_child()
{
    if (child_ready)
        return;
    child_ready = true;
#ifndef SIM_ASAN
    find_segments();
    shared_slot = (uintptr_t)sut_shared_slot();
    map_at(ARENA_BASE, ARENA_SIZE);
    map_at(SHB_BASE, ARENA_SIZE);
    if (race_on)
    {
        map_at(CELL_BASE, ARENA_SIZE * 16);
        map_at(GCELL_BASE, (rw_hi - rw_lo) * 16);
    }
    place_rng = mix(env.layout, 77);
    brk_      = ARENA_BASE + 4096 + (env.layout ? (mix(env.layout, 5) % 4096) * 16 : 0);
#endif
    if (self)
    {
        self->tls_hi = (uintptr_t)__builtin_thread_pointer();
        self->tls_lo = self->tls_hi - tls_size;
    }
}

void rt_main_thread()
{
    Thr *t = &thr[MAXT];
    memset((void *)t, 0, sizeof *t);
    t->id          = MAXT;
    t->tr.stall_ev = -1;
    t->tr.step_cap = ~0ull;
    t->tr.mem_cap  = ~0ull;
    t->trig_ev     = ~0ull;
    t->item        = -1;
    sem_init(&t->go, 0, 0);
    self = t;
}

// ------------------------------------------------------------------ heap
struct Block
{
    uintptr_t a;
    size_t    n, cap;
    uint8_t   live, sut;
    int8_t    tid;
    int32_t   nextfree;
};
enum
{
    MAXBLK = 400000
};
static Block   *blk;
static uint32_t nblk;
static int32_t  freelist[64];
static uint64_t live_blocks, live_bytes;

static inline bool in_arena(uintptr_t a) { return a - ARENA_BASE < ARENA_SIZE; }
static inline uint8_t &shb(uintptr_t a) { return *(uint8_t *)(SHB_BASE + (a - ARENA_BASE)); }

void rt_fill(void *p, size_t n, uint32_t fill, uint64_t seed)
{
    if (fill == 257)
        return;
    if (fill < 256)
    {
        memset(p, (int)fill, n);
        return;
    }
    unsigned char *c = (unsigned char *)p;
    if (fill == 258)
    {
        static const unsigned char nanp[4] = {0x01, 0x00, 0xc0, 0x7f};
        for (size_t i = 0; i < n; i++)
            c[i] = nanp[i & 3];
        return;
    }
    Rng r(seed);
    size_t i = 0;
    for (; i + 8 <= n; i += 8)
    {
        const uint64_t v = r.next();
        memcpy(c + i, &v, 8);
    }
    for (; i < n; i++)
        c[i] = (unsigned char)r.next();
}

static void *heap_alloc(size_t n, size_t align, bool sut, int tid)
{
#ifdef SIM_ASAN
    void *p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n);
    if (p)
        rt_fill(p, n, env.heap_fill, mix(env.layout, n));
    return p;
#else
    rt_init_child();
    if (!blk)
    {
        blk = (Block *)mmap(nullptr, sizeof(Block) * MAXBLK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        nblk = 1;
    }
    if (n > (64ull << 20))
        return nullptr;
    const bool tight = nblk >= MAXBLK || brk_ + n + 4096 > ARENA_BASE + ARENA_SIZE - (16ull << 20);
    const int cls = n < 1024 ? (int)(n + 31) / 32 : 33 + (64 - __builtin_clzll(n) > 30 ? 30 : 64 - __builtin_clzll(n));
    Block    *b   = nullptr;
    if ((env.reuse || tight) && align <= 16 && freelist[cls & 63])
    {
        Block *c = &blk[freelist[cls & 63]];
        if (c->cap >= n)
        {
            freelist[cls & 63] = c->nextfree;
            b                  = c;
        }
    }
    if (!b && nblk >= MAXBLK)
        return nullptr;
    if (!b)
    {
        uintptr_t a = brk_ + 32;
        a           = (a + align - 1) & ~(align - 1);
        if (env.layout)
        {
            place_rng = place_rng * 6364136223846793005ull + 1442695040888963407ull;
            a += ((place_rng >> 33) % 8) * (align < 16 ? 16 : align);
        }
        const size_t cap = n < 1024 ? (n + 31) / 32 * 32 : n;
        if (a + cap + 64 > ARENA_BASE + ARENA_SIZE)
            return nullptr;
        b      = &blk[nblk++];
        b->a   = a;
        b->cap = cap;
        brk_   = (a + cap + 32 + 15) & ~15ull;
        *(uint32_t *)(a - 16) = (uint32_t)(b - blk);
        *(uint32_t *)(a - 12) = 0x51b10c4u;
    }
    b->n    = n;
    b->live = 1;
    b->sut  = sut;
    b->tid  = (int8_t)tid;
    memset(&shb(b->a), 1, n);
    if (b->cap > n)
        memset(&shb(b->a + n), 0, b->cap - n);
    if (race_on)
        memset((void *)(CELL_BASE + (b->a - ARENA_BASE) * 16), 0, n * 16);
    rt_fill((void *)b->a, n, env.heap_fill, mix(env.layout, b->a));
    if (sut)
    {
        live_blocks++;
        live_bytes += n;
    }
    return (void *)b->a;
#endif
}
static Block *find_block(uintptr_t a)
{
    if (!blk || !in_arena(a) || a < ARENA_BASE + 64 || *(uint32_t *)(a - 12) != 0x51b10c4u)
        return nullptr;
    const uint32_t i = *(uint32_t *)(a - 16);
    return i && i < nblk && blk[i].a == a ? &blk[i] : nullptr;
}
static void heap_release(void *p)
{
#ifdef SIM_ASAN
    free(p);
#else
    const uintptr_t a = (uintptr_t)p;
    Block          *b = find_block(a);
    if (!b)
        violation("bad-free", "free of an address that was never allocated");
    if (!b->live)
        violation("double-free", "block of %zu bytes freed twice", b->n);
    b->live = 0;
    if (b->sut)
    {
        live_blocks--;
        live_bytes -= b->n;
        Thr *t = self;
        if (t)
            t->live = t->live >= b->n ? t->live - b->n : 0;
    }
    memset(&shb(a), 2, b->n);
    rt_fill(p, b->n, env.heap_fill == 257 ? 257u : (env.heap_fill ^ 0x5a) & 255, 0);
    const size_t n   = b->cap;
    const int    cls = n < 1024 ? (int)(n + 31) / 32 : 33 + (64 - __builtin_clzll(n) > 30 ? 30 : 64 - __builtin_clzll(n));
    b->nextfree       = freelist[cls & 63];
    freelist[cls & 63] = (int32_t)(b - blk);
#endif
}
unsigned arg_place() { return env.layout ? (unsigned)(mix(env.layout, 0x91ace) & 7) : 0; }
uint64_t rt_live_blocks() { return live_blocks; }
uint64_t rt_live_bytes() { return live_bytes; }
void    *rt_heap(size_t n) { return heap_alloc(n, 16, false, -1); }
void     rt_lend(void *p, size_t n) // library code may read it only
{
#ifndef SIM_ASAN
    if (p)
        memset(&shb((uintptr_t)p), 3, n);
#endif
}
void     rt_heap_free(void *p) { heap_release(p); }

// An allocation made by library code. Returns null when the simulator decides it fails.
static void *sut_alloc(size_t n, size_t align)
{
    Thr *t = self;
    t->hook++;
    void *p = nullptr;
    t->nalloc++;
    const bool fail = t->tr.fail_n && t->nest == 0 && (t->nalloc == t->tr.fail_n || (t->tr.fail_persist && t->nalloc > t->tr.fail_n));
    if (fail)
    {
        t->nfailed++;
        rt_fault(t->tr.fail_persist ? FK_ALLOC_FROM : FK_ALLOC_ONCE);
    }
    else
    {
        if (t->live + n > t->tr.mem_cap)
            violation("memory-budget", "allocation of %zu bytes with %llu live exceeds the budget of %llu bytes", n,
                (unsigned long long)t->live, (unsigned long long)t->tr.mem_cap);
        p = heap_alloc(n, align, true, t->id);
        if (p)
        {
            t->live += n;
            if (t->live > t->peak)
                t->peak = t->live;
        }
    }
    if (log_on)
        rt_loghash(n * 3 + (p != nullptr));
    t->hook--;
    return p;
}
static inline bool from_sut()
{
    Thr *t = self;
    return t && t->in_sut && !t->hook;
}

void rt_scrub_stack(uint32_t fill)
{
    volatile char *p = (volatile char *)__builtin_alloca(96 * 1024);
    rt_fill((void *)p, 96 * 1024, fill, mix(env.layout, 0x57ac));
    asm volatile("" ::"r"(p) : "memory");
}

// ------------------------------------------------------------------ scheduling
static Rng sched_rng;

static bool runnable(int i)
{
    const Thr &t = thr[i];
    return i < nthr && !t.done && !t.stalled && !t.blocked;
}
static int next_runnable(int after)
{
    for (int k = 1; k <= nthr; k++)
    {
        const int i = (after + k) % nthr;
        if (runnable(i))
            return i;
    }
    return -1;
}
static void sem_down(sem_t *s)
{
    while (sem_wait(s) != 0)
        ;
}
static void retrig(Thr *t)
{
    uint64_t e = ~0ull;
    if (t->nest == 0)
    {
        if (sgen.mode == 0)
        {
            if (t->swi < t->tr.nsw)
                e = t->tr.sw[t->swi].ev;
        }
        else
            e = t->next_gen;
        if (t->tr.stall_ev >= 0 && (uint64_t)t->tr.stall_ev < e)
            e = (uint64_t)t->tr.stall_ev;
        if (t->intri < t->tr.nintr && t->tr.intr_ev[t->intri] < e)
            e = t->tr.intr_ev[t->intri];
    }
    t->trig_ev = e;
}
static uint64_t draw_gap()
{
    if (sgen.mode == 0 || nthr < 2 || shm->nrec >= sgen.maxsw)
        return ~0ull >> 2;
    const double u = sched_rng.unit();
    double       g = 1.0;
    // geometric with the given mean
    g = -(double)sgen.gap * __builtin_log(1.0 - u);
    return 1 + (uint64_t)g;
}
// Hand the processor to thread `to`; returns when this thread is scheduled again.
static void switch_to(Thr *t, int to)
{
    shm->switches++;
    shm->ilhash = mix(shm->ilhash, (uint64_t)t->id * 131 + (uint64_t)t->item * 1000003 + t->ev * 0x9e3779b97f4a7c15ull + to);
    if (log_on)
        rt_loghash(0x5111 + to + t->ev * 7);
    sem_post(&thr[to].go);
    sem_down(&t->go);
    shm->cur_tid  = t->id;
    shm->cur_item = t->item;
    t->next_gen   = t->ev + draw_gap();
    retrig(t);
}
// The thread cannot go on (done, stalled or blocked): let someone else run.
static void give_up(Thr *t)
{
    const int n = next_runnable(t->id);
    if (n >= 0)
    {
        if (t->done)
        {
            sem_post(&thr[n].go);
            return;
        }
        switch_to(t, n);
        return;
    }
    sem_post(&thr[MAXT].go);
    if (!t->done)
        for (;;)
            sem_down(&t->go); // never resumed
}
static void preempt(Thr *t, int to)
{
    rt_fault(FK_PREEMPT);
    if (sgen.mode != 0 && shm->nrec < RECMAX)
    {
        RecSw &r = shm->rec[shm->nrec++];
        r.tid = t->id, r.item = t->item, r.ev = (uint32_t)t->ev, r.to = to;
    }
    switch_to(t, to);
}
static void on_trigger(Thr *t)
{
    t->hook++;
    if (t->tr.stall_ev >= 0 && t->ev >= (uint64_t)t->tr.stall_ev)
    {
        t->stalled = true;
        rt_fault(FK_STALL);
        give_up(t);
    }
    while (t->intri < t->tr.nintr && t->ev >= t->tr.intr_ev[t->intri])
    {
        rt_fault(FK_INTERRUPT);
        const uint32_t k = t->intri++;
        t->nest++;
        t->in_sut = false;
        t->hook--;
        t->tr.on_intr(t, k);
        t->hook++;
        t->in_sut = true;
        t->nest--;
    }
    if (sgen.mode == 0)
    {
        while (t->swi < t->tr.nsw && t->tr.sw[t->swi].ev <= t->ev)
        {
            const int to = t->tr.sw[t->swi++].to;
            if (to != t->id && to >= 0 && runnable(to))
                preempt(t, to);
        }
    }
    else if (t->ev >= t->next_gen)
    {
        int c[MAXT], n = 0;
        for (int i = 0; i < nthr; i++)
            if (i != t->id && runnable(i))
                c[n++] = i;
        if (n && shm->nrec < sgen.maxsw)
            preempt(t, c[sched_rng.below(n)]);
        else
            t->next_gen = t->ev + draw_gap();
    }
    retrig(t);
    t->hook--;
}
// An access to writable shared memory or a synchronisation point.
static void on_interesting(Thr *t)
{
    shm->shared_global_accesses++;
    if (t->nest == 0)
    {
        t->nsync++;
        if (t->tr.stall_sync && t->nsync == t->tr.stall_sync)
        {
            t->tr.stall_ev      = (int64_t)t->ev + 1;
            shm->stall_rec_tid  = t->id;
            shm->stall_rec_item = t->item;
            shm->stall_rec_ev   = t->tr.stall_ev;
            retrig(t);
        }
        if (t->tr.intr_sync && t->nsync == t->tr.intr_sync && t->tr.nintr && t->intri == 0)
        {
            t->tr.intr_ev[0]   = (uint32_t)t->ev + 1;
            shm->intr_rec_tid  = t->id;
            shm->intr_rec_item = t->item;
            shm->intr_rec_ev   = (int64_t)t->ev + 1;
            retrig(t);
        }
    }
    if (sgen.mode != 2 || t->nest || nthr < 2 || shm->nrec >= sgen.maxsw || sched_rng.below(sgen.boost))
        return;
    t->next_gen = t->ev;
    on_trigger(t);
}

static bool watch_stack;
static void watch_this_thread();
static void *thread_main(void *p)
{
    Thr *t = (Thr *)p;
    self   = t;
    t->tls_hi = (uintptr_t)__builtin_thread_pointer();
    t->tls_lo = t->tls_hi - tls_size;
    sem_down(&t->go);
    extern void (*thread_body)(Thr *);
    if (watch_stack)
        watch_this_thread();
    thread_body(t);
    t->hook++;
    t->done = true;
    give_up(t);
    for (;;)
        pause();
    return nullptr;
}
void (*thread_body)(Thr *);

void rt_run_threads(int n, void (*body)(Thr *))
{
    nthr        = n;
    thread_body = body;
    sched_rng   = Rng(mix(sgen.seed, 0x5ced));
    for (int i = 0; i < n; i++)
    {
        Thr *t = &thr[i];
        memset((void *)t, 0, sizeof *t);
        t->id = i;
        for (int k = 0; k < MAXT; k++)
            t->vc.c[k] = 1;
        t->vc.c[i]     = 2;
        t->tr.stall_ev = -1;
        t->item        = -1;
        sem_init(&t->go, 0, 0);
        pthread_attr_t at;
        pthread_attr_init(&at);
#ifndef SIM_ASAN
        const uintptr_t lo = STACK_BASE + (uintptr_t)i * (STACK_SIZE + (64 << 10));
        t->stack_lo        = map_at(lo, STACK_SIZE);
        t->stack_sz        = STACK_SIZE;
        pthread_attr_setstack(&at, t->stack_lo, t->stack_sz);
#else
        pthread_attr_setstacksize(&at, STACK_SIZE);
#endif
        pthread_t th;
        if (pthread_create(&th, &at, thread_main, t) != 0)
            _exit(4);
    }
    sem_post(&thr[0].go);
    sem_down(&thr[MAXT].go);
}
int rt_stuck_threads()
{
    int n = 0;
    for (int i = 0; i < nthr; i++)
        if (!thr[i].done && !thr[i].stalled)
            n++;
    return n;
}
static __attribute__((noinline)) void stack_lower(Thr *t, uintptr_t sp)
{
    t->sp_low           = sp;
    const uint64_t used = t->sp_base - sp;
    if (used > shm->stack_max)
        shm->stack_max = used;
    if (t->tr.stack_cap && used > t->tr.stack_cap)
        violation("stack", "the call needed more than %llu bytes of stack", (unsigned long long)t->tr.stack_cap);
}
static inline __attribute__((always_inline)) void stack_mark(Thr *t)
{
    const uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
    if (sp < t->sp_low)
        stack_lower(t, sp);
}
static void on_segv(int, siginfo_t *, void *u)
{
    Thr            *t  = self;
    const uintptr_t sp = (uintptr_t)((ucontext_t *)u)->uc_mcontext.gregs[REG_RSP];
    if (t && t->in_sut && t->tr.stack_cap && sp < t->sp_base && t->sp_base - sp > t->tr.stack_cap)
    {
        t->hook++;
        violation("stack", "the call needed more than %llu bytes of stack", (unsigned long long)t->tr.stack_cap);
    }
    signal(SIGSEGV, SIG_DFL);
}
void rt_watch_stack() { watch_stack = true; }
static void watch_this_thread()
{
    stack_t s;
    memset(&s, 0, sizeof s);
    s.ss_size = 64 << 10;
    s.ss_sp   = mmap(nullptr, s.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sigaltstack(&s, nullptr);
    struct sigaction a;
    memset(&a, 0, sizeof a);
    a.sa_sigaction = on_segv;
    a.sa_flags     = SA_ONSTACK | SA_SIGINFO;
    sigaction(SIGSEGV, &a, nullptr);
}
void rt_begin_item(Thr *t, int item, const Trig &tr)
{
    t->sp_base = t->sp_low = (uintptr_t)__builtin_frame_address(0);
    t->item = item;
    t->tr   = tr;
    t->ev = t->steps = 0;
    t->nsync          = 0;
    t->swi = t->intri = 0;
    t->nalloc = t->nfailed = 0;
    t->live = t->peak = 0;
    t->next_gen       = draw_gap();
    shm->cur_tid      = t->id;
    shm->cur_item     = item;
    retrig(t);
    t->in_sut = true;
    if (t->trig_ev == 0)
        on_trigger(t);
}
void rt_end_item(Thr *t)
{
    t->in_sut = false;
}

// ------------------------------------------------------------------ happens-before
static inline void vc_join(VC &a, const VC &b)
{
    for (int i = 0; i < MAXT; i++)
        if (b.c[i] > a.c[i])
            a.c[i] = b.c[i];
}
struct SyncVar
{
    uintptr_t a;
    VC        vc;
    int       owner; // thread id + 1
    int       count, readers;
    int       state; // guards and once: 0 new, 1 running, 2 done
};
static SyncVar syncs[512];
static SyncVar fence_var;
static SyncVar *syncvar(uintptr_t a)
{
    uint32_t h = (uint32_t)((a * 0x9e3779b97f4a7c15ull) >> 55);
    for (int k = 0; k < 512; k++)
    {
        SyncVar &s = syncs[(h + k) & 511];
        if (s.a == a)
            return &s;
        if (!s.a)
        {
            s.a = a;
            return &s;
        }
    }
    return &fence_var;
}
static void hb_acquire(Thr *t, SyncVar *s)
{
    if (t->id < MAXT)
        vc_join(t->vc, s->vc);
}
static void hb_release(Thr *t, SyncVar *s)
{
    if (t->id < MAXT)
    {
        vc_join(s->vc, t->vc);
        t->vc.c[t->id]++;
    }
}
static void race_found(Thr *t, uintptr_t a, bool w, int other, bool ow)
{
    Thr &o = thr[other];
    violation("race", "%s by thread %d (item %d) conflicts with unordered %s by thread %d on %s memory",
        w ? "write" : "read", t->id, t->item, ow ? "write" : "read", o.id, in_arena(a) ? "heap" : "static");
}
static inline void race_cells(Thr *t, Cell *c, unsigned n, bool w, uintptr_t a)
{
    const int id = t->id;
    for (unsigned i = 0; i < n; i++, c++)
    {
        const int wt = (int)(c->w >> 24) - 1;
        if (wt >= 0 && wt != id && (c->w & 0xffffff) > t->vc.c[wt])
            race_found(t, a + i, w, wt, true);
        if (w)
        {
            for (int k = 0; k < MAXT; k++)
                if (k != id && c->r[k] && c->r[k] > t->vc.c[k])
                    race_found(t, a + i, true, k, false);
            c->w = (uint32_t)(id + 1) << 24 | (t->vc.c[id] & 0xffffff);
        }
        else
            c->r[id] = (uint16_t)(t->vc.c[id] < 65535 ? t->vc.c[id] : 65535);
    }
}

// ------------------------------------------------------------------ the access hook
static void bad_heap(uintptr_t a, size_t n, bool w)
{
    size_t k = 0;
    while (k < n && in_arena(a + k) && (shb(a + k) == 1 || (!w && shb(a + k) == 3)))
        k++;
    if (in_arena(a + k) && shb(a + k) == 3)
        violation("source", "write of %zu bytes to memory the caller only lent for reading", n);
    if (in_arena(a + k) && shb(a + k) == 2)
        violation("use-after-free", "%s of %zu bytes inside a freed heap block", w ? "write" : "read", n);
    violation("heap-bounds", "%s of %zu bytes outside every live heap block", w ? "write" : "read", n);
}
static void account_range(Thr *t, uintptr_t a, size_t n, bool w)
{
    if (n == 0)
        return;
#ifndef SIM_ASAN
    if (in_arena(a))
    {
        const uint8_t *s = &shb(a);
        for (size_t i = 0; i < n; i++)
            if (!in_arena(a + i) || (s[i] != 1 && (w || s[i] != 3)))
                bad_heap(a, n, w);
        if (race_on && t->id < MAXT && t->vc.c[t->id] < 65535)
            race_cells(t, (Cell *)(CELL_BASE + (a - ARENA_BASE) * 16), (unsigned)n, w, a);
        if (log_on)
            rt_loghash(a * 2 + w);
    }
    else if (a - rw_lo < rw_hi - rw_lo)
    {
        if (race_on && t->id < MAXT && t->vc.c[t->id] < 65535 && a + n <= rw_hi)
            race_cells(t, (Cell *)(GCELL_BASE + (a - rw_lo) * 16), (unsigned)n, w, a);
        if (log_on)
            rt_loghash(a * 2 + w);
        if (a - relro_lo >= relro_hi - relro_lo && a != shared_slot)
            on_interesting(t);
    }
#endif
}
static inline void access_hook(const void *p, size_t n, bool w)
{
    Thr *t = self;
    if (!t || !t->in_sut || t->hook)
        return;
    if (t->nest == 0)
        t->ev++;
    shm->events++;
    const uintptr_t a = (uintptr_t)p;
    if (in_arena(a) || a - rw_lo < rw_hi - rw_lo)
        account_range(t, a, n, w);
    else if (a - t->tls_lo < t->tls_hi - t->tls_lo)
        on_interesting(t);
    if (t->ev >= t->trig_ev && t->nest == 0)
        on_trigger(t);
}
static void atomic_point(const void *p, bool acq, bool rel)
{
    Thr *t = self;
    if (!t || !t->in_sut || t->hook)
        return;
    if (t->nest == 0)
        t->ev++;
    shm->events++;
    t->hook++;
    SyncVar *s = syncvar((uintptr_t)p);
    if (acq)
        hb_acquire(t, s);
    if (rel)
        hb_release(t, s);
    t->hook--;
    const uintptr_t a = (uintptr_t)p;
    if (in_arena(a))
        for (int i = 0; i < 1; i++)
            if (shb(a) != 1)
                bad_heap(a, 1, true);
    if (log_on)
        rt_loghash(a * 2 + rel);
    on_interesting(t);
    if (t->ev >= t->trig_ev && t->nest == 0)
        on_trigger(t);
}

// ------------------------------------------------------------------ waiting
// Returns when *cond-like predicate may have changed; deadlock is reported by the main thread.
static void block_on(Thr *t, const void *what)
{
    t->hook++;
    t->blocked = what;
    give_up(t);
    t->hook--;
}
static void wake(const void *what)
{
    for (int i = 0; i < nthr; i++)
        if (thr[i].blocked == what)
            thr[i].blocked = nullptr;
}
static void yield_point()
{
    Thr *t = self;
    if (!t || !t->in_sut || t->hook)
        return;
    t->hook++;
    const int n = next_runnable(t->id);
    if (n >= 0 && n != t->id && t->nest == 0)
        switch_to(t, n);
    t->hook--;
    t->steps += 16; // a waiting loop is charged for waiting
}
// Blocking for ever with nobody to wake us (nested interruption or main thread).
static bool hopeless(Thr *t) { return t->id == MAXT || nthr == 0; }

static int io_events;
static const char *io_name = "";
int         rt_io_events() { return io_events; }
const char *rt_io_name() { return io_name; }
static long io_event(const char *name, long healthy)
{
    Thr *t = self;
    if (t && t->in_sut)
    {
        t->hook++;
        io_events++;
        io_name = name;
        t->hook--;
        if (env.iomode)
        {
            errno = env.iomode == 1 ? EBADF : env.iomode == 2 ? ENOSPC : EPIPE;
            return healthy > 0 ? -1 : healthy;
        }
    }
    return healthy;
}
static uint64_t world_counter;
static uint64_t world(uint64_t salt) { return mix(env.world, salt * 1000003 + ++world_counter); }
} // namespace sim

using namespace sim;

// ------------------------------------------------------------------ instrumentation entry points
static int         glb_net;
static const char *glb_first;
static void glb_event(const char *n, int d)
{
    Thr *t = self;
    if (!t || !t->in_sut || t->hook)
        return;
    if (!glb_first)
        glb_first = n;
    glb_net += d;
}
namespace sim
{
// What library code left behind in the process, or nullptr.
const char *rt_left_behind()
{
    if (glb_net > 0)
        return glb_first;
    for (auto &s : syncs)
        if (s.a && (s.owner || s.readers || s.state == 1))
            return "a lock";
    return nullptr;
}
} // namespace sim
extern "C" {
#ifndef SIM_ASAN
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define ACC(N)                                                                          \
    void __tsan_read##N(void *p) { access_hook(p, N, false); }                          \
    void __tsan_write##N(void *p) { access_hook(p, N, true); }                          \
    void __tsan_unaligned_read##N(void *p) { access_hook(p, N, false); }                \
    void __tsan_unaligned_write##N(void *p) { access_hook(p, N, true); }                \
    void __tsan_volatile_read##N(void *p) { access_hook(p, N, false); }                 \
    void __tsan_volatile_write##N(void *p) { access_hook(p, N, true); }                 \
    void __tsan_unaligned_volatile_read##N(void *p) { access_hook(p, N, false); }       \
    void __tsan_unaligned_volatile_write##N(void *p) { access_hook(p, N, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, size_t n) { access_hook(p, n, false); }
void __tsan_write_range(void *p, size_t n) { access_hook(p, n, true); }
void __tsan_vptr_update(void **p, void *) { access_hook(p, 8, true); }
void __tsan_vptr_read(void **p) { access_hook(p, 8, false); }

#define IS_ACQ(o) ((o) != 0 && (o) != 3)
#define IS_REL(o) ((o) >= 3)
#define ATOM(B, T)                                                                                                    \
    T __tsan_atomic##B##_load(const volatile T *p, int o)                                                             \
    {                                                                                                                 \
        atomic_point((const void *)p, IS_ACQ(o), false);                                                              \
        return *p;                                                                                                    \
    }                                                                                                                 \
    void __tsan_atomic##B##_store(volatile T *p, T v, int o)                                                          \
    {                                                                                                                 \
        atomic_point((const void *)p, false, IS_REL(o));                                                              \
        *p = v;                                                                                                       \
    }                                                                                                                 \
    T __tsan_atomic##B##_exchange(volatile T *p, T v, int o)                                                          \
    {                                                                                                                 \
        atomic_point((const void *)p, IS_ACQ(o), IS_REL(o));                                                          \
        const T r = *p;                                                                                               \
        *p        = v;                                                                                                \
        return r;                                                                                                     \
    }                                                                                                                 \
    T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int o)                                                         \
    {                                                                                                                 \
        atomic_point((const void *)p, IS_ACQ(o), IS_REL(o));                                                          \
        const T r = *p;                                                                                               \
        *p        = (T)(r + v);                                                                                       \
        return r;                                                                                                     \
    }                                                                                                                 \
    T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int o)                                                         \
    {                                                                                                                 \
        atomic_point((const void *)p, IS_ACQ(o), IS_REL(o));                                                          \
        const T r = *p;                                                                                               \
        *p        = (T)(r - v);                                                                                       \
        return r;                                                                                                     \
    }                                                                                                                 \
    T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int o)                                                         \
    {                                                                                                                 \
        atomic_point((const void *)p, IS_ACQ(o), IS_REL(o));                                                          \
        const T r = *p;                                                                                               \
        *p        = (T)(r & v);                                                                                       \
        return r;                                                                                                     \
    }                                                                                                                 \
    T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int o)                                                          \
    {                                                                                                                 \
        atomic_point((const void *)p, IS_ACQ(o), IS_REL(o));                                                          \
        const T r = *p;                                                                                               \
        *p        = (T)(r | v);                                                                                       \
        return r;                                                                                                     \
    }                                                                                                                 \
    T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int o)                                                         \
    {                                                                                                                 \
        atomic_point((const void *)p, IS_ACQ(o), IS_REL(o));                                                          \
        const T r = *p;                                                                                               \
        *p        = (T)(r ^ v);                                                                                       \
        return r;                                                                                                     \
    }                                                                                                                 \
    T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int o)                                                        \
    {                                                                                                                 \
        atomic_point((const void *)p, IS_ACQ(o), IS_REL(o));                                                          \
        const T r = *p;                                                                                               \
        *p        = (T) ~(r & v);                                                                                     \
        return r;                                                                                                     \
    }                                                                                                                 \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int o, int)                              \
    {                                                                                                                 \
        atomic_point((const void *)p, IS_ACQ(o), IS_REL(o));                                                          \
        if (*p == *e)                                                                                                 \
        {                                                                                                             \
            *p = v;                                                                                                   \
            return 1;                                                                                                 \
        }                                                                                                             \
        *e = *p;                                                                                                      \
        return 0;                                                                                                     \
    }                                                                                                                 \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int o, int f)                              \
    {                                                                                                                 \
        return __tsan_atomic##B##_compare_exchange_strong(p, e, v, o, f);                                             \
    }                                                                                                                 \
    T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int o, int f)                                  \
    {                                                                                                                 \
        __tsan_atomic##B##_compare_exchange_strong(p, &e, v, o, f);                                                   \
        return e;                                                                                                     \
    }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int)
{
    Thr *t = self;
    if (!t || !t->in_sut || t->hook)
        return;
    hb_acquire(t, &fence_var);
    hb_release(t, &fence_var);
}
void __tsan_atomic_signal_fence(int) {}
#endif

extern "C++" {
CmpLog *sim::cmplog;
void    sim::cmp_clear()
{
    cmplog->n = 0;
    memset(cmplog->per, 0, sizeof cmplog->per);
}
}
static void cmp_point(uintptr_t pc, int kind, double a, double b)
{
    Thr *t = self;
    if (!t || !t->in_sut || t->hook || a != a || b != b)
        return;
    CmpLog  &l = *cmplog;
    uint32_t h = (uint32_t)((pc * 0x9e3779b97f4a7c15ull) >> 51);
    for (int k = 0; k < 64 && l.pc[h] && l.pc[h] != pc; k++)
        h = (h + 1) % CmpLog::SITES;
    if (l.pc[h] && l.pc[h] != pc)
        return;
    l.pc[h] = pc;
    if (kind == 1)
        for (uint32_t i = 0; i < l.nctx; i++)
        {
            CmpLog::Off  &o = l.off[h][i];
            const int64_t x = l.ctx[i] - (int64_t)a;
            if (x != o.off)
                o.off = x, o.n = 0;
            else if (l.ctx[i] != o.last)
                o.n++;
            o.last = l.ctx[i];
        }
    if (l.per[h] >= CmpLog::PER || l.n >= CmpLog::MAX)
        return;
    l.per[h]++;
    l.r[l.n++] = {h, (uint8_t)kind, a, b};
}
#define PC (uintptr_t) __builtin_return_address(0)
#define CMP(NAME, T, S, K, A, B)                      \
    void __sanitizer_cov_trace_##NAME(T x, T y)       \
    {                                                 \
        if (cmplog)                                   \
            cmp_point(PC, K, (double)(S)A, (double)(S)B); \
    }
CMP(cmpf, float, float, 0, x, y)
CMP(cmpd, double, double, 0, x, y)
CMP(cmp1, uint8_t, uint8_t, 2, x, y)
CMP(cmp2, uint16_t, uint16_t, 2, x, y)
CMP(cmp4, uint32_t, int32_t, 2, x, y)
CMP(cmp8, uint64_t, int64_t, 2, x, y)
CMP(const_cmp1, uint8_t, uint8_t, 1, y, x)
CMP(const_cmp2, uint16_t, uint16_t, 1, y, x)
CMP(const_cmp4, uint32_t, int32_t, 1, y, x)
CMP(const_cmp8, uint64_t, int64_t, 1, y, x)
#undef CMP
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *c)
{
    if (cmplog && v != cmplog->skip)
        for (uint64_t i = 0; i < c[0] && i < 64; i++)
            cmp_point(PC + i, 1, (double)(int64_t)v, (double)(int64_t)c[2 + i]);
}
#undef PC

void __sanitizer_cov_trace_pc()
{
    Thr *t = self;
    if (!t || !t->in_sut || t->hook)
        return;
    shm->steps++;
    stack_mark(t);
    const uint32_t h = (uint32_t)(((uintptr_t)__builtin_return_address(0) * 0x9e3779b97f4a7c15ull) >> 48);
    shm->cov[h >> 3] |= (unsigned char)(1u << (h & 7));
    if (++t->steps > t->tr.step_cap)
        violation("no-progress", "the call had not completed after %llu steps", (unsigned long long)t->tr.step_cap);
}

// ------------------------------------------------------------------ input and output
#define IO(NAME, OK) \
    long sim_io_##NAME(...) { return io_event(#NAME, OK); }
#define AMB(N)
#define SYN(N)
#define MEM(N)
#ifdef SIM_ASAN
#define GLB(N, D)
#else
#define GLB(N, D)                                                   \
    extern long real_##N(long, long, long, long, long, long) __asm__(#N); \
    long sim_glb_##N(long a, long b, long c, long d, long e, long f) \
    {                                                               \
        glb_event(#N, D);                                           \
        return real_##N(a, b, c, d, e, f);                          \
    }
#endif
#include "syms.def"
#undef IO
#undef AMB
#undef SYN
#undef MEM
#undef GLB

// Opens that library code causes inside the C++ runtime.
#ifndef SIM_ASAN
extern void *__real_fopen(const char *, const char *);
extern void *__real_fopen64(const char *, const char *);
extern int   __real_open(const char *, int, ...);
extern int   __real_open64(const char *, int, ...);
void *__wrap_fopen(const char *p, const char *m)
{
    if (from_sut())
    {
        io_event("fopen", 0);
        return nullptr;
    }
    return __real_fopen(p, m);
}
void *__wrap_fopen64(const char *p, const char *m)
{
    if (from_sut())
    {
        io_event("fopen", 0);
        return nullptr;
    }
    return __real_fopen64(p, m);
}
int __wrap_open(const char *p, int f, int m)
{
    if (from_sut())
    {
        io_event("open", 0);
        return -1;
    }
    return __real_open(p, f, m);
}
int __wrap_open64(const char *p, int f, int m)
{
    if (from_sut())
    {
        io_event("open", 0);
        return -1;
    }
    return __real_open64(p, f, m);
}
#endif

// ------------------------------------------------------------------ ambient sources
time_t sim_amb_time(time_t *p)
{
    const time_t v = (time_t)(world(1) % 4000000000u);
    if (p)
        *p = v;
    return v;
}
clock_t sim_amb_clock() { return (clock_t)(world(2) % 1000000000u); }
int     sim_amb_clock_gettime(int, struct timespec *t)
{
    t->tv_sec  = (time_t)(world(3) % 4000000000u);
    t->tv_nsec = (long)(world(4) % 1000000000u);
    return 0;
}
int sim_amb_gettimeofday(long *t, void *)
{
    t[0] = (long)(world(5) % 4000000000u);
    t[1] = (long)(world(6) % 1000000u);
    return 0;
}
// drawing from a shared generator moves it on for everybody else
int    sim_amb_rand() { return glb_event("rand", 1), (int)(world(7) & 0x7fffffff); }
long   sim_amb_random() { return glb_event("random", 1), (long)(world(8) & 0x7fffffff); }
long   sim_amb_lrand48() { return glb_event("lrand48", 1), (long)(world(9) & 0x7fffffff); }
double sim_amb_drand48() { return glb_event("drand48", 1), (double)(world(10) >> 11) * (1.0 / 9007199254740992.0); }
uint32_t    sim_amb_arc4random() { return (uint32_t)world(11); }
const char *sim_amb_getenv(const char *n)
{
    static char    val[4][16];
    static int     k;
    const uint64_t v = mix(env.world, fnv1(FNV0, n, strlen(n)));
    if (env.world == 0 || v % 3 == 0)
        return nullptr;
    char *b = val[k++ & 3];
    snprintf(b, 16, "%u", v % 3 == 1 ? 1u : (unsigned)(v >> 32) % 100000u);
    return b;
}
const char *sim_amb_secure_getenv(const char *n) { return sim_amb_getenv(n); }
int         sim_amb_getpid() { return (int)(mix(env.world, 12) % 4000000) + 2; }
int         sim_amb_gettid() { return (int)(mix(env.world, 13 + (self ? self->id : 0)) % 4000000) + 2; }
unsigned long sim_amb_pthread_self() { return 0x1000 + (unsigned long)(mix(env.world, 14) % 4096) * 4096 + (self ? self->id : 0) * 64ul; }
long        sim_amb_getrandom(void *p, size_t n, unsigned)
{
    rt_fill(p, n, 256, world(15));
    return (long)n;
}
int      sim_amb_sched_getcpu() { return (int)(world(16) % 8); }
unsigned sim_amb__ZNSt13random_device9_M_getvalEv(void *) { return (unsigned)world(17); }
int64_t  sim_amb__ZNSt6chrono3_V212system_clock3nowEv() { return (int64_t)(world(18) >> 2); }
int64_t  sim_amb__ZNSt6chrono3_V212steady_clock3nowEv() { return (int64_t)(world(19) >> 2); }

// ------------------------------------------------------------------ locks
static Thr *syn_enter(const void *p)
{
    Thr *t = self;
    if (!t || !t->in_sut || t->hook)
        return nullptr;
    atomic_point(p, false, false);
    return t;
}
static bool is_recursive(void *m) { return (((pthread_mutex_t *)m)->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
int sim_syn_pthread_mutex_lock(void *m)
{
    Thr *t = syn_enter(m);
    if (!t)
        return 0;
    SyncVar *s = syncvar((uintptr_t)m);
    for (;;)
    {
        if (s->owner == 0 || (s->owner == t->id + 1 && is_recursive(m)))
            break;
        if (s->owner == t->id + 1 || hopeless(t))
            violation("blocked", "a call waits for a lock that its own thread holds");
        block_on(t, m);
    }
    s->owner = t->id + 1;
    s->count++;
    hb_acquire(t, s);
    return 0;
}
int sim_syn_pthread_mutex_trylock(void *m)
{
    Thr *t = syn_enter(m);
    if (!t)
        return 0;
    SyncVar *s = syncvar((uintptr_t)m);
    if (s->owner && !(s->owner == t->id + 1 && is_recursive(m)))
        return EBUSY;
    s->owner = t->id + 1;
    s->count++;
    hb_acquire(t, s);
    return 0;
}
int sim_syn_pthread_mutex_unlock(void *m)
{
    Thr *t = self;
    if (!t || !t->in_sut || t->hook)
        return 0;
    atomic_point(m, false, false); // still held: even the shortest critical section has a point inside
    SyncVar *s = syncvar((uintptr_t)m);
    if (s->owner == t->id + 1 && --s->count == 0)
    {
        s->owner = 0;
        hb_release(t, s);
        wake(m);
    }
    atomic_point(m, false, false);
    return 0;
}
int sim_syn_pthread_once(int *o, void (*f)())
{
    Thr *t = syn_enter(o);
    if (!t)
    {
        f();
        return 0;
    }
    SyncVar *s = syncvar((uintptr_t)o);
    while (s->state == 1)
    {
        if (s->owner == t->id + 1 || hopeless(t))
            violation("blocked", "one-time initialisation re-entered by its own thread");
        block_on(t, o);
    }
    if (s->state == 0)
    {
        s->state = 1;
        s->owner = t->id + 1;
        f();
        atomic_point(o, false, false);
        s->state = 2;
        s->owner = 0;
        hb_release(t, s);
        wake(o);
    }
    hb_acquire(t, s);
    return 0;
}
int sim_syn_pthread_rwlock_rdlock(void *m)
{
    Thr *t = syn_enter(m);
    if (!t)
        return 0;
    SyncVar *s = syncvar((uintptr_t)m);
    while (s->owner)
    {
        if (s->owner == t->id + 1 || hopeless(t))
            violation("blocked", "a call waits for a lock that its own thread holds");
        block_on(t, m);
    }
    s->readers++;
    hb_acquire(t, s);
    return 0;
}
int sim_syn_pthread_rwlock_wrlock(void *m)
{
    Thr *t = syn_enter(m);
    if (!t)
        return 0;
    SyncVar *s = syncvar((uintptr_t)m);
    while (s->owner || s->readers)
    {
        if (s->owner == t->id + 1 || hopeless(t) || t->nest)
            violation("blocked", "a call waits for a lock that its own thread holds");
        block_on(t, m);
    }
    s->owner = t->id + 1;
    hb_acquire(t, s);
    return 0;
}
int sim_syn_pthread_rwlock_tryrdlock(void *m)
{
    Thr *t = syn_enter(m);
    if (!t)
        return 0;
    SyncVar *s = syncvar((uintptr_t)m);
    if (s->owner)
        return EBUSY;
    s->readers++;
    hb_acquire(t, s);
    return 0;
}
int sim_syn_pthread_rwlock_trywrlock(void *m)
{
    Thr *t = syn_enter(m);
    if (!t)
        return 0;
    SyncVar *s = syncvar((uintptr_t)m);
    if (s->owner || s->readers)
        return EBUSY;
    s->owner = t->id + 1;
    hb_acquire(t, s);
    return 0;
}
int sim_syn_pthread_rwlock_unlock(void *m)
{
    Thr *t = self;
    if (!t || !t->in_sut || t->hook)
        return 0;
    atomic_point(m, false, false);
    SyncVar *s = syncvar((uintptr_t)m);
    if (s->owner == t->id + 1)
        s->owner = 0;
    else if (s->readers)
        s->readers--;
    hb_release(t, s);
    wake(m);
    atomic_point(m, false, false);
    return 0;
}
int sim_syn_pthread_spin_lock(void *m)
{
    Thr *t = syn_enter(m);
    if (!t)
        return 0;
    SyncVar *s = syncvar((uintptr_t)m);
    while (s->owner)
    {
        if (s->owner == t->id + 1 || hopeless(t))
            violation("blocked", "a call waits for a lock that its own thread holds");
        block_on(t, m);
    }
    s->owner = t->id + 1;
    s->count = 1;
    hb_acquire(t, s);
    return 0;
}
int sim_syn_pthread_spin_trylock(void *m)
{
    Thr *t = syn_enter(m);
    if (!t)
        return 0;
    SyncVar *s = syncvar((uintptr_t)m);
    if (s->owner)
        return EBUSY;
    s->owner = t->id + 1;
    s->count = 1;
    hb_acquire(t, s);
    return 0;
}
int sim_syn_pthread_spin_unlock(void *m) { return sim_syn_pthread_mutex_unlock(m); }
int sim_syn_sched_yield()
{
    yield_point();
    return 0;
}
int sim_syn_nanosleep(const void *, void *)
{
    yield_point();
    return 0;
}
int sim_syn_clock_nanosleep(int, int, const void *, void *)
{
    yield_point();
    return 0;
}
int sim_syn_usleep(unsigned)
{
    yield_point();
    return 0;
}
// Timed locks give up after a few turns of the others.
static int timed_lock(void *m)
{
    for (int i = 0;; i++)
    {
        if (sim_syn_pthread_mutex_trylock(m) == 0)
            return 0;
        if (i == 6)
        {
            const SyncVar *v = syncvar((uintptr_t)m);
            Thr           *t = self;
            if (t && t->in_sut && v->owner && v->owner - 1 < MAXT && thr[v->owner - 1].stalled)
                violation("blocked", "a call waits until its time limit for a lock that a stalled caller holds");
            return ETIMEDOUT;
        }
        yield_point();
    }
}
int sim_syn_pthread_mutex_timedlock(void *m, const void *) { return timed_lock(m); }
int sim_syn_pthread_mutex_clocklock(void *m, int, const void *) { return timed_lock(m); }
// Condition variables: waiting releases the lock, sleeps until woken, takes the lock again.
int sim_syn_pthread_cond_wait(void *c, void *m)
{
    Thr *t = syn_enter(c);
    if (!t)
        return 0;
    sim_syn_pthread_mutex_unlock(m);
    if (hopeless(t))
        violation("blocked", "a call waits for a condition that only its own thread could signal");
    block_on(t, c);
    return sim_syn_pthread_mutex_lock(m);
}
static int cond_timed(void *c, void *m)
{
    Thr *t = syn_enter(c);
    if (!t)
        return 0;
    sim_syn_pthread_mutex_unlock(m);
    for (int i = 0; i < 4; i++)
        yield_point();
    sim_syn_pthread_mutex_lock(m);
    return ETIMEDOUT;
}
int sim_syn_pthread_cond_timedwait(void *c, void *m, const void *) { return cond_timed(c, m); }
int sim_syn_pthread_cond_clockwait(void *c, void *m, int, const void *) { return cond_timed(c, m); }
int sim_syn_pthread_cond_broadcast(void *c)
{
    if (syn_enter(c))
        wake(c);
    return 0;
}
int  sim_syn_pthread_cond_signal(void *c) { return sim_syn_pthread_cond_broadcast(c); } // waking more is allowed
int  sim_syn_pthread_cond_init(void *, const void *) { return 0; }
int  sim_syn_pthread_cond_destroy(void *) { return 0; }
void sim_syn__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void *c, void **ul) { sim_syn_pthread_cond_wait(c, *ul); }
void sim_syn__ZNSt18condition_variable10notify_oneEv(void *c) { sim_syn_pthread_cond_broadcast(c); }
void sim_syn__ZNSt18condition_variable10notify_allEv(void *c) { sim_syn_pthread_cond_broadcast(c); }
void sim_syn__ZNSt18condition_variableC1Ev(void *c) { memset(c, 0, sizeof(pthread_cond_t)); }
void sim_syn__ZNSt18condition_variableD1Ev(void *) {}
// Semaphores: the value is kept in the object's first word, as the C library does.
int sim_syn_sem_init(void *m, int, unsigned v)
{
    *(volatile unsigned *)m = v;
    return 0;
}
int sim_syn_sem_destroy(void *) { return 0; }
int sim_syn_sem_trywait(void *m)
{
    Thr *t = syn_enter(m);
    if (!t)
        return 0;
    if (*(volatile unsigned *)m == 0)
    {
        errno = EAGAIN;
        return -1;
    }
    --*(volatile unsigned *)m;
    hb_acquire(t, syncvar((uintptr_t)m));
    return 0;
}
int sim_syn_sem_wait(void *m)
{
    Thr *t = syn_enter(m);
    if (!t)
        return 0;
    while (*(volatile unsigned *)m == 0)
    {
        if (hopeless(t))
            violation("blocked", "a call waits for a semaphore that only its own thread could post");
        block_on(t, m);
    }
    --*(volatile unsigned *)m;
    hb_acquire(t, syncvar((uintptr_t)m));
    return 0;
}
int sim_syn_sem_post(void *m)
{
    Thr *t = syn_enter(m);
    ++*(volatile unsigned *)m;
    if (t)
    {
        hb_release(t, syncvar((uintptr_t)m));
        wake(m);
    }
    return 0;
}
int sim_syn___cxa_guard_acquire(uint64_t *g)
{
    Thr     *t = self;
    SyncVar *s = syncvar((uintptr_t)g);
    if (*(volatile uint8_t *)g)
    {
        if (t && t->in_sut && !t->hook)
            hb_acquire(t, s);
        return 0;
    }
    if (!t || !t->in_sut || t->hook)
        return 1;
    atomic_point(g, false, false);
    while (s->state == 1)
    {
        if (s->owner == t->id + 1 || hopeless(t))
            violation("blocked", "initialisation of a static object re-entered by its own thread");
        block_on(t, g);
    }
    if (*(volatile uint8_t *)g)
    {
        hb_acquire(t, s);
        return 0;
    }
    s->state = 1;
    s->owner = t->id + 1;
    return 1;
}
void sim_syn___cxa_guard_release(uint64_t *g)
{
    Thr     *t         = self;
    SyncVar *s         = syncvar((uintptr_t)g);
    if (t && t->in_sut && !t->hook)
        atomic_point(g, false, false);
    *(volatile uint8_t *)g = 1;
    if (!t || !t->in_sut || t->hook)
        return;
    s->state = 2;
    s->owner = 0;
    hb_release(t, s);
    wake(g);
    atomic_point(g, false, false);
}
void sim_syn___cxa_guard_abort(uint64_t *g)
{
    Thr     *t = self;
    SyncVar *s = syncvar((uintptr_t)g);
    if (!t || !t->in_sut || t->hook)
        return;
    s->state = 0;
    s->owner = 0;
    wake(g);
}

// ------------------------------------------------------------------ memory functions called by library code
void *sim_mem_malloc(size_t n)
{
    if (!from_sut())
        return malloc(n);
    void *p = sut_alloc(n, 16);
    if (!p)
        errno = ENOMEM;
    return p;
}
void *sim_mem_calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n))
        return nullptr;
    void *p = sim_mem_malloc(n);
    if (p)
        memset(p, 0, n);
    return p;
}
void sim_mem_free(void *p)
{
    if (!p)
        return;
#ifdef SIM_ASAN
    free(p);
#else
    if (in_arena((uintptr_t)p))
        heap_release(p);
    else
        free(p);
#endif
}
void *sim_mem_realloc(void *p, size_t n)
{
#ifdef SIM_ASAN
    return realloc(p, n);
#else
    if (!p)
        return sim_mem_malloc(n);
    if (!in_arena((uintptr_t)p))
        return realloc(p, n);
    Block *b = find_block((uintptr_t)p);
    if (!b || !b->live)
        violation("bad-free", "realloc of an address that is not allocated");
    void *q = sim_mem_malloc(n);
    if (!q)
        return nullptr;
    memcpy(q, p, b->n < n ? b->n : n);
    heap_release(p);
    return q;
#endif
}
void *sim_mem_aligned_alloc(size_t a, size_t n) { return from_sut() ? sut_alloc(n, a < 16 ? 16 : a) : aligned_alloc(a, n); }
int   sim_mem_posix_memalign(void **r, size_t a, size_t n)
{
    *r = sim_mem_aligned_alloc(a, n);
    return *r ? 0 : ENOMEM;
}
char *sim_mem_strdup(const char *s)
{
    const size_t n = strlen(s) + 1;
    char        *p = (char *)sim_mem_malloc(n);
    if (p)
        memcpy(p, s, n);
    return p;
}
void *sim_mem_memcpy(void *d, const void *s, size_t n)
{
    if (n)
    {
        access_hook(s, n, false);
        access_hook(d, n, true);
    }
    return memmove(d, s, n);
}
void *sim_mem_memmove(void *d, const void *s, size_t n) { return sim_mem_memcpy(d, s, n); }
void *sim_mem_memset(void *d, int c, size_t n)
{
    if (n)
        access_hook(d, n, true);
    return memset(d, c, n);
}
int sim_mem_memcmp(const void *a, const void *b, size_t n)
{
    if (n)
    {
        access_hook(a, n, false);
        access_hook(b, n, false);
    }
    return memcmp(a, b, n);
}
size_t sim_mem_strlen(const char *s)
{
    size_t n = 0;
#ifndef SIM_ASAN
    if (in_arena((uintptr_t)s) && self && self->in_sut)
    {
        while (true)
        {
            if (shb((uintptr_t)s + n) != 1)
                bad_heap((uintptr_t)s + n, 1, false);
            if (!s[n])
                break;
            n++;
        }
    }
    else
#endif
        n = strlen(s);
    access_hook(s, n + 1, false);
    return n;
}
const void *sim_mem_memchr(const void *p, int c, size_t n)
{
    const void *r = memchr(p, c, n);
    access_hook(p, r ? (const char *)r - (const char *)p + 1 : n, false);
    return r;
}
} // extern "C"

// ------------------------------------------------------------------ operator new and delete
static void *op_new(size_t n, size_t align, bool nothrow)
{
    void *p;
    if (from_sut())
        p = sut_alloc(n ? n : 1, align < 16 ? 16 : align);
    else
        p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
    if (!p && !nothrow)
        throw std::bad_alloc();
    return p;
}
void *operator new(size_t n) { return op_new(n, 16, false); }
void *operator new[](size_t n) { return op_new(n, 16, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return op_new(n, 16, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return op_new(n, 16, true); }
void *operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a, false); }
void *operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a, false); }
void *operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return op_new(n, (size_t)a, true); }
void *operator new[](size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return op_new(n, (size_t)a, true); }
void  operator delete(void *p) noexcept { sim_mem_free(p); }
void  operator delete[](void *p) noexcept { sim_mem_free(p); }
void  operator delete(void *p, size_t) noexcept { sim_mem_free(p); }
void  operator delete[](void *p, size_t) noexcept { sim_mem_free(p); }
void  operator delete(void *p, const std::nothrow_t &) noexcept { sim_mem_free(p); }
void  operator delete[](void *p, const std::nothrow_t &) noexcept { sim_mem_free(p); }
void  operator delete(void *p, std::align_val_t) noexcept { sim_mem_free(p); }
void  operator delete[](void *p, std::align_val_t) noexcept { sim_mem_free(p); }
void  operator delete(void *p, size_t, std::align_val_t) noexcept { sim_mem_free(p); }
void  operator delete[](void *p, size_t, std::align_val_t) noexcept { sim_mem_free(p); }
