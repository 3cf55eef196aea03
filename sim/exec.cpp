// Child side: executes one plan in a fresh process under the runtime's control.
#include "exec.h"
#include "engine.h"
#include <alloca.h>
#include <algorithm>
#include <cerrno>
#include <cfenv>
#include <exception>
#include <locale.h>
#include <pthread.h>
#include <signal.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <sys/stat.h>
#include <unistd.h>
#include <xmmintrin.h>

namespace sim
{
static Plan *P;
struct Slot
{
    void          *h    = nullptr;
    Model          m;
    unsigned char *src  = nullptr;
    size_t         srcn = 0;
    uint64_t       srch = 0;
    bool           foreign = false; // operations of other properties since its state was last looked at
};
static Slot  slots[16];
static Args  targs[MAXT + 1], nargs[MAXT + 1], wargs;
static bool  own_now; // does a failure of the current stream operation count for this property
static bool  end_now; // the current read runs into the end of the data
static uint32_t foreign;

template <class F> __attribute__((noinline)) static int guarded(F f)
{
    try
    {
        f();
        return ST_OK;
    }
    catch (const std::bad_alloc &)
    {
        return ST_BADALLOC;
    }
    catch (const std::exception &)
    {
        return ST_EXCEPTION;
    }
    catch (...)
    {
        return ST_UNKNOWN;
    }
}
int call_op(int op, Args &a)
{
    return guarded([&] { ops[op].fn(a); });
}
static const char *status_name(int s)
{
    static const char *n[] = {"a normal return", "the out-of-memory exception", "another exception", "an unknown exception", "nothing"};
    return n[s];
}
static Trig make_trig(const Item &it, uint32_t *evs)
{
    Trig tr;
    memset((void *)&tr, 0, sizeof tr);
    tr.sw           = it.sw.data();
    tr.nsw          = (uint32_t)it.sw.size();
    tr.stall_ev     = it.stall_ev;
    tr.stall_sync   = it.stall_sync;
    tr.intr_sync    = it.intr_sync;
    tr.nintr        = (uint32_t)(it.intr.size() < 16 ? it.intr.size() : 16);
    for (uint32_t i = 0; i < tr.nintr; i++)
        evs[i] = it.intr[i].ev;
    tr.intr_ev      = evs;
    tr.fail_n       = it.fail_n;
    tr.fail_persist = it.fail_persist;
    tr.step_cap     = P->step_cap;
    tr.mem_cap      = ~0ull >> 1;
    tr.stack_cap    = P->stack_cap;
    return tr;
}
static Item *current_item(Thr *t) { return t->id == MAXT ? &P->pro[t->item] : &P->th[t->id][t->item]; }

static void on_interrupt(Thr *t, uint32_t k)
{
    Item &it = *current_item(t);
    for (auto &c : it.intr[k].calls)
    {
        Args &a = nargs[t->id];
        args_init(a, c.op, c.aseed, 0);
        t->in_sut    = true;
        const int st = call_op(c.op, a);
        t->in_sut    = false;
        if (st != c.est || a.hash != c.eh || a.nout != c.en)
            violation("result", "nested call %s, made while %s was interrupted at access %u, gave %s that differs from the same call made alone",
                ops[c.op].name, ops[it.op].name, it.intr[k].ev, status_name(st));
        rt_loghash(a.hash);
    }
}

static void do_call(Thr *t, int idx, Item &it)
{
    Args &a = targs[t->id];
    if (it.twin)
    {
        Args &w = wargs;
        args_init(w, it.op, it.aseed, it.dseed);
        w.clean_twin = true;
        Item clean   = it;
        clean.sw.clear();
        clean.intr.clear();
        uint32_t evs0[16];
        rt_begin_item(t, idx, make_trig(clean, evs0));
        const int st = call_op(it.op, w);
        rt_end_item(t);
        if (st != ST_OK)
            violation("exception", "%s on clean data ended with %s", ops[it.op].name, status_name(st));
    }
    for (uint32_t k = 0; k < it.rep; k++)
    {
        Item plain;
        plain.op     = it.op;
        const bool v = it.repv && !(it.aseed & OVBIT);
        args_init(a, it.op, v ? (uint32_t)(1 + mix(it.aseed, k) % 4000000) * 16 : it.aseed, v ? 0 : it.dseed);
        uint32_t evs0[16];
        rt_begin_item(t, idx, make_trig(plain, evs0));
        const int st = call_op(it.op, a);
        rt_end_item(t);
        if (!v && it.chk == 1 && (st != it.est || a.hash != it.eh || a.nout != it.en))
            violation("result", "%s (arguments %u), made %u times, at last gave %s that differs from the same call made alone", ops[it.op].name, it.aseed, k + 1,
                status_name(st));
    }
    args_init(a, it.op, it.aseed, it.dseed);
    uint32_t evs[16];
    Trig     tr = make_trig(it, evs);
    tr.on_intr  = on_interrupt;
    if (P->env.stack_fill != 257)
        rt_scrub_stack(P->env.stack_fill);
    const uint64_t blocks = rt_live_blocks();
    feclearexcept(FE_ALL_EXCEPT);
    if (P->env.fpflags)
        feraiseexcept((int)P->env.fpflags & FE_ALL_EXCEPT);
    errno = (int)P->env.err;
    static const int rounding[] = {FE_TONEAREST, FE_TOWARDZERO, FE_UPWARD, FE_DOWNWARD};
    if (P->env.fpin && P->env.fpin < 4)
        fesetround(rounding[P->env.fpin]);
    else if (P->env.fpin)
        _mm_setcsr(_mm_getcsr() | 0x8040);
    const unsigned mx = _mm_getcsr() & ~0x3fu;
    unsigned short cw0, cw1;
    asm volatile("fnstcw %0" : "=m"(cw0));
    if (P->env.layout) // where the stack frames of the call lie
    {
        volatile char *pad = (volatile char *)alloca(16 * (1 + mix(P->env.layout, 21) % 61));
        pad[0]             = 0;
    }
    rt_begin_item(t, idx, tr);
    const int st = call_op(it.op, a);
    rt_end_item(t);
    asm volatile("fnstcw %0" : "=m"(cw1));
    if (P->fpmode && ((_mm_getcsr() & ~0x3fu) != mx || cw0 != cw1))
        violation("fp-mode", "%s changed the floating-point control mode", ops[it.op].name);
    if (P->env.fpin)
    {
        fesetround(FE_TONEAREST);
        _mm_setcsr(_mm_getcsr() & ~0x8040u);
    }
    rt_loghash(a.hash);
    rt_loghash((uint64_t)st);
    if (P->ref)
    {
        if (idx < 64)
            shm->bhash[idx] = a.hash, shm->bstat[idx] = st, shm->nbatch = (uint32_t)idx + 1;
        shm->status   = st;
        shm->hash     = a.hash;
        shm->nout     = a.nout;
        shm->r_events = t->ev;
        shm->r_steps  = t->steps;
        shm->r_allocs = t->nalloc;
        shm->r_peak   = t->peak;
        shm->r_io     = rt_io_events();
        shm->kept     = a.kept;
        memcpy(shm->keep, a.keep, sizeof(uint32_t) * a.kept);
    }
    if (P->iocheck && rt_io_events())
        violation("io", "%s called %s()", ops[it.op].name, rt_io_name());
    if (it.twin)
    {
        const Args &w = wargs;
        if (st != ST_OK)
            violation("exception", "%s on damaged data ended with %s", ops[it.op].name, status_name(st));
        if (w.nout != a.nout)
            violation("containment", "%s on damaged data gave %u results instead of %u", ops[it.op].name, a.nout, w.nout);
        const int fl   = ops[it.op].flags;
        const int nsc  = fl & OF_CHAN2 ? 6 : fl & OF_CHAN ? 3 : 0;
        const bool all = (a.dscal >> nsc) != 0 || a.dother;
        if (!all)
            for (uint32_t i = 0; i < a.kept; i++)
            {
                const uint32_t e   = fl & OF_ELEM ? i % 400 : i % 3;
                const bool     bad = fl & OF_ELEM ? (a.delem[e / 64] >> (e % 64)) & 1 : ((a.dscal >> e) & 1) || ((a.dscal >> (e + 3)) & (nsc == 6));
                if (!bad && a.keep[i] != w.keep[i])
                    violation("containment", "%s: damage to other elements changed result %u", ops[it.op].name, i);
            }
    }
    if (it.chk == 1 || it.chk == 2)
    {
        const bool equal = st == it.est && a.hash == it.eh && a.nout == it.en;
        if (!equal && !(it.chk == 2 && st == ST_BADALLOC && t->nfailed))
            violation(st == it.est ? "result" : "exception", "%s (arguments %u, damage %u%s) gave %s that differs from the same call made alone; first value %08x",
                ops[it.op].name, it.aseed, it.dseed, t->nfailed ? ", allocation failed" : "", status_name(st), a.kept ? a.keep[0] : 0);
    }
    if (it.leak && rt_live_blocks() > blocks)
        violation("leak", "%s left %llu allocations behind (%s)", ops[it.op].name, (unsigned long long)(rt_live_blocks() - blocks),
            status_name(st));
}

// ------------------------------------------------------------------ streams
static void mismatch(const Item &it, const char *what, const char *detail)
{
    if (own_now)
        violation(end_now ? "model-end" : "model", "%s: %s (%s)", code_name(it.code).c_str(), what, detail);
    foreign++;
    shm->probes[0]++;
}
static std::vector<uint8_t> dump(void *h)
{
    const size_t n = st_size(h);
    if (n > (64u << 20))
        violation("model", "the stream grew to %zu bytes", n);
    std::vector<uint8_t> v(n);
    st_dump(h, v.data(), n);
    return v;
}
static void resync(Slot &s)
{
    s.m.b   = dump(s.h);
    s.m.cur = st_cursor(s.h);
}
static void set_source(Slot &s, unsigned char *p, size_t n)
{
    if (s.src)
        rt_heap_free(s.src);
    s.src  = p;
    s.srcn = n;
    s.srch = fnv1(FNV0, p, n);
}
static unsigned char *exact_copy(const std::vector<uint8_t> &b)
{
    unsigned char *p = (unsigned char *)rt_heap(b.size());
    if (!b.empty())
        memcpy(p, b.data(), b.size());
    rt_lend(p, b.size());
    return p;
}
static bool oom_state_ok(const Item &it, const Model &before, const Model &after, const Exp &e, const std::vector<uint8_t> &A, size_t cur)
{
    if (A == after.b && cur == after.cur)
        return true;
    if (A == before.b && cur == before.cur)
        return true;
    if (it.code == S_INIT || it.code == SM_ASSIGN)
        return false;
    if (!e.wrote)
        return A == before.b && cur >= before.cur && cur <= after.cur;
    size_t k;
    if (e.wseq)
    {
        if (cur < before.cur || cur - before.cur > e.wdata.size())
            return false;
        k = cur - before.cur;
    }
    else
    {
        if (cur != before.cur)
            return false;
        for (k = 0; k <= e.wdata.size(); k++)
        {
            std::vector<uint8_t> w = before.b;
            if (k && w.size() < e.wpos + k)
                w.resize(e.wpos + k);
            for (size_t i = 0; i < k; i++)
                w[e.wpos + i] = e.wdata[i];
            if (w == A)
                return true;
        }
        return false;
    }
    std::vector<uint8_t> w = before.b;
    if (k && w.size() < e.wpos + k)
        w.resize(e.wpos + k);
    for (size_t i = 0; i < k; i++)
        w[e.wpos + i] = e.wdata[i];
    return w == A;
}

// what the operation returned, against the model
static bool check_returned(const Item &it, const StreamArg &a, const Exp &e, const unsigned char *outb)
{
    char d[200];
    bool ok = true;
    auto isnan_bits = [&](uint64_t v) {
        return it.code == S_GF ? (v & 0x7fffffff) > 0x7f800000 : it.code == S_GD && (v & ~(1ull << 63)) > 0x7ff0000000000000ull;
    };
    const uint64_t quiet = isnan_bits(e.ru) ? it.code == S_GF ? 1ull << 22 : 1ull << 51 : 0; // a signalling NaN may come back quiet
    if (e.cru && (a.ru | quiet) != (e.ru | quiet))
    {
        snprintf(d, sizeof d, "returned %llu, expected %llu", (unsigned long long)a.ru, (unsigned long long)e.ru);
        mismatch(it, "result differs", d);
        ok = false;
    }
    if (e.cri && a.ri != e.ri)
    {
        snprintf(d, sizeof d, "returned %lld, expected %lld", (long long)a.ri, (long long)e.ri);
        mismatch(it, "result differs", d);
        ok = false;
    }
    if (e.cb && (a.rn != e.bytes.size() || memcmp(outb, e.bytes.data(), a.rn) != 0))
    {
        mismatch(it, "bytes read differ", "data");
        ok = false;
    }
    if (e.str)
    {
        bool same = a.ru >= e.bytes.size() && a.ru <= (e.strmax > e.bytes.size() ? e.strmax : e.bytes.size()) && a.rn >= e.bytes.size() &&
                  memcmp(a.rbuf, e.bytes.data(), e.bytes.size()) == 0;
        for (size_t i = e.bytes.size(); same && i < a.rn; i++)
            same = a.rbuf[i] == 0;
        if (!same)
        {
            snprintf(d, sizeof d, "got %llu bytes, expected %zu", (unsigned long long)a.ru, e.bytes.size());
            mismatch(it, "string read differs", d);
            ok = false;
        }
    }
    return ok;
}
static void do_stream(Thr *t, int idx, Item &it)
{
    Slot &s = slots[it.sid & 15];
    Slot *o = &slots[it.sid2 & 15];
    Model before = s.m, after = s.m;
    Exp   e;
    if (it.code == SM_COPY || it.code == SM_ASSIGN)
    {
        if (!o->m.live || s.m.live != (it.code == SM_ASSIGN))
            return;
        after = o->m;
    }
    else if (!model_apply(after, it, e))
        return; // outside the contract (can only happen while minimising): not executed
    const bool c14 = P->base() == "C14";
    const bool own = (group_of(it.code) & own_groups(P->base())) != 0;
    const bool see = it.chk != 3; // look at the whole state afterwards, or only at what the operation returned
    // what goes wrong after operations that were not looked at counts only if all of them belong to this property
    own_now = own && !s.foreign;
    end_now        = e.hit_end && P->base() == "C13";

    if (it.code == SM_SCRIB || it.code == SM_SRCFREE)
    {
        if (s.src)
        {
            rt_fault(FK_SRCREUSE);
            if (it.code == SM_SCRIB)
            {
                rt_fill(s.src, s.srcn, 256, it.u + 1);
                s.srch = fnv1(FNV0, s.src, s.srcn);
            }
            else
            {
                rt_heap_free(s.src);
                s.src = nullptr;
            }
        }
    }
    StreamArg a;
    memset((void *)&a, 0, sizeof a);
    a.u                  = it.u;
    a.n                  = it.code == S_PUT_AT || it.code == S_READ || it.code == S_READ_AT ? (size_t)it.n : it.buf.size();
    unsigned char *in    = nullptr, *outb = nullptr;
    size_t         keepn = 0;
    if (it.code == S_WRITE || it.code == S_WRITE_AT || it.code == S_PUTSTR || it.code == S_PUTSUB || it.code == S_INIT)
    {
        in    = exact_copy(it.buf);
        a.buf = in;
    }
    if (it.code == S_READ || it.code == S_READ_AT)
    {
        // a caller asking for more than there is provides room for what there is
        a.rcap = (size_t)std::min<uint64_t>(it.n, std::max<uint64_t>(before.b.size(), 1 << 16));
        outb   = (unsigned char *)rt_heap(a.rcap);
        a.rbuf = outb;
    }
    std::vector<unsigned char> strbuf; // room for more than the stream holds, so that a string that is too long shows
    if (it.code == S_GETSTR || it.code == S_GETSUB)
    {
        strbuf.resize(before.b.size() + 4096);
        a.rbuf = strbuf.data();
        a.rcap = strbuf.size();
    }
    std::vector<uint8_t> img;
    if (it.code == SM_RELOAD)
    {
        img   = damaged_image(before.b, it);
        in    = exact_copy(img);
        keepn = img.size();
        rt_fault(FK_CRASH);
        if (it.u == 1)
            rt_fault(FK_TRUNC);
        else if (it.u == 2)
            rt_fault(FK_FLIP);
        else if (it.u == 3)
            rt_fault(FK_ZERO);
        else if (it.u == 4)
            rt_fault(FK_TORN);
    }
    if (it.code == SM_NEWMEM)
    {
        in    = exact_copy(it.buf);
        keepn = it.buf.size();
    }
    uint32_t evs[16];
    Trig     tr = make_trig(it, evs);
    tr.on_intr  = on_interrupt;
    if (P->base() == "C13" && (group_of(it.code) & G_READ))
    {
        tr.step_cap = 20000 + 400 * (uint64_t)before.b.size();
        tr.mem_cap  = (1 << 16) + 16 * (uint64_t)before.b.size();
    }
    else // a call may take its time over the data there is, and over the data it is asked to add
        tr.step_cap += 400 * ((uint64_t)before.b.size() + it.buf.size() + std::min<uint64_t>(it.u, 1 << 26) + std::min<uint64_t>(it.n > 0 ? (uint64_t)it.n : 0, 1 << 26));
    void *nh = nullptr;
    rt_begin_item(t, idx, tr);
    const int st = guarded([&] {
        switch (it.code)
        {
        case SM_NEW: nh = st_new(); break;
        case SM_NEWMEM: nh = st_new_mem(in, keepn); break;
        case SM_COPY: nh = st_copy(o->h, (int)it.u); break;
        case SM_ASSIGN: st_assign(s.h, o->h, (int)it.u); break;
        case SM_DEL:
        {
            void *h = s.h;
            s.h     = nullptr;
            st_del(h);
            break;
        }
        case SM_RELOAD:
        {
            void *h = s.h;
            s.h     = nullptr;
            st_del(h);
            nh = keepn ? st_new_mem(in, keepn) : st_new();
            break;
        }
        case SM_SCRIB:
        case SM_SRCFREE: break;
        default:
            if (cmplog)
            {
                const int64_t v[] = {(int64_t)it.u, (int64_t)it.n, (int64_t)it.buf.size(), (int64_t)s.m.b.size(), (int64_t)s.m.cur, (int64_t)(it.u + it.buf.size()),
                    (int64_t)(s.m.cur + it.buf.size()), (int64_t)(int16_t)it.u};
                memcpy(cmplog->ctx, v, sizeof v);
                cmplog->nctx = 8, cmplog->skip = (uint64_t)it.code;
            }
            st_do(s.h, it.code, a);
            if (cmplog)
                cmplog->nctx = 0, cmplog->skip = ~0ull;
        }
    });
    rt_end_item(t);
    rt_loghash(a.ru * 3 + (uint64_t)a.ri * 5 + (uint64_t)st);

    if (st != ST_OK && !(st == ST_BADALLOC && t->nfailed))
    {
        if (own_now)
            violation("exception", "%s ended with %s", code_name(it.code).c_str(), status_name(st));
        foreign++;
        shm->probes[0]++;
        shm->done = 1;
        _exit(0); // nothing sensible can follow
    }
    if (it.code == SM_NEW || it.code == SM_NEWMEM || it.code == SM_COPY || it.code == SM_RELOAD)
    {
        s.h = nh;
        if (it.code == SM_NEWMEM || it.code == SM_RELOAD)
        {
            set_source(s, in, keepn);
            in = nullptr;
        }
        if (st != ST_OK)
        {
            s.m = Model(); // no stream came into being
            if (s.src)
                rt_heap_free(s.src), s.src = nullptr;
            if (c14 && nh)
                violation("oom-state", "construction failed and succeeded");
            return;
        }
    }
    if (it.code == SM_DEL)
    {
        s.m = Model();
        if (s.src)
            rt_heap_free(s.src), s.src = nullptr;
        return;
    }
    s.m = after;
    if (it.code == SM_COPY || it.code == SM_ASSIGN)
        s.foreign = o->foreign || !own;
    else
        s.foreign = !own || (s.foreign && it.code != SM_NEW && it.code != SM_NEWMEM && it.code != SM_RELOAD);
    if (see)
        s.foreign = false;
    if (!see && st == ST_OK)
    {
        if (!check_returned(it, a, e, outb))
            resync(s);
        if (in)
            rt_heap_free(in);
        if (outb)
            rt_heap_free(outb);
        return;
    }
    const std::vector<uint8_t> A   = dump(s.h);
    const size_t               cur = st_cursor(s.h);
    rt_loghash(fnv1(FNV0, A.data(), A.size()) + cur);
    char d[200];
    if (st == ST_BADALLOC)
    {
        if (!oom_state_ok(it, before, after, e, A, cur))
        {
            snprintf(d, sizeof d, "size %zu -> %zu, cursor %zu -> %zu", before.b.size(), A.size(), before.cur, cur);
            if (own_now)
                violation("oom-state", "%s ran out of memory and left the stream in a state no prefix of the operation explains (%s)",
                    code_name(it.code).c_str(), d);
        }
        s.m     = before;
        s.m.b   = A;
        s.m.cur = cur;
        if (it.code == SM_ASSIGN && A == after.b && cur == after.cur && !(A == before.b && cur == before.cur))
            s.m = after;
    }
    else
    {
        bool bad = false;
        if (A != after.b)
        {
            size_t i = 0;
            while (i < A.size() && i < after.b.size() && A[i] == after.b[i])
                i++;
            snprintf(d, sizeof d, "expected %zu bytes, found %zu, first difference at %zu", after.b.size(), A.size(), i);
            mismatch(it, "contents differ from the byte array", d);
            bad = true;
        }
        else if (cur != after.cur)
        {
            snprintf(d, sizeof d, "cursor %zu, expected %zu, size %zu", cur, after.cur, A.size());
            mismatch(it, "cursor differs", d);
            bad = true;
        }
        else if (st_eof(s.h) != (after.cur >= after.b.size()))
        {
            mismatch(it, "end-of-data flag differs", "feof");
            bad = true;
        }
        if (!check_returned(it, a, e, outb))
            bad = true;
        if (bad)
            resync(s);
    }
    if (it.code == SM_COPY || it.code == SM_ASSIGN)
    {
        // the other stream must be untouched
        if (dump(o->h) != o->m.b || st_cursor(o->h) != o->m.cur)
            mismatch(it, "copying changed its source", "");
    }
    if (P->base() == "C15")
        for (auto &q : slots)
            if (q.src && fnv1(FNV0, q.src, q.srcn) != q.srch)
                violation("source", "%s changed the memory the stream was created from", code_name(it.code).c_str());
    if (in)
        rt_heap_free(in);
    if (outb)
        rt_heap_free(outb);
    if (P->iocheck && rt_io_events())
        violation("io", "%s called %s()", code_name(it.code).c_str(), rt_io_name());
}

// ------------------------------------------------------------------ profile loader
static bool gamut_sane(const GamutOut &g, const char *&why)
{
    for (int i = 0; i < 9; i++)
        if (!std::isfinite(g.to[i]) || !std::isfinite(g.from[i]))
        {
            why = "a matrix is not finite";
            return false;
        }
    for (int r = 0; r < 3; r++)
        for (int c = 0; c < 3; c++)
        {
            double v = 0, mag = 0;
            for (int k = 0; k < 3; k++)
            {
                v += (double)g.to[3 * r + k] * g.from[3 * k + c];
                mag += std::fabs((double)g.to[3 * r + k] * g.from[3 * k + c]);
            }
            if (std::fabs(v - (r == c)) > 1e-3 + 1e-4 * mag)
            {
                why = "the matrices are not inverse to each other";
                return false;
            }
        }
    if (!g.name_ok)
    {
        why = "the name is not a string";
        return false;
    }
    return true;
}
struct Loaded
{
    void    *g;
    GamutOut o;
};
static Loaded loaded[2];
static void do_icc(Thr *t, int idx, Item &it)
{
    const uint64_t before = (loaded[0].g != nullptr) + (loaded[1].g != nullptr);
    const uint64_t blocks = rt_live_blocks();
    unsigned char *src    = exact_copy(it.buf);
    uint32_t       evs[16];
    Trig           tr = make_trig(it, evs);
    tr.step_cap       = 50000 + 400 * (uint64_t)it.buf.size();
    tr.mem_cap        = (1 << 20) + 64 * (uint64_t)it.buf.size();
    void *g           = nullptr;
    if (P->env.stack_fill != 257)
        rt_scrub_stack(P->env.stack_fill);
    rt_begin_item(t, idx, tr);
    int st = guarded([&] { g = icc_load(src, it.buf.size()); });
    rt_end_item(t);
    rt_loghash((uint64_t)st);
    if (st != ST_OK && !(st == ST_BADALLOC && t->nfailed))
        violation("exception", "loading a profile of %zu bytes ended with %s", it.buf.size(), status_name(st));
    if (!it.buf.empty() && memcmp(src, it.buf.data(), it.buf.size()) != 0)
        violation("source", "loading changed the profile bytes");
    if (st == ST_OK)
    {
        static GamutOut o1, o2;
        const char     *why = "";
        Item            plain;
        memset((void *)&o1, 0, sizeof o1);
        memset((void *)&o2, 0, sizeof o2);
        rt_begin_item(t, idx, make_trig(plain, evs));
        st = guarded([&] { icc_get(g, o1); });
        rt_end_item(t);
        rt_loghash(fnv1(FNV0, &o1, sizeof o1));
        if (st != ST_OK || !gamut_sane(o1, why))
            violation("gamut", "profile of %zu bytes: %s", it.buf.size(), why);
        rt_fault(FK_SRCREUSE);
        rt_fill(src, it.buf.size(), 256, it.u + 7);
        rt_heap_free(src);
        rt_scrub_stack(0xEE);
        rt_begin_item(t, idx, make_trig(plain, evs));
        st = guarded([&] { icc_get(g, o2); });
        rt_end_item(t);
        if (st != ST_OK || memcmp(&o1, &o2, sizeof o1) != 0)
            violation("retained", "the loaded gamut changed when the profile memory was reused");
        // gamuts loaded earlier stay what they were
        for (auto &l : loaded)
            if (l.g)
            {
                memset((void *)&o2, 0, sizeof o2);
                rt_begin_item(t, idx, make_trig(plain, evs));
                st = guarded([&] { icc_get(l.g, o2); });
                rt_end_item(t);
                if (st != ST_OK || memcmp(&l.o, &o2, sizeof o2) != 0)
                    violation("retained", "an earlier loaded gamut changed when another profile was loaded");
            }
        Loaded &l = loaded[it.u & 1];
        t->in_sut = true;
        if (l.g)
            icc_del(l.g);
        l.g = g;
        l.o = o1;
        t->in_sut = false;
    }
    else
        rt_heap_free(src);
    const uint64_t held = (loaded[0].g != nullptr) + (loaded[1].g != nullptr);
    if (rt_live_blocks() > blocks + held - before)
        violation("leak", "loading left %llu allocations behind", (unsigned long long)(rt_live_blocks() - blocks));
}

// ------------------------------------------------------------------ correction
// smallest and largest singular value of the n x 3 matrix of delivered readings
static void singular(const float *pa, size_t cnt, double &lo, double &hi)
{
    double a[3][3] = {};
    for (size_t i = 0; i + 2 < cnt; i += 3)
        for (int x = 0; x < 3; x++)
            for (int y = 0; y < 3; y++)
                a[x][y] += (double)pa[i + (size_t)x] * pa[i + (size_t)y];
    for (int sweep = 0; sweep < 30; sweep++)
        for (int p = 0; p < 2; p++)
            for (int q = p + 1; q < 3; q++)
            {
                if (std::fabs(a[p][q]) < 1e-300)
                    continue;
                const double th = (a[q][q] - a[p][p]) / (2 * a[p][q]);
                const double t  = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1));
                const double c = 1 / std::sqrt(t * t + 1), s = t * c;
                for (int k = 0; k < 3; k++)
                {
                    const double u = a[k][p], v = a[k][q];
                    a[k][p] = c * u - s * v, a[k][q] = s * u + c * v;
                }
                for (int k = 0; k < 3; k++)
                {
                    const double u = a[p][k], v = a[q][k];
                    a[p][k] = c * u - s * v, a[q][k] = s * u + c * v;
                }
            }
    double e[3] = {a[0][0], a[1][1], a[2][2]};
    std::sort(e, e + 3);
    lo = std::sqrt(std::max(e[0], 0.0));
    hi = std::sqrt(std::max(e[2], 0.0));
}
static void judge_cor(const float *r, const float *m, int n, bool well, double tol)
{
    double worst = 0;
    for (int i = 0; i < 9; i++)
    {
        if (!std::isfinite(r[i]))
            violation("not-finite", "solving %d readings gave a matrix that is not finite", n);
        worst = std::max(worst, std::fabs((double)r[i] - m[i]));
    }
    double before;
    memcpy(&before, shm->keep, 8);
    const double ratio = well ? worst / tol : 0;
    if (ratio > before)
        memcpy(shm->keep, &ratio, 8);
    if (well && worst > tol)
        violation("accuracy", "solved matrix is off by %g with %d delivered readings, allowed %g", worst, n, tol);
}
static void do_cor(Thr *t, int idx, Item &it)
{
    // buf: 9 floats of the true matrix, readings, targets. With u the targets are the standard chart's and
    // buf holds the true matrix's inverse instead of the readings.
    const float       *f = (const float *)it.buf.data();
    int                n = (int)it.n;
    const float       *m = f;
    const float       *pa = f + 9, *ta = f + 9 + 3 * n;
    std::vector<float> own;
    if (it.u)
    {
        float ref[300];
        Item      plain;
        uint32_t  none[16];
        rt_begin_item(t, idx, make_trig(plain, none));
        const int have = cor_reference((unsigned)it.u - 1, ref, 300);
        rt_end_item(t);
        n = std::min(n, have);
        for (int i = 0; i < n; i++)
            for (int k = 0; k < 3; k++)
                own.push_back((float)((double)f[9 + 3 * k] * ref[3 * i] + (double)f[10 + 3 * k] * ref[3 * i + 1] + (double)f[11 + 3 * k] * ref[3 * i + 2]));
        pa = own.data();
    }
    // do the delivered readings determine the matrix well, and how exactly can single precision give it?
    double lo, hi, mn = 0;
    singular(pa, 3 * (size_t)n, lo, hi);
    const double cond = lo > 0 ? hi / lo : 1e30;
    const bool   well = cond < 3000;
    for (int k = 0; k < 9; k++)
        mn += (double)m[k] * m[k];
    const double tol = (cond < 300 ? COR_TOL : 2 * COR_TOL) * (n > 2000 ? 4 : 1) * 5.96e-8 * cond * std::sqrt(mn) * std::sqrt((double)n);
    float        r[9], g[9];
    uint32_t     evs[16];
    Trig         tr = make_trig(it, evs);
    rt_begin_item(t, idx, tr);
    const int st = guarded([&] {
        if (it.u)
            cor_chart(pa, n, (unsigned)it.u - 1, r, g);
        else
            cor_solve(pa, n, ta, n, r);
    });
    rt_end_item(t);
    rt_loghash(fnv1(FNV0, r, sizeof r));
    if (st != ST_OK)
        violation("exception", "solving %d readings ended with %s", n, status_name(st));
    judge_cor(r, m, n, well, tol);
    if (it.u)
        judge_cor(g, m, n, well, tol);
}

// locks, handlers, threads, mappings
static void check_left(const char *who)
{
    if (const char *w = rt_left_behind())
        violation("left", "%s left %s behind", who, w);
}
// settings every other part of the process depends on
static uint64_t process_settings()
{
    uint64_t h = FNV0;
    const char *l = setlocale(LC_ALL, nullptr);
    h = fnv1(h, l, strlen(l));
    const locale_t u = uselocale((locale_t)0);
    h = fnv1(h, &u, sizeof u);
    for (char **e = environ; e && *e; e++)
        h = fnv1(h, *e, strlen(*e));
    sigset_t m;
    sigemptyset(&m);
    pthread_sigmask(SIG_SETMASK, nullptr, &m);
    for (int s = 1; s < 32; s++)
    {
        struct sigaction a;
        memset(&a, 0, sizeof a);
        sigaction(s, nullptr, &a);
        const void *f = (void *)a.sa_handler;
        h = fnv1(h, &f, sizeof f);
        const char in = (char)sigismember(&m, s);
        h = fnv1(h, &in, 1);
    }
    const void *n[2] = {(void *)std::get_new_handler(), (void *)std::get_terminate()};
    return fnv1(h, n, sizeof n);
}
static uint64_t thread_settings()
{
    uint64_t h = FNV0;
    const locale_t u = uselocale((locale_t)0);
    h = fnv1(h, &u, sizeof u);
    sigset_t m;
    sigemptyset(&m);
    pthread_sigmask(SIG_SETMASK, nullptr, &m);
    for (int s = 1; s < 32; s++)
        h = h * 3 + (uint64_t)sigismember(&m, s);
    return h;
}
static void run_item(Thr *t, int idx, Item &it)
{
    const uint64_t mine = P->tidy ? thread_settings() : 0;
    switch (it.type)
    {
    case IT_CALL: do_call(t, idx, it); break;
    case IT_STREAM: do_stream(t, idx, it); break;
    case IT_ICC: do_icc(t, idx, it); break;
    default: do_cor(t, idx, it);
    }
    if (P->tidy && thread_settings() != mine)
        violation("left", "a call changed its thread's signal mask or locale");
    if (P->tidy && P->th.size() == 1)
        check_left(it.type == IT_CALL ? ops[it.op].name : it.type == IT_STREAM ? code_name(it.code).c_str() : it.type == IT_ICC ? "loading a profile" : "solving");
}
// Makes single calls and notes which reach new code or hidden state; resumes at scout->pos after a crash.
[[noreturn]] void exec_scout(const Gen &g, uint64_t calls)
{
    Plan p;
    P       = &p;
    env     = p.env;
    log_on  = false;
    p.step_cap = 2000000;
    rt_main_thread();
    rt_init_child();
    Thr *m    = self;
    m->in_sut = true;
    sut_make_shared();
    m->in_sut = false;
    Scout &s  = *scout;
    memcpy(ovs, s.ov, sizeof ovs);
    int  done = 0;
    bool late = s.pos >= calls, kept = false;
    // one call; true if it is worth keeping
    auto call = [&](const Lead &l) {
        Item it;
        it.fail_n = l.fail_n;
        Args &a   = targs[0];
        args_init(a, l.op, l.aseed, l.dseed);
        uint32_t   evs[16];
        const Trig tr = make_trig(it, evs);
        memset(shm->cov, 0, sizeof shm->cov);
        cmp_clear();
        rt_begin_item(m, 0, tr);
        call_op(l.op, a);
        rt_end_item(m);
        done++;
        bool clean = !l.dseed && !l.fail_n, fresh = false;
        for (uint32_t i = 0; i < s.log.n; i++)
        {
            const CmpRec &c  = s.log.r[i];
            Scout::Site  &t  = s.site[c.site];
            const uint8_t m1 = c.a < c.b ? 1 : c.a == c.b ? 2 : 4;
            t.kind           = c.kind;
            t.c              = c.b;
            if (!clean)
                continue;
            const bool first = !(t.mask & m1);
            fresh |= first;
            t.mask |= m1;
            const double d = std::fabs(c.a - c.b);
            if (t.mask == 7 || c.kind == 2 || (late && !first))
                continue;
            uint32_t w = t.near;
            if (w < 3)
                t.near++;
            else
                for (w = 0; w < 3 && !(d < t.dist[w]); w++)
                    ;
            if (w < 3)
                t.lead[w] = l, t.dist[w] = d, kept = true;
        }
        const uint32_t touched = m->nsync;
        if (s.nlead >= Scout::MAXLEAD)
            return fresh;
        bool keep = false;
        for (size_t w = 0; w < sizeof shm->cov / 8; w++)
        {
            uint64_t bits;
            memcpy(&bits, shm->cov + w * 8, 8);
            for (; bits; bits &= bits - 1)
            {
                const uint32_t b = (uint32_t)(w * 64 + (size_t)__builtin_ctzll(bits));
                if (!s.hits[b]++)
                    s.blk[s.nblk++] = (uint16_t)b;
                if (s.nat[b] < Scout::PER)
                    s.at[b][s.nat[b]++] = s.nlead, keep = true;
            }
        }
        if (touched)
        {
            if (!s.ophid[l.op])
                s.hid_ops++;
            if (s.ophid[l.op]++ < Scout::HIDPER && s.nhid < Scout::HIDMAX)
                s.hid[s.nhid++] = s.nlead, keep = true;
        }
        const uint32_t na = m->nalloc;
        if (na && clean)
        {
            uint8_t &c = s.alseen[l.op][na < 8 ? na : 8 + na % 8];
            if (c < Scout::ALPER && s.nal < Scout::ALMAX)
                c++, s.al[s.nal++] = s.nlead, keep = true;
        }
        if (keep)
            s.lead[s.nlead++] = l;
        return fresh;
    };
    while (s.pos < calls)
    {
        if (done >= 400) // a fresh process: first calls initialise
            _exit(0);
        const uint64_t i = s.pos;
        s.pos            = i + 1;
        call(scout_call(g, i));
    }
    late = true;
    // Comparisons that always went the same way: change one number at a time until they go another.
    while (s.bpos < Scout::ROUNDS * CmpLog::SITES)
    {
        if (done >= 4000)
            _exit(0);
        const uint32_t i = s.bpos % CmpLog::SITES;
        s.bpos           = s.bpos + 1;
        Scout::Site   &t = s.site[i];
        if (!s.log.pc[i] || t.mask == 7 || t.kind == 2 || !t.near || s.nov + 8 >= Ov::COUNT)
            continue;
        Rng       r(mix(mix(g.seed, (uint64_t)g.worker), s.bpos));
        const Lead l0   = t.lead[r.below(t.near)];
        uint32_t   left = ops[l0.op].flags & OF_HEAVY ? SITE_CALLS / 4 : SITE_CALLS;
        Lead       l    = l0;
        l.dseed = l.fail_n = 0;
        l.aseed &= ~15u;
        double a = 0, b = 0;
        // how the comparison comes out for the present arguments: the record closest to equality
        auto probe = [&](const Lead &q) {
            const uint8_t was = t.mask;
            left--;
            call(q);
            bool any = false;
            for (uint32_t k = 0; k < s.log.n; k++)
                if (s.log.r[k].site == i && (!any || std::fabs(s.log.r[k].a - s.log.r[k].b) < std::fabs(a - b)))
                    a = s.log.r[k].a, b = s.log.r[k].b, any = true;
            if (t.mask != was)
            {
                s.outcomes++;
                if (s.nsol < Scout::SOLMAX)
                    s.sol[s.nsol++] = q;
            }
            return any;
        };
        if (!probe(l))
            continue;
        const uint32_t nsc = std::min(targs[0].nscal, 16u);
        float          v0[16];
        memcpy(v0, targs[0].sval, sizeof v0);
        const Ov *from = targs[0].ov;
        const double a0 = a, b0 = b;
        const uint8_t before = t.mask;
        for (uint32_t n = 0; n < nsc && left > 12 && t.mask != 7; n++)
        {
            // the same arguments with number n replaced
            Ov o;
            o.aseed = from ? from->aseed : l.aseed;
            o.n     = 0;
            if (from)
                for (uint32_t k = 0; k < from->n; k++)
                    if (from->at[k] != n && o.n + 1 < Ov::MAX)
                        o.at[o.n] = from->at[k], o.v[o.n] = from->v[k], o.n++;
            const uint32_t slot = o.n++;
            o.at[slot]          = n;
            Lead q              = l;
            auto with           = [&](float v) {
                if (v != v || std::isinf(v) || left == 0 || s.nov + 1 >= Ov::COUNT)
                    return false;
                o.v[slot]   = v;
                s.ov[s.nov] = ovs[s.nov] = o;
                q.aseed     = OVBIT | s.nov << 4;
                const uint32_t ns = s.nsol, nl = s.nlead;
                kept              = false;
                const bool ok     = probe(q);
                if (kept || s.nsol != ns || s.nlead != nl) // its arguments are remembered somewhere
                    s.nov++;
                return ok;
            };
            const float x0 = v0[n];
            // the number itself is compared
            const float y0 = (float)b0, z0 = (float)a0;
            if (x0 == z0 || x0 == y0)
            {
                const float y = x0 == z0 ? y0 : z0;
                with(y);
                with(std::nextafterf(y, 3e38f));
                with(std::nextafterf(y, -3e38f));
                with(y + (y == 0.f ? 1e-3f : y * 1e-3f));
                with(y - (y == 0.f ? 1e-3f : y * 1e-3f));
                with(y * 1.04f);
                with(y * 0.96f);
                with(y * 2.f);
                continue;
            }
            // secant search for the point where the comparison turns
            double xa = x0, fa = a0 - b0;
            double xb = x0 + (x0 == 0.f ? 0.05 : 0.03 * x0);
            if (!with((float)xb))
                continue;
            double fb = a - b;
            if (fa == fb)
            {
                xb = x0 == 0.f ? 1. : x0 * 4.;
                if (!with((float)xb) || (fb = a - b) == fa)
                    continue;
            }
            for (int k = 0; k < 12 && left > 4 && t.mask != 7 && fa != fb; k++)
            {
                double x = xb - fb * (xb - xa) / (fb - fa) * (k % 3 == 2 ? 1.2 : 1.02);
                if (!(std::fabs(x) < 1e12))
                    break;
                if ((float)x == (float)xb)
                    x = std::nextafterf((float)x, (float)(x + (xb - xa)));
                xa = xb, fa = fb, xb = (double)(float)x;
                if (!with((float)x))
                    break;
                fb = a - b;
            }
        }
        if (t.mask != before)
            s.solved++;
    }
    _exit(0);
}
static void body(Thr *t)
{
    auto &l = P->th[t->id];
    for (size_t i = 0; i < l.size(); i++)
        run_item(t, (int)i, l[i]);
}
static void check_output()
{
    fflush(nullptr);
    if (lseek(0, 0, SEEK_CUR) > 0)
        violation("input", "standard input was read");
    for (int fd = 1; fd <= 2; fd++)
    {
        struct stat s;
        if (fstat(fd, &s) == 0 && S_ISREG(s.st_mode) && s.st_size > 0)
            violation("output", "%lld bytes were written to descriptor %d", (long long)s.st_size, fd);
    }
}
[[noreturn]] void exec_plan(Plan &p, uint64_t want_shared, uint64_t want_const)
{
    P       = &p;
    env     = p.env;
    sgen    = p.sg;
    race_on = p.race;
    log_on  = true;
    rt_main_thread();
    rt_init_child();
    Thr *m = self;
    if (p.shared)
    {
        m->in_sut = true;
        sut_make_shared();
        m->in_sut = false;
    }
    const uint64_t base_blocks = rt_live_blocks();
    const uint64_t settings    = p.tidy ? process_settings() : 0;
    if (p.stack_cap)
        rt_watch_stack();
    for (size_t i = 0; i < p.pro.size(); i++)
        run_item(m, (int)i, p.pro[i]);
    m->item = -1;
    rt_run_threads((int)p.th.size(), body);
    const int stuck = rt_stuck_threads();
    if (stuck)
    {
        int w = 0;
        for (int i = 0; i < nthr; i++)
            if (!thr[i].done && !thr[i].stalled)
                w = i;
        shm->vt = w, shm->vi = thr[w].item;
        snprintf(shm->kind, sizeof shm->kind, "blocked");
        snprintf(shm->msg, sizeof shm->msg, "thread %d waits for ever inside item %d; %d threads cannot finish", w, thr[w].item, stuck);
        shm->viol = 1;
        shm->done = 1;
        _exit(3);
    }
    if (p.base() == "C14" || p.base() == "C15" || p.tidy)
    {
        for (auto &s : slots)
            if (s.h)
            {
                m->in_sut = true;
                st_del(s.h);
                m->in_sut = false;
            }
        for (auto &k : loaded)
            if (k.g)
            {
                m->in_sut = true;
                icc_del(k.g);
                m->in_sut = false;
            }
        if ((p.prop == "C14" || p.tidy) && !p.ref && rt_live_blocks() > base_blocks)
            violation("leak", "%llu allocations were left behind after the last call, with all streams destroyed", (unsigned long long)(rt_live_blocks() - base_blocks));
    }
    if (p.tidy)
    {
        check_left("a call");
        if (process_settings() != settings)
            violation("left", "a call changed a setting of the process: locale, environment, signal handling, new or terminate handler");
    }
    if (p.hashes)
    {
        bool stalled = false;
        for (int i = 0; i < nthr; i++)
            stalled |= thr[i].stalled;
        if (!stalled)
        {
            if (want_shared && sut_hash_shared() != want_shared)
                violation("arguments", "a shared read-only argument was modified");
            if (want_const && sut_hash_constants() != want_const)
                violation("constants", "a published constant was modified");
        }
    }
    if (p.iocheck)
        check_output();
    rt_loghash(shm->events);
    rt_loghash(shm->steps);
    shm->done = 1;
    _exit(0);
}
} // namespace sim
