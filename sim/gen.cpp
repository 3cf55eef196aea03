// Generators: one seed is one plan.
#include "engine.h"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstring>

namespace sim
{
// ------------------------------------------------------------------ computation calls
struct Hot
{
    std::vector<int>      op;
    std::vector<uint32_t> args;
    std::vector<Lead>     lead; // calls to make as they stand
};
static int family_len(const char *n)
{
    const char *d = strpbrk(n, "._");
    return d ? (int)(d - n) : (int)strlen(n);
}
static bool same_family(int a, int b)
{
    const int la = family_len(ops[a].name), lb = family_len(ops[b].name);
    return la == lb && strncmp(ops[a].name, ops[b].name, (size_t)la) == 0;
}
template <class F> static int pick_op(Rng &r, F ok)
{
    for (int tries = 0; tries < 400; tries++)
    {
        const int o = (int)r.below((uint32_t)n_ops);
        if ((ops[o].flags & OF_HEAVY) && r.below(3))
            continue;
        if (ok(o))
            return o;
    }
    for (int o = 0; o < n_ops; o++)
        if (ok(o))
            return o;
    return 0;
}
static uint32_t pick_base(const Gen &g, Rng &r)
{
    if (r.chance(1, 4)) // anywhere
        return 200000 + r.below(40000);
    return 1 + (uint32_t)(mix(g.seed, 0xba5e) % 1000) * 256 + (uint32_t)g.worker * 16 + r.below(12);
}
static uint32_t pick_variant(uint32_t base, Rng &r)
{
    // each base has a few neighbours only, so that reference results are shared between runs
    const uint32_t k = r.below(5);
    return k == 0 ? 0 : 1 + (uint32_t)(mix(base, k) % 15);
}
Lead scout_call(const Gen &g, uint64_t i)
{
    Rng  r(mix(mix(g.seed, (uint64_t)g.worker * 104729 + 11), i * 17 + 5));
    Lead l;
    l.op             = pick_op(r, [](int) { return true; });
    const uint32_t b = pick_base(g, r);
    l.aseed          = b * 16 + (r.chance(1, 2) ? r.below(16) : pick_variant(b, r));
    l.dseed = l.fail_n = 0;
    if (r.chance(1, 4))
        l.dseed = 1 + r.below(r.chance(1, 2) ? 12 : 4000);
    else if ((ops[l.op].flags & OF_ALLOC) && r.chance(1, 4))
        l.fail_n = 1 + r.below(6);
    return l;
}
// A number next to one that the code compares integers with. Some runs keep to one such number.
static bool    themed;
static int64_t theme;
static bool hint(Rng &r, uint32_t often, uint64_t most, uint64_t &v)
{
    if (ints.empty() || !r.chance(themed ? 4 : 1, themed ? often + 3 : often))
        return false;
    const auto   &l = !hot_ints.empty() && r.chance(1, 2) ? hot_ints : ints;
    const int64_t c = themed && r.chance(5, 6) ? theme : l[r.below((uint32_t)l.size())];
    v               = (uint64_t)(c + (r.chance(1, 2) ? 0 : r.chance(1, 8) ? c : (int64_t)r.below(5) - 2));
    return v <= most;
}
// A call that scouting found worth making: one that touched hidden state, or one that reaches seldom executed code.
template <class F> static bool pick_lead(Rng &r, F ok, Lead &l)
{
    if (!scout || !scout->nblk)
        return false;
    const Scout &s = *scout;
    for (int tries = 0; tries < 20; tries++)
    {
        if (s.nsol && r.chance(1, 4))
            l = s.sol[r.below(s.nsol)];
        else if (s.nhid && r.chance(2, 3))
            l = s.lead[s.hid[r.below(s.nhid)]];
        else
        {
            const uint32_t a = s.blk[r.below(s.nblk)], b = s.blk[r.below(s.nblk)];
            const uint32_t c = s.hits[a] <= s.hits[b] ? a : b;
            l                = s.lead[s.at[c][r.below(s.nat[c])]];
        }
        if (ok(l.op) && (!(ops[l.op].flags & OF_HEAVY) || r.chance(1, 3)))
            return true;
    }
    return false;
}
static void pick_call(const Gen &g, Rng &r, Item &it)
{
    Lead l;
    if (r.chance(1, 3) && pick_lead(r, [](int) { return true; }, l))
    {
        it.op    = l.op;
        it.aseed = l.aseed;
        return;
    }
    it.op            = pick_op(r, [](int) { return true; });
    const uint32_t b = pick_base(g, r);
    it.aseed         = b * 16 + pick_variant(b, r);
}
template <class F> static Hot make_hot(const Gen &g, Rng &r, F ok)
{
    Hot            h;
    const uint32_t n = 1 + r.below(4);
    Lead           l;
    if (r.chance(1, 2) && pick_lead(r, ok, l))
    {
        const uint32_t nl = 1 + r.below(3);
        for (uint32_t i = 0; i < nl; i++)
        {
            if (i == 0 || pick_lead(r, ok, l))
            {
                h.lead.push_back(l);
                h.op.push_back(l.op);
                h.args.push_back(l.aseed);
                if (r.chance(1, 2))
                    h.args.push_back((l.aseed & ~15u) + r.below(16));
            }
            else
                break;
        }
        if (r.chance(1, 2))
        {
            const uint32_t b = pick_base(g, r);
            h.args.push_back(b * 16 + pick_variant(b, r));
        }
        return h;
    }
    h.op.push_back(pick_op(r, ok));
    const bool fam = r.chance(3, 5);
    for (uint32_t i = 1; i < n; i++)
        h.op.push_back(pick_op(r, [&](int o) { return ok(o) && (!fam || same_family(o, h.op[0])); }));
    const uint32_t nb = 1 + r.below(3);
    for (uint32_t i = 0; i < nb; i++)
    {
        const uint32_t b  = pick_base(g, r);
        const uint32_t nv = 1 + r.below(3);
        for (uint32_t v = 0; v < nv; v++)
            h.args.push_back(b * 16 + pick_variant(b, r));
    }
    return h;
}
static Item hot_call(const Hot &h, Rng &r)
{
    Item it;
    it.chk = 1;
    if (!h.lead.empty() && r.chance(1, 2))
    {
        const Lead &l = h.lead[r.below((uint32_t)h.lead.size())];
        it.op         = l.op;
        it.aseed      = l.aseed;
        return it;
    }
    it.op    = h.op[r.below((uint32_t)h.op.size())];
    it.aseed = h.args[r.below((uint32_t)h.args.size())];
    return it;
}

static void gen_threads(const Gen &g, Rng &r, Plan &p)
{
    Hot       h  = make_hot(g, r, [](int) { return true; });
    const int nt = 2 + (int)r.below(3);
    uint64_t  ev = 0;
    p.th.resize((size_t)nt);
    for (auto &t : p.th)
    {
        const int nc = 1 + (int)r.below(4);
        for (int i = 0; i < nc; i++)
        {
            t.push_back(hot_call(h, r));
            ev += get_ref(t.back().op, t.back().aseed, 0).events;
        }
    }
    p.race = true;
    p.hashes = r.chance(1, 3);
    p.sg.seed  = r.next();
    p.sg.maxsw = 2000;
    switch (r.below(5))
    {
    case 0: p.sg.mode = 1, p.sg.gap = 3 + r.below(20); break;
    case 1: p.sg.mode = 1, p.sg.gap = 20 + r.below(1000); break;
    case 2:
    case 3: p.sg.mode = 2, p.sg.gap = 50 + r.below(3000), p.sg.boost = 1 + r.below(6); break;
    default: p.sg.mode = 3, p.sg.gap = (uint32_t)(1 + ev / (uint64_t)(2 + nt)), p.sg.maxsw = 1 + r.below(5);
    }
    if (p.sg.gap * 1500ull < ev)
        p.sg.gap = (uint32_t)(ev / 1500);
}
static void gen_stall(const Gen &g, Rng &r, Plan &p)
{
    gen_threads(g, r, p);
    p.race   = false;
    p.hashes = false;
    const int t = r.chance(3, 4) ? 0 : (int)r.below((uint32_t)p.th.size());
    const int i = (int)r.below((uint32_t)p.th[(size_t)t].size());
    Item     &it = p.th[(size_t)t][(size_t)i];
    if (r.chance(1, 2))
        it.stall_sync = 1 + (r.chance(1, 2) ? r.below(4) : r.below(40));
    else
        it.stall_ev = (int64_t)r.below((uint32_t)get_ref(it.op, it.aseed, 0).events + 1);
}
static void gen_interrupt(const Gen &g, Rng &r, Plan &p)
{
    Hot       h  = make_hot(g, r, [](int) { return true; });
    const int nc = 1 + (int)r.below(3);
    p.th.resize(1);
    for (int i = 0; i < nc; i++)
    {
        Item it = hot_call(h, r);
        if (i == 0 || r.chance(2, 3))
        {
            const uint64_t        ev = get_ref(it.op, it.aseed, 0).events;
            const int             ni = 1 + (int)r.below(2);
            std::vector<uint32_t> at;
            for (int k = 0; k < ni; k++)
                at.push_back(r.below((uint32_t)ev + 1));
            std::sort(at.begin(), at.end());
            for (uint32_t e : at)
            {
                Intr      in;
                const int nn = 1 + (int)r.below(2);
                in.ev        = e;
                for (int k = 0; k < nn; k++)
                {
                    Nested n;
                    for (int tries = 0; tries < 6; tries++)
                    {
                        n.op    = r.chance(1, 2) ? it.op : h.op[r.below((uint32_t)h.op.size())];
                        n.aseed = h.args[r.below((uint32_t)h.args.size())];
                        const Ref &q = get_ref(n.op, n.aseed, 0);
                        if (q.ok && q.allocs == 0)
                        {
                            in.calls.push_back(n);
                            break;
                        }
                    }
                }
                if (!in.calls.empty())
                    it.intr.push_back(in);
            }
            if (!it.intr.empty() && r.chance(1, 2))
            {
                it.intr.resize(1);
                it.intr[0].ev = 0xfffffff0u;
                it.intr_sync  = 1 + (r.chance(1, 2) ? r.below(4) : r.below(40));
            }
        }
        p.th[0].push_back(it);
    }
}
static void gen_history(const Gen &g, Rng &r, Plan &p)
{
    Hot       h  = make_hot(g, r, [](int) { return true; });
    const int nc = r.chance(1, 8) ? 60 + (int)r.below(90) : 6 + (int)r.below(24);
    bool      heavy = false;
    for (int o : h.op)
        heavy |= (ops[o].flags & OF_HEAVY) != 0;
    const bool dam = r.chance(1, 2), oom = r.chance(1, 2);
    p.th.resize(1);
    for (int i = 0; i < (heavy ? std::min(nc, 12) : nc); i++)
    {
        Item it = r.chance(9, 10) ? hot_call(h, r) : Item();
        if (!it.chk)
        {
            it.op    = pick_op(r, [](int) { return true; });
            it.aseed = pick_base(g, r) * 16;
            it.chk   = 1;
        }
        const Lead *l = nullptr;
        for (auto &q : h.lead)
            if (q.op == it.op && q.aseed == it.aseed)
                l = &q;
        if (dam && r.chance(1, l && l->dseed ? 2 : 6))
        {
            it.dseed = l && l->dseed ? l->dseed : 1 + r.below(r.chance(1, 2) ? 12 : 4000);
            if (!get_ref(it.op, it.aseed, it.dseed).ok)
                it.dseed = 0;
        }
        if (oom && r.chance(1, l && l->fail_n ? 2 : 5))
        {
            const Ref &q = get_ref(it.op, it.aseed, it.dseed);
            if (q.allocs)
            {
                it.fail_n       = l && l->fail_n && r.chance(1, 2) ? l->fail_n : 1 + r.below(q.allocs);
                it.fail_persist = r.chance(1, 2);
                it.chk          = 0;
            }
        }
        p.th[0].push_back(it);
    }
    // a call made very often
    const bool hidden = scout && scout->nhid;
    if (r.chance(1, hidden ? 6 : 150))
    {
        Item it = p.th[0].back();
        if (hidden)
        {
            const Lead &l = scout->lead[scout->hid[r.below(scout->nhid)]];
            it            = Item();
            it.op = l.op, it.aseed = l.aseed;
        }
        it.dseed = it.fail_n = 0;
        it.chk               = 1;
        static const uint32_t often[] = {34, 66, 100, 130, 260, 516, 1000, 1028, 2050, 4100, 10000, 16390, 32770, 65540};
        uint64_t              v;
        const bool            slow = ops[it.op].flags & OF_HEAVY;
        it.rep  = hint(r, 2, slow ? 2000 : 100000, v) ? (uint32_t)v : often[r.below(!hidden || slow ? 5 : r.chance(1, 3) ? 14 : 10)];
        it.repv = r.chance(1, 3);
        p.th[0].push_back(it);
    }
    p.env.stack_fill = 257;
    p.env.reuse      = r.chance(1, 2);
    p.hashes         = r.chance(1, 2);
}
static void gen_ambient(const Gen &g, Rng &r, Plan &p)
{
    Item it;
    pick_call(g, r, it);
    it.chk = 1;
    if (r.chance(1, 6))
    {
        it.dseed = 1 + r.below(r.chance(1, 2) ? 12 : 4000);
        if (!get_ref(it.op, it.aseed, it.dseed).ok)
            it.dseed = 0;
    }
    const size_t slot = r.below(4);
    p.th.resize(slot + 1);
    p.th[slot].push_back(it);
    static const uint32_t fills[] = {0, 0xff, 0x7f, 0xaa, 0x3f, 0x01, 256, 256, 258, 258, 257};
    p.env.heap_fill               = fills[r.below(11)];
    p.env.stack_fill              = fills[r.below(11)];
    p.env.reuse                   = r.below(2);
    p.env.layout                  = r.chance(3, 4) ? 1 + r.below(100000) : 0;
    static const uint32_t errs[]  = {ERANGE, ERANGE, EDOM, EINTR, EAGAIN, ENOMEM, EINVAL, ENOENT};
    p.env.err                     = r.chance(1, 2) ? (r.chance(1, 2) ? errs[r.below(8)] : 1 + r.below(40)) : 0;
    static const uint32_t fl[]    = {0, 1, 4, 8, 16, 32, 61};
    p.env.fpflags                 = fl[r.below(7)];
    p.env.world                   = r.next() >> 16;
    p.fpmode                      = true;
    if (r.chance(1, 10)) // another mode: only that it survives the call is judged
    {
        p.env.fpin         = 1 + r.below(4);
        p.th[slot][0].chk  = 0;
    }
}
static void stream_history(Rng &r, const std::string &prop, std::vector<Item> &out, int sid, int len);
static std::vector<uint8_t> icc_bytes(Rng &r);

static void gen_io(const Gen &g, Rng &r, Plan &p)
{
    p.iocheck = true;
    p.env.iomode = r.chance(1, 4) ? 1 + r.below(3) : 0;
    p.th.resize(1);
    const int nc = 1 + (int)r.below(4);
    for (int i = 0; i < nc; i++)
    {
        const uint32_t w = r.below(10);
        if (w == 0)
        {
            stream_history(r, "C06", p.th[0], 0, 4 + (int)r.below(12));
            break;
        }
        Item it;
        if (w == 1)
        {
            it.type = IT_ICC;
            it.buf  = icc_bytes(r);
        }
        else
        {
            pick_call(g, r, it);
            if (r.chance(1, 2))
                it.dseed = 1 + r.below(1000);
            else if (r.chance(1, 2) && (ops[it.op].flags & OF_ALLOC))
            {
                it.fail_n       = 1 + r.below(get_ref(it.op, it.aseed, 0).allocs + 1);
                it.fail_persist = r.chance(1, 2);
            }
        }
        p.th[0].push_back(it);
    }
}
static void gen_phases(const Gen &g, Rng &r, Plan &p)
{
    p.phases = true;
    p.hashes = true;
    p.th.resize(1);
    const int  nc  = 4 + (int)r.below(20);
    const bool one = r.chance(1, 3); // all calls in one phase
    const int  only = r.chance(1, 2) ? 0 : 2;
    for (int i = 0; i < nc; i++)
    {
        Item it;
        pick_call(g, r, it);
        it.chk           = 1;
        it.phase         = one ? only : (int)r.below(3);
        p.th[0].push_back(it);
        if (r.chance(1, 3)) // the same call again later
        {
            it.phase = 2;
            p.th[0].push_back(it);
        }
    }
    std::stable_sort(p.th[0].begin(), p.th[0].end(), [](const Item &a, const Item &b) { return a.phase < b.phase; });
    static const uint32_t fills[] = {0, 0xff, 0x7f, 256, 258, 0xaa};
    p.env.heap_fill               = fills[r.below(6)];
}
static void gen_oom(const Gen &g, Rng &r, Plan &p)
{
    auto can = [](int o) { return (ops[o].flags & OF_ALLOC) && strncmp(ops[o].name, "Stream.", 7) != 0; };
    // any computation that turns out to allocate counts, whatever its flags say
    Item it;
    for (int tries = 0; tries < 20; tries++)
    {
        it.op            = r.chance(3, 4) ? pick_op(r, can) : pick_op(r, [](int o) { return !(ops[o].flags & OF_STREAM); });
        const uint32_t b = pick_base(g, r);
        it.aseed         = b * 16 + pick_variant(b, r);
        Lead l;
        if (scout && scout->nal && r.chance(1, 4))
            l = scout->lead[scout->al[r.below(scout->nal)]], it.op = l.op, it.aseed = l.aseed;
        else if (r.chance(1, 6) && pick_lead(r, [](int) { return true; }, l))
            it.op = l.op, it.aseed = l.aseed;
        if (strncmp(ops[it.op].name, "Stream.", 7) != 0 && get_ref(it.op, it.aseed, 0).allocs)
            break;
    }
    const Ref q = get_ref(it.op, it.aseed, 0);
    it.chk      = 1;
    p.th.resize(r.chance(1, 6) ? 2 : 1);
    const bool warm = r.chance(2, 3);
    auto      &t    = p.th[0];
    if (warm)
        t.push_back(it);
    const int nf = 1 + (int)r.below(3);
    for (int i = 0; i < nf; i++)
    {
        Item f         = it;
        f.chk          = 2;
        f.fail_n       = 1 + r.below(q.allocs + (r.chance(1, 8) ? 2 : 0));
        f.fail_persist = r.chance(1, 2);
        f.leak         = warm && p.th.size() == 1;
        t.push_back(f);
    }
    Item again = it;
    again.leak = warm && p.th.size() == 1;
    t.push_back(again);
    if (p.th.size() == 2)
    {
        p.th[1].push_back(it);
        p.sg.mode = 1, p.sg.gap = 200 + r.below(3000), p.sg.seed = r.next(), p.sg.maxsw = 500;
    }
    p.hashes = r.chance(1, 4);
    p.env.heap_fill = r.chance(1, 2) ? 257 : 0xdb;
    p.env.reuse     = r.below(2);
}

// ------------------------------------------------------------------ streams
struct Mark
{
    size_t pos;
    int    get; // operation that reads it back
    int    len;
    bool   big;
};
struct SState
{
    Model             m;
    std::vector<Mark> marks;
    std::vector<std::pair<size_t, int>> slots;
};
static uint64_t typed_value(Rng &r, int code)
{
    static const uint64_t s[] = {0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000ull, 0xffffffffull,
        0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0x0102030405060708ull, 0x8090a0b0c0d0e0f0ull, 0x00ff00ff00ff00ffull};
    static const uint32_t half[] = {0, 1, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffffeu};
    uint64_t v = r.chance(1, 2) ? s[r.below(21)] : r.next();
    hint(r, 12, ~0ull, v);
    if (r.chance(1, 4)) // each half an edge of its own, or any number
        v = (uint64_t)(r.chance(3, 4) ? half[r.below(6)] : (uint32_t)r.next()) << 32 | (r.chance(1, 2) ? half[r.below(6)] : (uint32_t)r.next());
    if (code == S_PF)
    {
        static const uint32_t f[] = {0, 0x80000000u, 0x3f800000u, 0xbf800000u, 0x7f800000u, 0xff800000u, 1, 0x00800000u, 0x7f7fffffu, 0x3eaaaaabu, 0x7fc00000u, 0x7fc12345u, 0xffc00000u};
        v = r.chance(1, 2) ? f[r.below(13)] : (uint32_t)r.next();
        if ((v & 0x7f800000) == 0x7f800000 && (v & 0x7fffff))
            v |= 0x00400000u; // quiet
    }
    if (code == S_PD)
    {
        static const uint64_t f[] = {0, 1ull << 63, 0x3ff0000000000000ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 1, 0x3fd5555555555555ull, 0x7ff8000000000000ull, 0xfff8000000000000ull, 0x7ff8000012345678ull};
        v = r.chance(1, 2) ? f[r.below(10)] : r.next();
        if ((v & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (v & 0xfffffffffffffull))
            v |= 0x0008000000000000ull;
    }
    return v;
}
// a number next to a power of two
static size_t edge(Rng &r)
{
    static const uint32_t e[] = {128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 65536, 65536, 131072};
    return e[r.below(13)] - 2 + r.below(5);
}
static bool long_data; // now and then a very long piece of data
static size_t some_len(Rng &r)
{
    if (long_data && r.chance(1, 12))
        return 20000 + r.below(200000);
    static const uint32_t s[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1023, 1024, 1025};
    uint64_t v;
    if (hint(r, 14, 100000, v) && (v < 3000 || r.chance(1, 4)))
        return v;
    if (r.chance(1, 40))
        return r.chance(1, 40) ? edge(r) : 1000 + r.below(9000);
    return r.chance(1, 2) ? s[r.below(10)] : r.chance(1, 2) ? s[r.below(32)] : r.below(40);
}
// lengths to ask for when reading: sometimes "everything there is"
static uint64_t read_len(Rng &r, uint64_t pos)
{
    if (!r.chance(1, 12))
        return some_len(r);
    static const uint64_t s[] = {~0ull, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x100000000ull};
    return r.chance(1, 2) ? s[r.below(7)] : 0 - pos + r.below(20) - 2;
}
// a position that only a read may name: far beyond anything that could be stored, often with a stored position in its low bits
static uint64_t far_pos(Rng &r, const Model &m)
{
    static const uint64_t far[] = {0x80000000ull, 0x100000000ull, 0x100000000ull, 0x200000000ull, 0x7fffffff00000000ull, 0x8000000000000000ull, 0xffffffff00000000ull, 0x10000000000ull};
    return r.chance(1, 8) ? ~0ull - r.below(4) : far[r.below(8)] + (r.chance(3, 4) ? r.below((uint32_t)m.b.size() + 2) : r.below(1 << 20));
}
// a range that lies wholly inside the data and has a round length
static bool round_range(Rng &r, const Model &m, uint64_t &pos, uint64_t &len)
{
    const size_t n = m.b.size();
    if (n < 64 || !r.chance(1, 5))
        return false;
    int most = 6;
    while (most < 14 && (2ull << most) <= n)
        most++;
    len = (r.chance(1, 2) ? 1ull << most : 64ull << r.below((uint32_t)most - 5)) + (uint64_t)(r.chance(1, 2) ? 0 : (int64_t)r.below(3) - 1);
    if (len > n)
        return false;
    pos = r.chance(1, 4) ? (r.chance(1, 2) ? 0 : n - len) : r.below((uint32_t)(n - len) + 1);
    return true;
}
static uint64_t some_pos(Rng &r, const Model &m, bool beyond)
{
    const size_t n = m.b.size();
    uint64_t     v;
    if (hint(r, 12, beyond ? n + 5000 : n, v))
        return r.chance(1, 4) && v <= n ? n - v : v;
    if (n > 130 && r.chance(1, 8)) // a distance from either end next to a power of two
    {
        const size_t e = edge(r);
        if (e <= n)
            return r.chance(1, 2) ? e : n - e;
    }
    switch (r.below(beyond ? 10 : 7))
    {
    case 0: return 0;
    case 1: return n ? n - 1 : 0;
    case 2: return n;
    case 3: return m.cur;
    case 4: return m.cur ? m.cur - 1 : 0;
    case 5:
    case 6: return n ? r.below((uint32_t)n + 1) : 0;
    case 7: return n + 1;
    case 8: return n + r.below(40);
    default: return r.chance(1, 30) ? n + r.below(140000) : r.chance(1, 4) ? n + r.below(5000) : n + 2;
    }
}
static std::vector<uint8_t> some_bytes(Rng &r, size_t n)
{
    std::vector<uint8_t> b(n);
    const uint32_t       k = r.below(4);
    for (size_t i = 0; i < n; i++)
        b[i] = k == 0 ? (uint8_t)(i + 1) : k == 1 ? (uint8_t)(r.below(3) * 0x7f + r.below(2)) : (uint8_t)r.next();
    if (n && r.chance(1, 5)) // pieces that mean something elsewhere
    {
        static const struct { const char *s; size_t n; } w[] = {{"\xef\xbb\xbf", 3}, {"\xff\xfe", 2}, {"\xfe\xff", 2}, {"\r\n", 2}, {"\n", 1}, {"\0", 1}, {"\0\0\0\0", 4}, {" ", 1}, {"  ", 2},
            {"\x1a", 1}, {"\xff", 1}, {"\xff\xff\xff\xff", 4}, {"%s%n", 4}, {"\\", 1}, {"\"", 1}, {"\xc3\xa9", 2}, {"\xc3", 1}, {"\t", 1}, {"acsp", 4}, {"\x7f", 1}};
        const auto  &p  = w[r.below(sizeof w / sizeof w[0])];
        const size_t m  = std::min(n, p.n);
        const size_t at = r.chance(1, 3) ? 0 : r.chance(1, 2) ? n - m : r.below((uint32_t)(n - m) + 1);
        memcpy(b.data() + at, p.s, m);
    }
    return b;
}
struct Weights
{
    int raw, u8, typed, endian, ptr, align, str, seek, misc, life, shrink, markread;
};
static Weights weights(const std::string &p)
{
    //                        raw u8 typ end ptr al str seek mis life shr mark
    if (p == "C09") return {10, 5, 1, 0, 0, 0, 0, 7, 3, 1, 1, 0};
    if (p == "C10") return {1, 5, 10, 4, 0, 0, 0, 4, 1, 1, 1, 6};
    if (p == "C11") return {2, 2, 3, 2, 9, 4, 1, 4, 1, 1, 1, 3};
    if (p == "C12") return {1, 2, 2, 2, 0, 0, 9, 3, 1, 1, 1, 7};
    if (p == "C14") return {4, 3, 4, 1, 2, 1, 4, 3, 1, 2, 5, 2};
    return {4, 3, 4, 2, 2, 1, 3, 4, 1, 1, 1, 3};
}
static bool push(SState &s, std::vector<Item> &out, const Item &it)
{
    Model t = s.m;
    Exp   e;
    if (!model_apply(t, it, e))
        return false;
    s.m = t;
    out.push_back(it);
    return true;
}
static Item st_item(int sid, int code, uint64_t u = 0, uint64_t n = 0)
{
    Item it;
    it.type = IT_STREAM;
    it.sid  = sid;
    it.code = code;
    it.u    = u;
    it.n    = n;
    return it;
}
static void stream_op(Rng &r, const Weights &w, SState &s, std::vector<Item> &out, int sid)
{
    const int tot = w.raw + w.u8 + w.typed + w.endian + w.ptr + w.align + w.str + w.seek + w.misc + w.life + w.shrink + w.markread;
    for (int tries = 0; tries < 12; tries++)
    {
        int  k  = (int)r.below((uint32_t)tot);
        Item it = st_item(sid, 0);
        Mark mk{s.m.cur, -1, 0, s.m.wb};
        auto in = [&](int v) {
            if (k < v)
                return true;
            k -= v;
            return false;
        };
        if (in(w.raw))
        {
            static const int c[] = {S_WRITE, S_WRITE, S_READ, S_WRITE_AT, S_WRITE_AT, S_READ_AT, S_PUT_AT, S_GET_AT};
            it.code              = c[r.below(8)];
            switch (it.code)
            {
            case S_WRITE: it.buf = some_bytes(r, some_len(r)); break;
            case S_WRITE_AT:
                it.buf = some_bytes(r, some_len(r));
                it.u   = some_pos(r, s.m, !it.buf.empty());
                break;
            case S_READ: it.n = read_len(r, s.m.cur); break;
            case S_READ_AT: it.u = r.chance(1, 16) ? far_pos(r, s.m) : some_pos(r, s.m, true), it.n = read_len(r, it.u); break;
            case S_PUT_AT: it.u = some_pos(r, s.m, true), it.n = r.below(256); break;
            default: it.u = r.chance(1, 10) ? far_pos(r, s.m) : some_pos(r, s.m, true);
            }
            uint64_t q, z;
            if (it.code != S_PUT_AT && it.code != S_GET_AT && round_range(r, s.m, q, z))
            {
                if (it.code == S_READ || it.code == S_WRITE)
                    push(s, out, st_item(sid, S_SEEKTO, q));
                else
                    it.u = q;
                if (it.code == S_READ || it.code == S_READ_AT)
                    it.n = z;
                else
                    it.buf = some_bytes(r, (size_t)z);
            }
        }
        else if (in(w.u8))
        {
            static const int c[] = {S_PU8, S_PU8, S_PI8, S_GU8, S_GI8};
            it.code              = c[r.below(5)];
            it.u                 = typed_value(r, it.code) & 0xff;
            if (it.code == S_PU8)
                mk.get = S_GU8;
            if (it.code == S_PI8)
                mk.get = S_GI8;
        }
        else if (in(w.typed))
        {
            if (r.chance(3, 5))
            {
                it.code = S_PU16 + (int)r.below(S_PD - S_PU16 + 1);
                it.u    = typed_value(r, it.code);
                mk.get  = S_GU16 + (it.code - S_PU16);
            }
            else
                it.code = S_GU16 + (int)r.below(S_GD - S_GU16 + 1);
        }
        else if (in(w.endian))
            it.code = S_RLE + (int)r.below(4);
        else if (in(w.ptr))
        {
            const uint32_t z = r.below(6);
            if (z < 2)
            {
                it.code = S_PP32 + (int)z;
                mk.get  = S_GP32 + (int)z;
            }
            else if (z < 5 && !s.slots.empty())
            {
                const auto &q = s.slots[r.below((uint32_t)s.slots.size())];
                it.code       = q.second == 4 ? S_ADJ32 : S_ADJ64;
                it.u          = q.first;
            }
            else
                it.code = S_GP32 + (int)r.below(2);
        }
        else if (in(w.align))
        {
            static const int a[] = {1, 2, 3, 4, 5, 7, 8, 12, 16, 32, 64, 96, 100, 127, 128, 255, 256, 257, 512, 1000, 1024, 4096};
            it.code              = S_ALIGN;
            it.u                 = (uint64_t)a[r.below(r.chance(1, 2) ? 11 : 22)];
            uint64_t v;
            if (hint(r, 10, 65536, v) && v)
                it.u = v;
            if (r.chance(1, 3)) // nearly aligned already, or nearly a whole step to go
            {
                const size_t q = s.m.cur + 2 - r.below(5);
                const size_t d = 1 + r.below(6);
                if (q >= d && q % d == 0 && q / d < 65536)
                    it.u = q / d;
            }
        }
        else if (in(w.str))
        {
            const uint32_t z = r.below(8);
            if (z < 5)
            {
                it.code = z < 3 ? S_PUTSTR : S_PUTSUB;
                it.buf  = some_bytes(r, some_len(r));
                if (r.chance(1, 60))
                    it.buf = some_bytes(r, r.chance(1, 3) ? 65530 + r.below(12) : 20000 + r.below(60000));
                if (it.code == S_PUTSUB)
                {
                    it.u   = r.chance(1, 4) ? 0 : r.chance(1, 2) ? it.buf.size() + 1 : r.below((uint32_t)it.buf.size() + 2);
                    mk.len = (int)it.u;
                }
                mk.get = it.code == S_PUTSTR ? S_GETSTR : S_GETSUB;
            }
            else
            {
                it.code = S_GETSUB;
                it.u    = r.chance(1, 3) ? r.below(3) : r.below(40);
            }
        }
        else if (in(w.seek))
        {
            static const int c[] = {S_SEEK_TOP, S_SEEK_CUR, S_SEEK_END, S_SEEKTO, S_SEEKTO};
            it.code              = c[r.below(5)];
            const uint64_t to    = some_pos(r, s.m, false);
            if (it.code == S_SEEK_TOP || it.code == S_SEEKTO)
                it.u = to;
            else if (it.code == S_SEEK_CUR)
                it.u = (uint64_t)((int64_t)to - (int64_t)s.m.cur);
            else if (s.m.b.empty() || to >= s.m.b.size())
                continue;
            else
                it.u = s.m.b.size() - 1 - to;
        }
        else if (in(w.misc))
        {
            static const int c[] = {S_TELL, S_MARK, S_FEOF, S_PTR};
            it.code              = c[r.below(4)];
            if (it.code == S_PTR)
                it.u = some_pos(r, s.m, false);
            if (r.chance(1, 30))
            {
                it.code = S_INIT;
                it.buf  = some_bytes(r, 1 + some_len(r));
                if (r.chance(1, 3)) // as long as, or a little shorter than, what is there
                    it.buf = some_bytes(r, std::max<size_t>(1, s.m.b.size() - std::min<size_t>(s.m.b.size(), r.below(3))));
            }
        }
        else if (in(w.life))
        {
            it.code = SM_RELOAD;
            it.u    = 0;
        }
        else if (in(w.shrink))
            it.code = S_SHRINK;
        else
        {
            if (s.marks.empty())
                continue;
            const Mark q = s.marks[r.below((uint32_t)s.marks.size())];
            if (q.pos > s.m.b.size())
                continue;
            if (!push(s, out, st_item(sid, S_SEEKTO, q.pos)))
                continue;
            if (q.get == S_GETSTR || r.chance(2, 3))
                if (s.m.rb != q.big)
                    push(s, out, st_item(sid, q.big ? S_RBE : S_RLE));
            Item g = st_item(sid, q.get);
            g.u    = (uint64_t)q.len;
            push(s, out, g);
            return;
        }
        if (!push(s, out, it))
            continue;
        if (mk.get >= 0)
        {
            // a mark is good as long as nothing is written over it; forget those that were
            if (s.marks.size() >= 24)
                s.marks.erase(s.marks.begin());
            s.marks.push_back(mk);
        }
        if (it.code == S_PP32 || it.code == S_PP64)
            s.slots.push_back({mk.pos, it.code == S_PP32 ? 4 : 8});
        if (it.code == S_INIT)
            s.marks.clear(), s.slots.clear();
        return;
    }
}
static void start_stream(Rng &r, SState &s, std::vector<Item> &out, int sid)
{
    Item it = st_item(sid, SM_NEW);
    if (r.chance(1, 2))
    {
        it.code = SM_NEWMEM;
        it.buf  = some_bytes(r, r.chance(1, 12) ? 200 + r.below(12000) : r.chance(1, 150) ? (r.chance(1, 2) ? 65530 + r.below(12) : 60000 + r.below(80000)) : 1 + some_len(r));
    }
    push(s, out, it);
}
static void stream_history(Rng &r, const std::string &prop, std::vector<Item> &out, int sid, int len)
{
    SState s;
    start_stream(r, s, out, sid);
    Weights w = weights(prop);
    // swarm: drop some groups for this history
    if (r.chance(1, 2))
    {
        int *f[] = {&w.raw, &w.u8, &w.typed, &w.endian, &w.ptr, &w.align, &w.str, &w.seek, &w.misc, &w.life, &w.shrink, &w.markread};
        for (int *q : f)
            if (*q < 5 && r.chance(1, 3))
                *q = 0;
    }
    if (r.chance(1, 4000)) // more than 2^24 bytes
    {
        stream_op(r, w, s, out, sid);
        push(s, out, st_item(sid, S_PUT_AT, (1u << 24) + r.below(2000), r.below(256)));
        len = std::min(len, 12);
    }
    for (int i = 0; i < len; i++)
        stream_op(r, w, s, out, sid);
}
// in some runs the state is looked at only now and then, as a caller would
static void look_away(Rng &r, std::vector<Item> &v)
{
    if (!r.chance(1, 5))
        return;
    const uint32_t d = 2 + r.below(8);
    for (size_t i = 0; i + 1 < v.size(); i++)
        if (!r.chance(1, d))
            v[i].chk = 3;
}
static void gen_stream(const Gen &g, Rng &r, Plan &p)
{
    p.shared = false;
    p.th.resize(1);
    stream_history(r, g.prop, p.th[0], 0, r.chance(1, 6) ? 40 + (int)r.below(80) : 4 + (int)r.below(26));
    look_away(r, p.th[0]);
    p.env.reuse     = r.below(2);
    p.env.heap_fill = r.chance(1, 2) ? 257 : r.chance(1, 2) ? 256 : 0xcd;
}
static void gen_damaged(const Gen &g, Rng &r, Plan &p)
{
    (void)g;
    p.shared = false;
    p.th.resize(1);
    auto   &out = p.th[0];
    SState  s;
    Weights w = weights("C13");
    w.life    = 0;
    start_stream(r, s, out, 0);
    const int rounds = 1 + (int)r.below(2);
    for (int q = 0; q < rounds; q++)
    {
        const int nb = 2 + (int)r.below(20);
        for (int i = 0; i < nb; i++)
            stream_op(r, w, s, out, 0);
        Item d = st_item(0, SM_RELOAD);
        const size_t n = s.m.b.size();
        switch (r.below(8))
        {
        case 0: d.u = 0; break;
        case 1:
        case 2: d.u = 1, d.n = r.chance(1, 2) ? r.below((uint32_t)n + 1) : n - std::min<size_t>(n, 1 + r.below(9)); break;
        case 3:
        case 4:
            d.u = 2, d.n = r.below((uint32_t)n + 1);
            if (r.chance(1, 2) && !s.marks.empty())
                d.n = s.marks[r.below((uint32_t)s.marks.size())].pos + r.below(4);
            d.buf.assign(1 + r.below(3), 0);
            for (auto &b : d.buf)
                b = r.chance(1, 3) ? 0xff : (uint8_t)(1u << r.below(8));
            break;
        case 5: d.u = 3, d.n = r.below((uint32_t)n + 1), d.buf.assign(1 + r.below(64), 0); break;
        default:
            d.u = 4, d.n = r.below((uint32_t)n + 1);
            if (r.chance(1, 2) && !s.marks.empty())
                d.n = s.marks[r.below((uint32_t)s.marks.size())].pos;
            d.buf = some_bytes(r, 1 + r.below(80));
            if (r.chance(1, 3))
                d.buf.assign(1 + r.below(12), 0xff);
        }
        push(s, out, d);
        const int nr = 4 + (int)r.below(20);
        for (int i = 0; i < nr; i++)
        {
            switch (r.below(9))
            {
            case 0:
            case 1: { // follow the layout that was written
                if (s.marks.empty())
                    break;
                const Mark mk = s.marks[r.below((uint32_t)s.marks.size())];
                push(s, out, st_item(0, S_SEEKTO, mk.pos));
                if (s.m.rb != mk.big)
                    push(s, out, st_item(0, mk.big ? S_RBE : S_RLE));
                Item x = st_item(0, mk.get);
                x.u    = (uint64_t)mk.len;
                push(s, out, x);
                break;
            }
            case 2: push(s, out, st_item(0, S_GU8 + (int)r.below(S_GD - S_GU8 + 1))); break;
            case 3: { // use a stored number as an offset or a length
                uint64_t v = 0;
                const size_t at = s.m.b.empty() ? 0 : r.below((uint32_t)s.m.b.size());
                const int    nb2 = r.chance(1, 2) ? 4 : 8;
                for (int k = 0; k < nb2; k++)
                    v |= (uint64_t)(at + (size_t)k < s.m.b.size() ? s.m.b[at + (size_t)k] : 0) << (8 * (s.m.rb ? nb2 - 1 - k : k));
                if (nb2 == 4 && r.chance(1, 3))
                    v = (uint64_t)(int64_t)(int32_t)v;
                switch (r.below(3))
                {
                case 0: push(s, out, st_item(0, S_READ_AT, v, read_len(r, v))); break;
                case 1: push(s, out, st_item(0, S_GET_AT, v)); break;
                default: push(s, out, st_item(0, S_GETSUB, (uint64_t)(int64_t)(int32_t)v));
                }
                break;
            }
            case 4: { // offsets at and around the limits
                static const uint64_t lim[] = {0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull,
                    0xffffffffffffffffull, 0xfffffffffffffff0ull, 0x100000001ull};
                uint64_t v = r.chance(1, 2) ? lim[r.below(9)] : s.m.b.size() + r.below(3);
                if (r.chance(1, 4))
                    v += r.below(16);
                push(s, out, r.chance(1, 2) ? st_item(0, S_READ_AT, v, read_len(r, v)) : st_item(0, S_GET_AT, v));
                break;
            }
            case 5: push(s, out, st_item(0, S_GETSTR)); break;
            case 6: push(s, out, st_item(0, S_READ, 0, read_len(r, s.m.cur))); break;
            case 7: push(s, out, st_item(0, S_SEEKTO, some_pos(r, s.m, false))); break;
            default: push(s, out, r.chance(1, 2) ? st_item(0, r.chance(1, 2) ? S_GP32 : S_GP64) : st_item(0, S_GETSUB, r.below(60))); break;
            }
        }
        s.marks.clear();
        s.slots.clear();
    }
    look_away(r, out);
    p.env.reuse     = r.below(2);
    p.env.heap_fill = r.chance(1, 2) ? 257 : 256;
}
static void gen_stream_oom(const Gen &g, Rng &r, Plan &p)
{
    gen_stream(g, r, p);
    if (r.chance(1, 3)) // the stream is copied, and assigned to its copy and back, between the other operations
    {
        auto  &v  = p.th[0];
        size_t at = v.empty() ? 0 : 1 + r.below((uint32_t)v.size());
        for (int i = 0, n = 1 + (int)r.below(4); i < n; i++)
        {
            Item it = i == 0 ? st_item(1, SM_COPY) : st_item(0, SM_ASSIGN);
            if (i && r.chance(2, 3))
                it.sid = 1;
            it.sid2 = 1 - it.sid;
            it.u    = r.chance(1, 2) ? 0 : r.below(4);
            v.insert(v.begin() + (long)std::min(at, v.size()), it);
            at += 1 + r.below(6);
        }
    }
    const uint32_t den = 1 + r.below(4);
    for (auto &it : p.th[0])
        if (it.code != SM_DEL && r.chance(1, den + 1))
        {
            it.fail_n       = 1 + (r.chance(1, 3) ? r.below(4) : 0);
            it.fail_persist = r.chance(1, 2);
        }
    // later items that no longer fit the stream after a failure are skipped by the executor
}
static void gen_streams(const Gen &g, Rng &r, Plan &p)
{
    (void)g;
    p.shared      = false;
    const int  nt = r.chance(1, 2) ? 1 : 2 + (int)r.below(2);
    SState     s[16];
    const Weights w = weights("C15");
    auto copy_of = [&](std::vector<Item> &out, int from, int to, bool assign) {
        Item it  = st_item(to, assign ? SM_ASSIGN : SM_COPY, r.chance(1, 2) ? 0 : r.below(4));
        it.sid2  = from;
        s[to]    = s[from];
        out.push_back(it);
    };
    start_stream(r, s[0], p.pro, 0);
    for (int i = 0, n = (int)r.below(8); i < n; i++)
        stream_op(r, w, s[0], p.pro, 0);
    int nx = 1;
    // copies made before the threads start; each thread then uses its own two streams
    const int per = nt == 1 ? 4 : 2;
    std::vector<std::vector<int>> own((size_t)nt);
    for (int t = 0; t < nt; t++)
        for (int k = 0; k < per; k++)
        {
            int id = nx++;
            if (r.chance(2, 3))
                copy_of(p.pro, (int)r.below((uint32_t)id), id, false);
            else
                start_stream(r, s[id], p.pro, id);
            own[(size_t)t].push_back(id);
        }
    own[0].push_back(0);
    p.th.resize((size_t)nt);
    for (int t = 0; t < nt; t++)
    {
        auto     &out = p.th[(size_t)t];
        auto     &o   = own[(size_t)t];
        const int n   = 4 + (int)r.below(nt == 1 ? 30 : 14);
        for (int i = 0; i < n; i++)
        {
            const int id = o[r.below((uint32_t)o.size())];
            if (!s[id].m.live)
            {
                start_stream(r, s[id], out, id);
                continue;
            }
            switch (r.below(14))
            {
            case 0:
            case 1: push(s[id], out, st_item(id, r.chance(1, 2) ? SM_SCRIB : SM_SRCFREE, r.below(1000))); break;
            case 2: {
                const int other = o[r.below((uint32_t)o.size())];
                if (s[other].m.live)
                    copy_of(out, other, id, true);
                break;
            }
            case 3:
                if (r.chance(1, 3))
                {
                    push(s[id], out, st_item(id, SM_DEL));
                    s[id] = SState();
                }
                break;
            default: stream_op(r, w, s[id], out, id);
            }
        }
        // look at everything again at the end
        for (int id : o)
            if (s[id].m.live)
                push(s[id], out, st_item(id, S_READ_AT, 0, std::min<size_t>(s[id].m.b.size() + 1, 60000)));
    }
    if (r.chance(1, 2))
    {
        look_away(r, p.pro);
        for (auto &v : p.th)
            look_away(r, v);
    }
    if (nt > 1)
    {
        p.race     = true;
        p.sg.seed  = r.next();
        p.sg.maxsw = 1500;
        p.sg.mode  = 1 + (int)r.below(2);
        p.sg.gap   = r.chance(1, 2) ? 3 + r.below(30) : 30 + r.below(400);
        p.sg.boost = 1 + r.below(6);
    }
    p.env.reuse     = r.below(2);
    p.env.heap_fill = r.chance(1, 2) ? 257 : 0xcd;
}

// ------------------------------------------------------------------ damaged measurement data
static void gen_measure(const Gen &g, Rng &r, Plan &p)
{
    p.th.resize(1);
    p.step_cap = 20000000;
    if (r.chance(2, 5)) // many colours and spectra, some of their elements damaged
    {
        const bool elem = r.chance(1, 8);
        const int  n    = elem ? 2 : 4 + (int)r.below(20);
        for (int i = 0; i < n; i++)
        {
            Item d;
            d.op    = pick_op(r, [&](int o) { return (ops[o].flags & (elem ? OF_ELEM : OF_CHAN | OF_CHAN2)) != 0; });
            d.aseed = (300000 + r.below(20000000)) * 16;
            d.dseed = 1 + r.below(0xfffff0);
            d.twin  = true;
            d.chk   = 0;
            p.th[0].push_back(d);
        }
        return;
    }
    Hot       h  = make_hot(g, r, [](int) { return true; });
    const int nc = 1 + (int)r.below(4);
    for (int i = 0; i < nc; i++)
    {
        Item      d  = hot_call(h, r);
        const int fl = ops[d.op].flags;
        d.chk        = 0;
        d.dseed      = 1 + r.below(0xfffff0);
        for (auto &q : h.lead)
            if (q.op == d.op && q.aseed == d.aseed && q.dseed && r.chance(1, 2))
                d.dseed = q.dseed;
        d.twin       = (fl & (OF_CHAN | OF_CHAN2 | OF_ELEM)) && r.chance(3, 4);
        p.th[0].push_back(d);
        if (r.chance(1, 2))
        {
            Item c = hot_call(h, r);
            if (r.chance(1, 2))
                c.op = d.op, c.aseed = d.aseed;
            p.th[0].push_back(c);
        }
    }
    p.env.reuse      = r.below(2);
    p.env.heap_fill  = r.chance(1, 2) ? 257 : 258;
    p.env.stack_fill = r.chance(1, 2) ? 257 : 0;
}

// ------------------------------------------------------------------ profiles
static void be32(std::vector<uint8_t> &b, size_t at, uint32_t v)
{
    for (int i = 0; i < 4; i++)
        if (at + (size_t)i < b.size())
            b[at + (size_t)i] = (uint8_t)(v >> (24 - 8 * i));
}
static void tag4(std::vector<uint8_t> &b, size_t at, const char *t)
{
    for (int i = 0; i < 4; i++)
        if (at + (size_t)i < b.size())
            b[at + (size_t)i] = (uint8_t)t[i];
}
static std::vector<uint8_t> icc_bytes(Rng &r)
{
    std::vector<uint8_t> b;
    if (r.chance(1, 6))
        return some_bytes(r, long_data && r.chance(1, 2) ? 20000 + r.below(300000) : r.chance(1, 2) ? r.below(8) : r.below(600));
    const uint32_t nt = 3 + r.below(6);
    const size_t   data = 128 + 4 + 12 * nt;
    b.assign(data + nt * 20 + r.below(64), 0);
    be32(b, 0, (uint32_t)b.size());
    tag4(b, 4, "lcms");
    be32(b, 8, 0x02400000 + (r.below(3) << 20));
    tag4(b, 12, "mntr");
    tag4(b, 16, "RGB ");
    tag4(b, 20, "XYZ ");
    tag4(b, 36, "acsp");
    tag4(b, 40, "MSFT");
    be32(b, 68, 0xf6d6), be32(b, 72, 0x10000), be32(b, 76, 0xd32d);
    be32(b, 128, nt);
    static const char *const names[] = {"rXYZ", "gXYZ", "bXYZ", "wtpt", "desc", "rTRC", "gTRC", "bTRC", "cprt"};
    for (uint32_t i = 0; i < nt; i++)
    {
        const size_t at = data + i * 20;
        tag4(b, 132 + 12 * i, names[i]);
        be32(b, 132 + 12 * i + 4, (uint32_t)at);
        be32(b, 132 + 12 * i + 8, 20);
        static const uint32_t prim[4][3] = {{0x6fa2, 0x38f5, 0x0390}, {0x6299, 0xb785, 0x18da}, {0x24a0, 0x0f84, 0xb6cf}, {0xf351, 0x10000, 0x116cc}};
        if (i < 4)
        {
            tag4(b, at, "XYZ ");
            for (uint32_t k = 0; k < 3; k++)
                be32(b, at + 8 + 4 * k, prim[i][k]);
        }
        else if (i == 4)
        {
            tag4(b, at, "desc");
            be32(b, at + 8, 8);
            for (uint32_t k = 0; k < 7; k++)
                b[at + 12 + k] = (uint8_t)('a' + r.below(26));
        }
        else
        {
            tag4(b, at, "curv");
            be32(b, at + 8, 1);
        }
    }
    const uint32_t nd = r.below(4);
    for (uint32_t i = 0; i < nd && !b.empty(); i++)
        switch (r.below(ints.empty() ? 8 : 9))
        {
        case 8: { // a number that the code knows
            uint64_t v = 0;
            hint(r, 1, ~0ull, v);
            if (b.size() < 4)
                break;
            const size_t at = (r.chance(1, 2) ? r.below((uint32_t)b.size() - 3) : r.below(std::min(44u, (uint32_t)b.size() / 4)) * 4);
            if (r.chance(1, 3))
                b[at] = (uint8_t)v;
            else if (r.chance(1, 4))
                memcpy(b.data() + at, &v, 4);
            else
                be32(b, at, (uint32_t)v);
            if (r.chance(1, 6) && v < 100000)
                b.resize(v);
            break;
        }
        case 6: // offset and length whose sum wraps around, or ends just about at the end of the data
        case 7: {
            const size_t   at  = 132 + 12 * r.below(nt) + 4;
            const uint32_t len = r.chance(1, 3) ? 20 : r.chance(1, 2) ? 20 + r.below(400) : (uint32_t)b.size() - r.below(40);
            const uint32_t off = r.chance(1, 2) ? 0u - r.below(len + 2) : (uint32_t)b.size() - len + r.below(5) - 2;
            be32(b, at, off);
            be32(b, at + 4, len);
            break;
        }
        case 0: b.resize(r.chance(1, 3) ? r.below(140) : r.below((uint32_t)b.size() + 1)); break;
        case 1: b[r.below((uint32_t)b.size())] ^= (uint8_t)(1u << r.below(8)); break;
        case 2: { // a length or offset field becomes wild
            static const uint32_t wild[] = {0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffff0u, 0x10000, 0xffff, 128, 132};
            const size_t          at     = r.chance(1, 5) ? 0 : r.chance(1, 4) ? 128 : 132 + 12 * r.below(nt) + 4 * r.below(3);
            be32(b, at, wild[r.below(10)]);
            break;
        }
        case 3: { // zeroed range
            const size_t at = r.below((uint32_t)b.size());
            for (size_t k = at; k < b.size() && k < at + 64; k++)
                b[k] = 0;
            break;
        }
        case 4: { // torn
            const size_t at = r.below((uint32_t)b.size());
            for (size_t k = at; k < b.size(); k++)
                b[k] = (uint8_t)r.next();
            break;
        }
        default: { // a stored number becomes wild
            const size_t at = data + r.below(nt) * 20 + 8 + 4 * r.below(3);
            be32(b, at, r.chance(1, 2) ? 0 : (uint32_t)r.next());
        }
        }
    return b;
}
static void gen_icc(const Gen &g, Rng &r, Plan &p)
{
    (void)g;
    p.shared = false;
    p.th.resize(1);
    const int n = 1 + (int)r.below(4);
    for (int i = 0; i < n; i++)
    {
        Item it;
        it.type = IT_ICC;
        it.buf  = icc_bytes(r);
        it.u    = r.below(1000);
        if (r.chance(1, 6) && !g.asan)
        {
            it.fail_n       = 1 + r.below(3);
            it.fail_persist = r.chance(1, 2);
        }
        p.th[0].push_back(it);
    }
    static const uint32_t fills[] = {0, 0xff, 256, 258, 257};
    p.env.heap_fill               = fills[r.below(5)];
    p.env.stack_fill              = fills[r.below(5)];
    p.env.reuse                   = r.below(2);
}

// ------------------------------------------------------------------ correction
static void gen_correct(const Gen &g, Rng &r, Plan &p)
{
    (void)g;
    p.shared = false;
    p.th.resize(1);
    p.step_cap   = 20000000;
    const int nc = 1 + (int)r.below(3);
    for (int c = 0; c < nc; c++)
    {
        const bool huge = r.chance(1, 900); // a measuring device run in a loop
        uint64_t   known;
        const int n0 = hint(r, 12, 3000, known) && known >= 3 ? (int)known : huge ? (r.chance(1, 2) ? 10900 : 21830) + (int)r.below(60) : p.stack_cap && r.chance(1, 6) ? 1000 + (int)r.below(4000) : r.chance(1, 2) ? 24 : r.chance(1, 2) ? 3 + (int)r.below(10) : r.chance(1, 8) ? 60 + (int)r.below(r.chance(1, 3) ? 600 : 140) : 3 + (int)r.below(60);
        p.step_cap   = std::max<uint64_t>(p.step_cap, 10000ull * (uint64_t)n0);
        double    m[9];
        const uint32_t mk = r.below(4);
        for (int k = 0; k < 9; k++)
        {
            const double u = r.unit() - 0.5;
            m[k]           = (float)(mk == 0 ? (k % 4 == 0) : mk == 1 ? (k % 4 == 0) + 0.3 * u : mk == 2 ? 2 * u : (k % 4 == 0 ? 0.2 + 3 * r.unit() : 0.0));
        }
        if (r.chance(1, 8)) // the standard chart, its last readings lost
        {
            for (int k = 0; k < 9; k++)
                m[k] = (float)((k % 4 == 0) + (mk == 0 ? 0.0 : 0.5 * (r.unit() - 0.5)));
            const double s = r.chance(1, 2) ? 1 : std::pow(10.0, r.unit() * 8 - 4);
            for (double &x : m)
                x = (float)(x * s);
            double inv[9];
            const double det = m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]);
            for (int a = 0; a < 3; a++)
                for (int b = 0; b < 3; b++)
                {
                    const int i1 = (b + 1) % 3, i2 = (b + 2) % 3, j1 = (a + 1) % 3, j2 = (a + 2) % 3;
                    inv[3 * a + b] = (m[3 * i1 + j1] * m[3 * i2 + j2] - m[3 * i1 + j2] * m[3 * i2 + j1]) / det;
                }
            Item it;
            it.type = IT_COR;
            it.u    = 1 + r.below(15);
            it.n    = r.chance(1, 2) ? 24 : 3 + r.below(22);
            std::vector<float> f;
            for (double x : m)
                f.push_back((float)x);
            for (double x : inv)
                f.push_back((float)x);
            it.buf.resize(f.size() * 4);
            memcpy(it.buf.data(), f.data(), it.buf.size());
            p.th[0].push_back(it);
            totals.faults[FK_LOSS] += 24 - it.n;
            continue;
        }
        if (r.chance(1, 4))
        {
            const double s = std::pow(10.0, r.unit() * 8 - 4);
            for (double &x : m)
                x = (float)(x * s);
        }
        std::vector<float> pa, ta;
        const uint32_t     shape = r.below(8);
        const int          levels = 2 + (int)r.below(3);
        const double       unit  = r.chance(1, 2) ? 1 : std::pow(10.0, r.unit() * 12 - 6); // the meter's unit
        const uint32_t     flat  = r.chance(1, 5) ? 1 + r.below(6) : 0;                   // ways not to determine the matrix
        const bool         few   = r.chance(1, 4); // only a few of the readings determine the matrix
        const int          at[3] = {(int)r.below((uint32_t)n0), (int)r.below((uint32_t)n0), r.chance(1, 2) ? n0 - 1 : (int)r.below((uint32_t)n0)};
        const float        same[3] = {(float)r.unit(), (float)r.unit(), (float)r.unit()};
        for (int i = 0; i < n0; i++)
        {
            float  q[3];
            double gray = r.unit();
            for (int k = 0; k < 3; k++)
            {
                const double u = r.unit();
                q[k] = (float)(shape == 0 ? 0.02 + 0.96 * u : shape == 1 ? gray * (0.8 + 0.4 * u) : shape == 2 ? (k == i % 3 ? 0.2 + 0.8 * u : 0.02 * u) : shape == 3 ? 100 * u : shape == 4 ? (r.chance(1, 6) ? 0.0 : u)
                    : shape == 5 ? (double)(i / (k == 0 ? levels * levels : k == 1 ? levels : 1) % levels) / (levels - 1)          // a cube of levels, in order
                    : shape == 6 ? (k == i % 3 ? (double)(1 + i / 3) / (1 + (n0 - 1) / 3) : 0.0)                                  // a ramp of each primary
                                 : 0.1 + 0.8 * ((i + k * (n0 / 3)) % n0) / n0 + 0.1 * ((i >> (k + 1)) & 1));                       // ramps against one another
                if (few && i != at[0] && i != at[1] && i != at[2])
                    q[k] = same[k];
                switch (flat)
                {
                case 1: q[k] = 0.f; break;                                // black
                case 2: q[k] = same[k]; break;                            // one colour
                case 3: q[k] = (float)(same[k] * gray); break;            // one chromaticity
                case 4: if (k == (int)(at[0] % 3)) q[k] = 0.f; break;     // a dead channel
                case 5: q[k] = (float)(same[k] + 1e-7 * u); break;        // one colour and noise
                case 6: if (k == 2) q[k] = q[0]; break;                   // two channels alike
                }
                q[k] = (float)(q[k] * unit);
                pa.push_back(q[k]);
            }
            for (int k = 0; k < 3; k++)
                ta.push_back((float)(m[3 * k] * q[0] + m[3 * k + 1] * q[1] + m[3 * k + 2] * q[2]));
        }
        std::vector<int> ord;
        const bool       loss = r.chance(2, 3), dup = r.chance(2, 3), reorder = r.chance(2, 3);
        const uint32_t   lossden = 2 + r.below(20);
        for (int i = 0; i < n0; i++)
        {
            if (loss && r.chance(1, lossden))
            {
                totals.faults[FK_LOSS]++;
                continue;
            }
            ord.push_back(i);
            while (dup && r.chance(1, 6))
            {
                ord.push_back(i);
                totals.faults[FK_DUP]++;
            }
        }
        if (reorder)
            for (size_t i = ord.size(); i > 1; i--)
            {
                const size_t j = r.below((uint32_t)i);
                if (i - 1 != j)
                {
                    std::swap(ord[i - 1], ord[j]);
                    totals.faults[FK_REORDER]++;
                }
            }
        if (ord.size() < 3)
            continue;
        std::vector<float> dp, dt;
        for (int i : ord)
            for (int k = 0; k < 3; k++)
                dp.push_back(pa[(size_t)(3 * i + k)]), dt.push_back(ta[(size_t)(3 * i + k)]);
        Item it;
        it.type = IT_COR;
        it.n    = ord.size();
        std::vector<float> f;
        for (int k = 0; k < 9; k++)
            f.push_back((float)m[k]);
        f.insert(f.end(), dp.begin(), dp.end());
        f.insert(f.end(), dt.begin(), dt.end());
        it.buf.resize(f.size() * 4);
        memcpy(it.buf.data(), f.data(), it.buf.size());
        p.th[0].push_back(it);
    }
}

enum { STACK_CAP = 64 << 10 };
void gen_plan(const Gen &g0, uint64_t run, Plan &p)
{
    p         = Plan();
    p.prop    = g0.prop;
    p.flavour = g0.asan ? "asan" : "main";
    p.step_cap = 20000000;
    Rng r(mix(mix(g0.seed, (uint64_t)g0.worker * 7919 + 3), run * 31 + (g0.asan ? 5 : 0) + (uint64_t)(g0.prop[1] - '0') * 10 + (uint64_t)(g0.prop[2] - '0')));
    int id = atoi(g0.prop.c_str() + 1);
    Gen gg = g0;
    long_data = id == 20;
    if (id == 20)
        p.stack_cap = STACK_CAP;
    if (id >= 19) // the workload of another property, looked at for what it leaves behind and the stack it needs
    {
        static const int tidy[] = {1, 3, 4, 4, 4, 5, 6, 8, 8, 9, 10, 11, 12, 13, 14, 14, 15, 15, 16, 16, 17, 17, 18};
        static const int deep[] = {3, 4, 4, 6, 8, 9, 11, 12, 13, 13, 14, 15, 16, 16, 16, 16, 17, 17, 18, 18};
        id     = id == 19 ? tidy[r.below(sizeof tidy / sizeof tidy[0])] : deep[r.below(sizeof deep / sizeof deep[0])];
        gg.prop = id < 10 ? "C0" + std::to_string(id) : "C" + std::to_string(id);
        p.work = gg.prop;
    }
    const Gen &g = gg;
    themed = !hot_ints.empty() && r.chance(1, 4);
    if (themed)
        theme = hot_ints[r.below((uint32_t)hot_ints.size())];
    switch (id)
    {
    case 1: gen_threads(g, r, p); break;
    case 2: gen_stall(g, r, p); break;
    case 3: gen_interrupt(g, r, p); break;
    case 4: gen_history(g, r, p); break;
    case 5: gen_ambient(g, r, p); break;
    case 6: gen_io(g, r, p); break;
    case 7: gen_phases(g, r, p); break;
    case 8: gen_oom(g, r, p); break;
    case 9:
    case 10:
    case 11:
    case 12: gen_stream(g, r, p); break;
    case 13: gen_damaged(g, r, p); break;
    case 14: gen_stream_oom(g, r, p); break;
    case 15: gen_streams(g, r, p); break;
    case 16: gen_measure(g, r, p); break;
    case 17: gen_icc(g, r, p); break;
    case 18: gen_correct(g, r, p); break;
    }
    if (g0.prop == "C19")
    {
        p.tidy = true;
        if (p.th.size() == 1 && id != 15)
            for (auto &i : p.th[0])
                i.leak = true;
    }
}
} // namespace sim
