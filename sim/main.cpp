// Search, relevance, minimisation, replay.
#include "engine.h"
#include "phase.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/personality.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace sim
{
static double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
static bool is_memory(const std::string &k)
{
    return k == "heap-bounds" || k == "use-after-free" || k == "double-free" || k == "bad-free" || k == "crash" || k == "bounds" || k.compare(0, 5, "asan:") == 0;
}
static bool in(const std::string &k, std::initializer_list<const char *> l)
{
    for (const char *x : l)
        if (k == x)
            return true;
    return false;
}
static const Item *item_at(const Plan &p, int t, int i)
{
    if (i < 0)
        return nullptr;
    if (t == MAXT)
        return (size_t)i < p.pro.size() ? &p.pro[(size_t)i] : nullptr;
    if (t < 0 || (size_t)t >= p.th.size() || (size_t)i >= p.th[(size_t)t].size())
        return nullptr;
    return &p.th[(size_t)t][(size_t)i];
}
static std::string where(const Plan &p, const Outcome &o)
{
    const Item *it = item_at(p, o.vt, o.vi);
    if (!it)
        return "-";
    switch (it->type)
    {
    case IT_CALL: return ops[it->op].name;
    case IT_STREAM: return code_name(it->code);
    case IT_ICC: return "loadGamutFromICCProfileMemory";
    default: return "Corrector::solve";
    }
}
static bool clean(Plan p)
{
    const bool c = counting;
    counting     = false;
    Outcome o;
    fill(p);
    run_plan(p, o);
    counting = c;
    return !o.viol && !o.infra;
}
static void strip_schedule(Plan &p)
{
    p.sg = SchedGen{0, 0, 0, 0, 0};
    for (auto &t : p.th)
        for (auto &i : t)
            i.sw.clear();
}
static void strip_item(Item &i)
{
    i.sw.clear();
    i.intr.clear();
    i.stall_ev   = -1;
    i.stall_sync = i.intr_sync = 0;
}
// The whole history of one stream, as one stream used alone by one thread.
static void stream_alone(const Plan &p, int t, int upto, int sid, int as, std::vector<Item> &out)
{
    // order: prologue, then thread t (a stream is used by one thread only after the prologue)
    std::vector<const Item *> seq;
    const bool                pro = t == MAXT;
    for (size_t i = 0; i < p.pro.size() && (!pro || (int)i < upto); i++)
        seq.push_back(&p.pro[i]);
    if (!pro && t >= 0 && (size_t)t < p.th.size())
        for (size_t i = 0; i < p.th[(size_t)t].size() && (int)i < upto; i++)
            seq.push_back(&p.th[(size_t)t][i]);
    const size_t np = p.pro.size();
    std::vector<Item> mine;
    for (size_t k = 0; k < seq.size(); k++)
    {
        const Item &it = *seq[k];
        if (it.type != IT_STREAM || it.sid != sid || it.code == SM_SCRIB || it.code == SM_SRCFREE)
            continue;
        if (it.code == SM_COPY || it.code == SM_ASSIGN)
        {
            mine.clear();
            const bool inpro = k < np || pro;
            stream_alone(p, inpro ? MAXT : t, (int)(inpro ? k : k - np), it.sid2, as, mine);
            continue;
        }
        if (it.code == SM_DEL)
        {
            mine.clear();
            continue;
        }
        Item c = it;
        c.sid  = as;
        strip_item(c);
        c.fail_n = 0;
        mine.push_back(c);
    }
    out.insert(out.end(), mine.begin(), mine.end());
}

// Does this failure break the property the run is about?
static bool relevant(const Plan &p, const Outcome &o)
{
    const std::string &k   = o.kind;
    const int          id  = atoi(p.prop.c_str() + 1);
    const bool         mem = is_memory(k);
    const Item        *it  = item_at(p, o.vt, o.vi);
    switch (id)
    {
    case 1: {
        if (in(k, {"race", "arguments", "constants"}))
            return true;
        if (!mem && !in(k, {"result", "exception", "blocked", "no-progress"}))
            return false;
        if (o.vt < 0 || (size_t)o.vt >= p.th.size())
            return false;
        Plan q = p; // the same calls by that thread alone
        strip_schedule(q);
        for (size_t t = 0; t < q.th.size(); t++)
            if ((int)t != o.vt)
                q.th[t].clear();
        return clean(q);
    }
    case 2: {
        if (!mem && !in(k, {"result", "exception", "blocked", "no-progress"}))
            return false;
        if (!last_faults[FK_STALL])
            return false;
        Plan q = p; // the other threads without the one that stalls
        strip_schedule(q);
        for (auto &t : q.th)
            for (auto &i : t)
                if (i.stall_ev >= 0 || i.stall_sync)
                {
                    t.clear();
                    break;
                }
        return clean(q);
    }
    case 3: {
        if (!mem && !in(k, {"result", "exception", "blocked", "no-progress"}))
            return false;
        if (!last_faults[FK_INTERRUPT])
            return false;
        Plan q = p; // the same calls one after the other
        q.th[0].clear();
        for (auto &i : p.th[0])
        {
            for (int rep = 0; rep < 2; rep++)
            {
                for (auto &x : i.intr)
                    for (auto &c : x.calls)
                    {
                        Item n;
                        n.op = c.op, n.aseed = c.aseed, n.chk = 1;
                        q.th[0].push_back(n);
                    }
                Item s = i;
                strip_item(s);
                q.th[0].push_back(s);
            }
        }
        return clean(q);
    }
    case 4:
        if (in(k, {"arguments", "constants"}))
            return true;
        if (!mem && !in(k, {"result", "exception", "no-progress", "blocked"}))
            return false;
        return it && it->fail_n == 0;
    case 5: return mem || in(k, {"result", "exception", "fp-mode", "no-progress", "blocked"});
    case 6: return in(k, {"io", "output", "input"});
    case 7: return mem || in(k, {"result", "exception", "constants", "no-progress", "blocked"});
    case 8: {
        if (!mem && !in(k, {"result", "exception", "leak", "arguments", "constants", "no-progress", "blocked"}))
            return false;
        Plan q = p;
        for (auto &t : q.th)
            for (auto &i : t)
                i.fail_n = 0;
        return clean(q);
    }
    case 9:
    case 10:
    case 11:
    case 12:
        if (!mem && !in(k, {"model", "exception", "no-progress"}))
            return false;
        return it && it->type == IT_STREAM && (group_of(it->code) & own_groups(p.prop));
    case 13: {
        if (!mem && !in(k, {"model", "model-end", "exception", "no-progress", "memory-budget"}))
            return false;
        if (!it || it->type != IT_STREAM || !(group_of(it->code) & own_groups(p.prop)))
            return false;
        if (k != "model" && k != "exception")
            return true;
        Plan q = p; // the same history with nothing damaged
        for (auto &i : q.th[0])
            if (i.code == SM_RELOAD)
                i.u = 0;
        return clean(q);
    }
    case 14: {
        if (!mem && !in(k, {"model", "exception", "no-progress", "leak", "oom-state"}))
            return false;
        Plan q = p;
        for (auto &i : q.th[0])
            i.fail_n = 0;
        return clean(q);
    }
    case 15: {
        if (in(k, {"source", "race"}))
            return true;
        if (!mem && !in(k, {"model", "exception", "no-progress", "blocked"}))
            return false;
        if (!it || it->type != IT_STREAM)
            return mem;
        Plan q = p;
        strip_schedule(q);
        q.race = false;
        q.pro.clear();
        q.th.assign(1, {});
        stream_alone(p, o.vt, o.vi + 1, it->sid, 0, q.th[0]);
        return clean(q);
    }
    case 16: {
        if (mem || in(k, {"no-progress", "containment", "blocked"}))
        {
            if (it && it->dseed)
                return true;
        }
        else if (!in(k, {"result", "exception"}))
            return false;
        if (it && it->dseed)
            return k == "exception"; // reported only for element-wise computations
        Plan q = p; // the clean calls alone
        for (auto &t : q.th)
            t.erase(std::remove_if(t.begin(), t.end(), [](const Item &x) { return x.dseed != 0; }), t.end());
        return clean(q);
    }
    case 17: return mem || in(k, {"exception", "source", "gamut", "retained", "leak", "no-progress", "memory-budget"});
    case 19: return in(k, {"leak", "left"});
    case 20: return k == "stack";
    case 18: return mem || in(k, {"accuracy", "not-finite", "exception", "no-progress"});
    }
    return false;
}

// A generated schedule becomes an explicit one.
static Plan make_explicit(const Plan &p, const Outcome &o)
{
    Plan q = p;
    if (q.sg.mode != 0)
    {
        strip_schedule(q);
        for (auto &s : o.rec)
            if (s.tid >= 0 && (size_t)s.tid < q.th.size() && s.item >= 0 && (size_t)s.item < q.th[(size_t)s.tid].size())
                q.th[(size_t)s.tid][(size_t)s.item].sw.push_back({s.ev, s.to});
    }
    if (shm->stall_rec_ev >= 0 && shm->stall_rec_tid < (int)q.th.size())
    {
        Item &i      = q.th[(size_t)shm->stall_rec_tid][(size_t)shm->stall_rec_item];
        i.stall_sync = 0;
        i.stall_ev   = shm->stall_rec_ev;
    }
    if (shm->intr_rec_ev >= 0 && shm->intr_rec_tid < (int)q.th.size())
    {
        Item &i     = q.th[(size_t)shm->intr_rec_tid][(size_t)shm->intr_rec_item];
        i.intr_sync = 0;
        if (!i.intr.empty())
            i.intr[0].ev = (uint32_t)shm->intr_rec_ev;
    }
    return q;
}

struct Minimiser
{
    std::string kind;
    int         budget = 500;
    double      until;
    Plan        best;
    Outcome     out;
    bool still(Plan c)
    {
        if (budget <= 0 || now() > until)
            return false;
        budget--;
        Outcome o;
        if (!fill(c))
            return false;
        run_plan(c, o);
        if (!o.viol || o.kind != kind)
            return false;
        const Outcome keep = o;
        if (!relevant(c, o))
            return false;
        best = c;
        out  = keep;
        return true;
    }
    template <class Get, class Cut> void chunks(Get size, Cut cut)
    {
        for (size_t len = std::max<size_t>(1, size(best) / 2);; len /= 2)
        {
            for (size_t at = 0; at < size(best);)
            {
                Plan c = best;
                cut(c, at, std::min(len, size(best) - at));
                if (!still(c))
                    at += len;
                if (budget <= 0)
                    return;
            }
            if (len <= 1)
                break;
        }
    }
    void run()
    {
        for (int round = 0; round < 4; round++)
        {
            const std::string before = plan_text(best);
            // threads
            for (size_t t = best.th.size(); t-- > 0 && best.th.size() > 1;)
            {
                if (t >= best.th.size())
                    continue;
                Plan c = best;
                c.th.erase(c.th.begin() + (long)t);
                for (auto &l : c.th)
                    for (auto &i : l)
                    {
                        std::vector<Sw> n;
                        for (auto s : i.sw)
                            if (s.to != (int)t)
                            {
                                s.to -= s.to > (int)t;
                                n.push_back(s);
                            }
                        i.sw = n;
                    }
                still(c);
            }
            // items
            for (size_t t = 0; t < best.th.size(); t++)
                chunks([t](const Plan &p) { return p.th[t].size(); },
                    [t](Plan &p, size_t a, size_t n) { p.th[t].erase(p.th[t].begin() + (long)a, p.th[t].begin() + (long)(a + n)); });
            chunks([](const Plan &p) { return p.pro.size(); },
                [](Plan &p, size_t a, size_t n) { p.pro.erase(p.pro.begin() + (long)a, p.pro.begin() + (long)(a + n)); });
            // switches
            auto nsw = [](const Plan &p) {
                size_t n = 0;
                for (auto &t : p.th)
                    for (auto &i : t)
                        n += i.sw.size();
                return n;
            };
            chunks(nsw, [](Plan &p, size_t a, size_t n) {
                size_t k = 0;
                for (auto &t : p.th)
                    for (auto &i : t)
                    {
                        std::vector<Sw> keep;
                        for (auto &s : i.sw)
                        {
                            if (k < a || k >= a + n)
                                keep.push_back(s);
                            k++;
                        }
                        i.sw = keep;
                    }
            });
            // per item simplifications
            for (size_t t = 0; t <= best.th.size(); t++)
            {
                auto list = [t](Plan &p) -> std::vector<Item> & { return t < p.th.size() ? p.th[t] : p.pro; };
                for (size_t i = 0; i < list(best).size(); i++)
                {
                    auto with = [&](auto f) {
                        Plan c = best;
                        f(list(c)[i]);
                        if (plan_text(c) != plan_text(best))
                            still(c);
                    };
                    with([](Item &x) { x.fail_n = 0; });
                    with([](Item &x) { x.fail_persist = false; });
                    with([](Item &x) { x.dseed = 0, x.twin = false; });
                    with([](Item &x) { x.stall_ev = -1, x.stall_sync = 0; });
                    with([](Item &x) { x.leak = false; });
                    with([](Item &x) { x.rep = 0; });
                    for (uint32_t d : {2u, 4u, 16u, 64u})
                        with([d](Item &x) { x.rep -= x.rep / d; });
                    for (int k = 0; k < 40; k++)
                        if (list(best)[i].rep)
                            with([](Item &x) { x.rep--; });
                    with([](Item &x) { if (x.type == IT_CALL) x.aseed &= ~15u; });
                    while (list(best)[i].intr.size() > 1)
                    {
                        const size_t b4 = list(best)[i].intr.size();
                        with([](Item &x) { x.intr.pop_back(); });
                        if (list(best)[i].intr.size() == b4)
                            with([](Item &x) { x.intr.erase(x.intr.begin()); });
                        if (list(best)[i].intr.size() == b4)
                            break;
                    }
                    if (!list(best)[i].intr.empty() && list(best)[i].intr[0].calls.size() > 1)
                    {
                        with([](Item &x) { x.intr[0].calls.erase(x.intr[0].calls.begin()); });
                        with([](Item &x) { if (x.intr[0].calls.size() > 1) x.intr[0].calls.pop_back(); });
                    }
                    if (list(best)[i].type != IT_CALL && list(best)[i].type != IT_COR)
                        for (int k = 0; k < 8 && list(best)[i].buf.size() > 1; k++)
                        {
                            const size_t b4 = list(best)[i].buf.size();
                            with([](Item &x) { x.buf.resize(x.buf.size() / 2); });
                            if (list(best)[i].buf.size() == b4)
                                break;
                        }
                    if (list(best)[i].type == IT_COR && list(best)[i].u)
                        with([](Item &x) { if (x.n > 3) x.n--; });
                    if (list(best)[i].type == IT_COR && !list(best)[i].u)
                        for (size_t q = list(best)[i].n; q-- > 0;)
                            with([q](Item &x) {
                                if (q >= x.n || x.n <= 3)
                                    return;
                                const size_t n = x.n;
                                x.buf.erase(x.buf.begin() + (long)(36 + 12 * n + 12 * q), x.buf.begin() + (long)(36 + 12 * n + 12 * q + 12));
                                x.buf.erase(x.buf.begin() + (long)(36 + 12 * q), x.buf.begin() + (long)(36 + 12 * q + 12));
                                x.n--;
                            });
                }
            }
            // ambient state
            auto env = [&](auto f) {
                Plan c = best;
                f(c);
                if (plan_text(c) != plan_text(best))
                    still(c);
            };
            env([](Plan &c) { c.env.world = 0; });
            env([](Plan &c) { c.env.layout = 0; });
            env([](Plan &c) { if (c.env.fpin) c.env.fpin = 1; });
            env([](Plan &c) { c.env.err = 0; });
            env([](Plan &c) { c.env.fpflags = 0; });
            env([](Plan &c) { c.env.reuse = 0; });
            env([](Plan &c) { c.env.heap_fill = 257; });
            env([](Plan &c) { c.env.stack_fill = 0; });
            env([](Plan &c) { c.env.iomode = 0; });
            env([](Plan &c) { c.hashes = false; });
            if (plan_text(best) == before || budget <= 0 || now() > until)
                break;
        }
    }
};

static std::string esc(const std::string &s)
{
    std::string o;
    for (char c : s)
    {
        if (c == '"' || c == '\\')
            o += '\\', o += c;
        else if (c == '\n')
            o += "\\n";
        else if ((unsigned char)c < 32 || (unsigned char)c > 126)
            o += ' ';
        else
            o += c;
    }
    return o;
}
struct Opt
{
    std::string prop, out = ".", known, op;
    uint32_t    args = 0;
    uint64_t    seed = 1, count = 1000, start = 0;
    int         worker = 0;
    double      time = 30;
    bool        keep_going = false;
};
static int run(const Opt &o)
{
    Gen g{o.prop, o.seed, o.worker, rt_is_asan()};
    std::unordered_set<uint64_t> seen, inter;
    uint64_t                     skipped = 0, unrepro = 0, mism = 0, twice = 0, irrelevant = 0, infra = 0, known = 0;
    std::vector<std::string>     samples;
    std::string                  found;
    const double                 t0 = now();
    uint64_t                     i  = 0;
    std::set<std::string>        irr;
    double                       worst = 0;
    const int                    pid = atoi(o.prop.c_str() + 1);
    if (pid <= 8 || pid == 16 || pid >= 19)
        scout_run(g, SCOUT_CALLS);
    if (pid == 6 || (pid >= 9 && pid != 16))
        learn_ints(g, pid >= 19 ? 600 : 400);
    for (; i < o.count && now() - t0 < o.time; i++)
    {
        Plan p;
        gen_plan(g, i, p);
        if (!fill(p))
        {
            skipped++;
            continue;
        }
        if (p.items() == 0)
            continue;
        Outcome r;
        counting = true;
        if (p.prop == "C05" && p.items())
            totals.faults[FK_AMBIENT]++;
        if (p.env.iomode)
            totals.faults[FK_IOSTATE]++;
        run_plan(p, r);
        counting = false;
        totals.calls += p.items();
        if (p.prop == "C18" && last_worst > worst)
            worst = last_worst;
        if (r.infra)
        {
            infra++;
            continue;
        }
        bool any = p.prop == "C05" || p.prop == "C06" || p.prop >= "C19" || (p.prop == "C18" && p.items());
        for (uint32_t f : last_faults)
            any |= f != 0;
        if (any || (p.prop >= "C09" && p.prop <= "C12" && p.items() > 3))
            seen.insert(mix(r.loghash, p.prop == "C05" || p.prop == "C06" ? fnv1(FNV0, &p.env, sizeof p.env) : 0));
        if (shm->switches)
            inter.insert(shm->ilhash);
        if (samples.size() < 2 && any && p.items() < 12 && !r.viol)
        {
            const std::string t = plan_text(make_explicit(p, r));
            if (t.size() < 2500)
                samples.push_back(t);
        }
        if (i % 97 == 3 && !r.viol) // the same seed again must give the same execution
        {
            Outcome q;
            run_plan(p, q);
            twice++;
            if (q.viol != r.viol || q.loghash != r.loghash)
                mism++;
        }
        if (!r.viol)
            continue;
        // the failing run again, then as an explicit schedule
        Plan e = p;
        {
            Outcome q;
            run_plan(p, q);
            if (!q.viol || q.kind != r.kind)
            {
                unrepro++;
                continue;
            }
            e = make_explicit(p, q);
        }
        Outcome x;
        run_plan(e, x);
        if (!x.viol || x.kind != r.kind)
        {
            unrepro++;
            fprintf(stderr, "unreproduced as explicit plan: %s %s\n", r.kind.c_str(), r.msg.c_str());
            continue;
        }
        if (!relevant(e, x))
        {
            irrelevant++;
            irr.insert(x.kind + " " + where(e, x));
            continue;
        }
        const std::string sig = x.kind + ":" + where(e, x);
        if (!o.known.empty() && ("," + o.known + ",").find("," + sig + ",") != std::string::npos)
        {
            known++;
            continue;
        }
        fprintf(stderr, "violation %s at %s: %s\n", x.kind.c_str(), where(e, x).c_str(), x.msg.c_str());
        if (o.keep_going)
        {
            irr.insert("VIOLATION " + sig);
            irrelevant++;
            continue;
        }
        Minimiser m;
        m.kind  = x.kind;
        m.best  = e;
        m.out   = x;
        m.until = now() + 60;
        m.run();
        Plan    f = m.best;
        Outcome y, z;
        fill(f);
        run_plan(f, y);
        run_plan(f, z);
        if (!y.viol || y.kind != m.kind || z.loghash != y.loghash || !z.viol)
        {
            unrepro++;
            fprintf(stderr, "minimised plan does not reproduce exactly\n");
            continue;
        }
        f.xkind = y.kind;
        f.xhash = y.loghash;
        f.note  = "seed " + std::to_string(o.seed) + " worker " + std::to_string(o.worker) + " run " + std::to_string(i) + ": " + y.msg;
        std::replace(f.note.begin(), f.note.end(), '\n', ' ');
        const std::string path = o.out + "/" + o.prop + "-" + p.flavour + "-s" + std::to_string(o.seed) + "-w" + std::to_string(o.worker) + ".plan";
        std::ofstream(path) << plan_text(f);
        std::ostringstream v;
        v << "{\"replay\":\"" << esc(path) << "\",\"kind\":\"" << esc(y.kind) << "\",\"where\":\"" << esc(where(f, y)) << "\",\"msg\":\"" << esc(y.msg)
          << "\",\"items\":" << f.items() << ",\"run\":" << i << "}";
        found = v.str();
        i++;
        break;
    }
    const std::string hp = o.out + "/" + o.prop + "-" + (rt_is_asan() ? "asan" : "main") + "-w" + std::to_string(o.worker) + ".hash";
    {
        std::ofstream f(hp, std::ios::binary);
        for (uint64_t h : seen)
            f.write((const char *)&h, 8);
        const uint64_t sep = 0;
        f.write((const char *)&sep, 8);
        for (uint64_t h : inter)
            f.write((const char *)&h, 8);
    }
    unsigned cov = 0;
    for (unsigned char c : totals.cov)
        cov += (unsigned)__builtin_popcount(c);
    printf("{\"runs\":%llu,\"tried\":%llu,\"refs\":%llu,\"broken_alone\":%llu,\"events\":%llu,\"steps\":%llu,\"switches\":%llu,\"items\":%llu,"
           "\"faulted\":%llu,\"foreign\":%llu,\"skipped\":%llu,\"unreproduced\":%llu,\"rerun\":%llu,\"rerun_differs\":%llu,\"not_this_property\":%llu,\"infra\":%llu,\"known\":%llu,"
           "\"distinct\":%zu,\"interleavings\":%zu,\"blocks\":%u,\"worst\":%g,\"seconds\":%.2f,\"hashfile\":\"%s\",\"faults\":{",
        (unsigned long long)totals.runs, (unsigned long long)i, (unsigned long long)totals.refs, (unsigned long long)totals.broken,
        (unsigned long long)totals.events, (unsigned long long)totals.steps, (unsigned long long)totals.switches, (unsigned long long)totals.calls,
        (unsigned long long)totals.faulted, (unsigned long long)totals.foreign, (unsigned long long)skipped, (unsigned long long)unrepro,
        (unsigned long long)twice, (unsigned long long)mism, (unsigned long long)irrelevant, (unsigned long long)infra, (unsigned long long)known, seen.size(), inter.size(),
        cov, worst, now() - t0, esc(hp).c_str());
    for (int k = 0; k < FK_NKINDS; k++)
        printf("%s\"%s\":%llu", k ? "," : "", fault_name[k], (unsigned long long)totals.faults[k]);
    printf("},\"other\":[");
    bool first = true;
    for (auto &s : irr)
        printf("%s\"%s\"", first ? "" : ",", esc(s).c_str()), first = false;
    printf("],\"samples\":[");
    for (size_t k = 0; k < samples.size(); k++)
        printf("%s\"%s\"", k ? "," : "", esc(samples[k]).c_str());
    printf("],\"violation\":%s}\n", found.empty() ? "null" : found.c_str());
    return found.empty() ? 0 : 1;
}
static int replay(const char *file)
{
    std::ifstream     f(file);
    std::stringstream s;
    s << f.rdbuf();
    Plan        p;
    std::string err;
    if (!plan_parse(s.str(), p, err))
    {
        fprintf(stderr, "%s: %s\n", file, err.c_str());
        return 2;
    }
    if (!fill(p))
    {
        printf("REPLAY a call of this plan fails when made alone\n");
        return 0;
    }
    Outcome o;
    run_plan(p, o);
    if (o.infra)
        return 2;
    if (!o.viol)
    {
        printf("REPLAY no violation\n");
        return 0;
    }
    const Outcome keep = o;
    const bool    rel  = relevant(p, o);
    printf("REPLAY kind=%s hash=%llu at=%s %s %s\n", keep.kind.c_str(), (unsigned long long)keep.loghash, where(p, keep).c_str(),
        keep.kind == p.xkind && keep.loghash == p.xhash ? "exact" : "differs-from-recording", keep.msg.c_str());
    return rel ? 1 : 0;
}
// Results of a list of calls under a given ambient state (used to compare two builds).
static int results(const Opt &o, const char *mode)
{
    const double t0 = now();
    int          one = -1;
    for (int k = 0; k < n_ops && !o.op.empty(); k++)
        if (o.op == ops[k].name)
            one = k;
    if (!o.op.empty() && one < 0)
        return 2;
    const uint64_t total = one < 0 ? o.count : 1, batch = one < 0 ? 40 : 1;
    for (uint64_t i = one < 0 ? o.start : 0; i < total && now() - t0 < o.time; i += batch)
    {
        Plan p;
        Rng  r(mix(mix(o.seed, (uint64_t)o.worker + 11), i));
        p.prop           = "ref";
        p.ref            = true;
        p.step_cap       = 60000000;
        p.env.heap_fill  = *mode == 'p' ? 258 : 0;
        p.env.stack_fill = *mode == 'p' ? 0xa5 : 0;
        p.th.resize(1);
        for (uint64_t k = i; k < i + batch; k++)
        {
            Item it;
            do
                it.op = (int)(k < (uint64_t)n_ops * 3 ? k % (uint64_t)n_ops : r.below((uint32_t)n_ops));
            while (k >= (uint64_t)n_ops * 3 && (ops[it.op].flags & OF_HEAVY) && r.below(5));
            it.aseed = r.below(60000) * 16;
            if (one >= 0)
                it.op = one, it.aseed = o.args;
            p.th[0].push_back(it);
        }
        shm->nbatch = 0;
        Outcome q;
        run_plan(p, q);
        for (uint32_t k = 0; k < shm->nbatch; k++)
            printf("%s %u %llu %d %016llx ok\n", ops[p.th[0][k].op].name, p.th[0][k].aseed, (unsigned long long)i, shm->bstat[k], (unsigned long long)shm->bhash[k]);
        if (q.viol && shm->nbatch < batch)
            printf("%s %u %llu 0 0 %s\n", ops[p.th[0][shm->nbatch].op].name, p.th[0][shm->nbatch].aseed, (unsigned long long)i, q.kind.c_str());
    }
    return 0;
}
} // namespace sim

int main(int argc, char **argv)
{
    using namespace sim;
    if (phase_block)
    {
        phase_run(1);
        exit(0);
    }
    if (argc < 2)
        return 2;
    // the same addresses in every process
    const int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR"))
        if (personality((unsigned long)pers | ADDR_NO_RANDOMIZE) >= 0)
        {
            setenv("SIM_NOASLR", "1", 1);
            execv("/proc/self/exe", argv);
        }
    engine_init();
    Opt o;
    const std::string mode = argv[1];
    std::string       file;
    for (int i = 2; i < argc; i++)
    {
        const std::string a = argv[i];
        auto              v = [&]() -> const char * { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") o.prop = v();
        else if (a == "--seed") o.seed = strtoull(v(), nullptr, 10);
        else if (a == "--worker") o.worker = atoi(v());
        else if (a == "--count") o.count = strtoull(v(), nullptr, 10);
        else if (a == "--time") o.time = atof(v());
        else if (a == "--out") o.out = v();
        else if (a == "--op") o.op = v();
        else if (a == "--start") o.start = strtoull(v(), nullptr, 10);
        else if (a == "--args") o.args = (uint32_t)strtoul(v(), nullptr, 10);
        else if (a == "--known") o.known = v();
        else if (a == "--keep-going") o.keep_going = true;
        else file = a;
    }
    if (mode == "run")
        return run(o);
    if (mode == "replay")
        return replay(file.c_str());
    if (mode == "results" || mode == "one")
        return results(o, file.c_str());
    if (mode == "scout") // what scouting finds, for people
    {
        Gen g{o.prop, o.seed, o.worker, rt_is_asan()};
        const double t0 = now();
        scout_run(g, o.count);
        printf("%u leads, %u blocks, %u hidden-state calls of %u operations, %.1f s\n", scout->nlead, scout->nblk, scout->nhid, scout->hid_ops, now() - t0);
        for (int i = 0; i < n_ops; i++)
            if (scout->ophid[i])
                printf("  %s %u\n", ops[i].name, scout->ophid[i]);
        uint32_t nsite = 0, open = 0;
        for (uint32_t i = 0; i < CmpLog::SITES; i++)
            nsite += scout->log.pc[i] != 0, open += scout->log.pc[i] && scout->site[i].mask != 7 && scout->site[i].kind != 2;
        printf("%u comparisons, %u with an outcome not seen; %u of them solved, %u outcomes, %u calls kept, %u argument sets\n", nsite, open, scout->solved, scout->outcomes, scout->nsol, scout->nov);
        for (uint32_t i = 0; o.keep_going && i < scout->nsol; i++)
            printf("  %s %u\n", ops[scout->sol[i].op].name, scout->sol[i].aseed);
        if (atoi(o.prop.c_str() + 1) >= 9)
            learn_ints(g, 400);
        for (int64_t c : hot_ints)
            printf(" %lld", (long long)c);
        printf("\n");
        for (int64_t c : ints)
            printf(" %lld", (long long)c);
        printf("\n");
        uint32_t h[6] = {};
        for (uint32_t i = 0; i < scout->nblk; i++)
        {
            const uint32_t c = scout->hits[scout->blk[i]];
            h[c < 3 ? 0 : c < 10 ? 1 : c < 30 ? 2 : c < 100 ? 3 : c < 1000 ? 4 : 5]++;
        }
        printf("blocks by hits: <3 %u, <10 %u, <30 %u, <100 %u, <1000 %u, more %u\n", h[0], h[1], h[2], h[3], h[4], h[5]);
        return 0;
    }
    if (mode == "gen")
    {
        Gen  g{o.prop, o.seed, o.worker, rt_is_asan()};
        Plan p;
        const int pid = atoi(o.prop.c_str() + 1);
        if (pid <= 8 || pid == 16)
            scout_run(g, SCOUT_CALLS);
        gen_plan(g, o.count, p);
        printf("%s", plan_text(p).c_str());
        return 0;
    }
    return 2;
}
