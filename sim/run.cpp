// Running plans in forked children; reference results.
#include "engine.h"
#include "exec.h"
#include "phase.h"
#include <cerrno>
#include <cmath>
#include <set>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>

namespace sim
{
Totals   totals;
bool     counting;
uint32_t last_faults[FK_NKINDS];
double   last_worst;
static int fd_in = -1, fd_out = -1, fd_err = -1, fd_null = -1;
static uint64_t want_shared, want_const;
static bool     have_hashes;
static std::unordered_map<uint64_t, Ref> refs;
static PhaseBlock *pblock;
static int         pblock_fd = -1;

void engine_init()
{
    shm     = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fd_in   = memfd_create("in", 0);
    fd_out  = memfd_create("out", 0);
    fd_err  = memfd_create("err", 0);
    fd_null = open("/dev/null", O_RDWR);
    for (int *f : {&fd_in, &fd_out, &fd_err, &fd_null})
        *f = fcntl(*f, F_DUPFD_CLOEXEC, 20);
    if (write(fd_in, "1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20\n", 52) < 0)
        _exit(4);
    signal(SIGPIPE, SIG_IGN);
}
static void child_fds(const Plan &p)
{
    dup2(fd_in, 0);
    switch (p.env.iomode)
    {
    case 1:
        dup2(fd_err, 19);
        close(0), close(1), close(2);
        break;
    case 2: {
        const int f = open("/dev/full", O_RDWR);
        dup2(f >= 0 ? f : fd_null, 1), dup2(f >= 0 ? f : fd_null, 2);
        break;
    }
    case 3: {
        int q[2];
        if (pipe(q) == 0)
        {
            dup2(q[1], 1), dup2(q[1], 2);
            close(q[0]), close(q[1]);
        }
        break;
    }
    default: dup2(fd_out, 1), dup2(fd_err, 2);
    }
}
// Waits for a child; true if it had to be killed because it made no progress in real time.
static bool wait_child(pid_t pid, int &status)
{
    bool      late = false;
    const int pf   = (int)syscall(SYS_pidfd_open, pid, 0);
    if (pf >= 0)
    {
        pollfd q{pf, POLLIN, 0};
        int    r;
        while ((r = poll(&q, 1, 60000)) < 0 && errno == EINTR)
            ;
        if (r == 0)
        {
            late = true;
            kill(pid, SIGKILL);
        }
        close(pf);
    }
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR)
        ;
    return late;
}
static void limits()
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    rlimit l{30, 31};
    setrlimit(RLIMIT_CPU, &l);
    rlimit c{0, 0};
    setrlimit(RLIMIT_CORE, &c);
    signal(SIGPIPE, [](int) {}); // neither ignored nor fatal: a change to either shows
}
static std::string err_text()
{
    char          b[6000];
    const ssize_t n = pread(fd_err, b, sizeof b - 1, 0);
    return n > 0 ? std::string(b, (size_t)n) : std::string();
}
static void judge(int status, bool late, const Shm &s, Outcome &o)
{
    o.vt      = s.vt;
    o.vi      = s.vi;
    o.loghash = s.loghash;
    if (s.viol)
    {
        o.viol = true;
        o.kind = s.kind;
        o.msg  = s.msg;
        return;
    }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && s.done)
        return;
    if (WIFEXITED(status) && WEXITSTATUS(status) == 4)
    {
        o.infra = true;
        return;
    }
    o.viol = true;
    o.vt   = s.cur_tid;
    o.vi   = s.cur_item;
    if (late)
    {
        o.kind = "blocked";
        o.msg  = "the call waits outside the simulator for ever";
        return;
    }
    const std::string e = err_text();
    size_t            k = e.find("AddressSanitizer: ");
    if (k != std::string::npos)
    {
        std::string w = e.substr(k + 18, 60);
        w             = w.substr(0, w.find_first_of(" :\n"));
        o.kind        = "asan:" + w;
        o.msg         = e.substr(k, e.find('\n', k) - k);
        size_t f      = e.find("    #0 ");
        const size_t g = e.find("colorsystem.hpp:");
        if (g != std::string::npos)
            f = e.rfind('\n', g) + 1;
        if (f != std::string::npos)
            o.msg += " " + e.substr(f, e.find('\n', f) - f);
        const size_t h = o.msg.find("0x");
        (void)h;
        return;
    }
    k = e.find("runtime error: ");
    if (k != std::string::npos)
    {
        o.kind = "bounds";
        o.msg  = e.substr(k, e.find('\n', k) - k);
        return;
    }
    if (WIFSIGNALED(status))
    {
        const int sg = WTERMSIG(status);
        o.kind       = sg == SIGXCPU ? "no-progress" : "crash";
        o.msg        = std::string("the process was ended by signal ") + strsignal(sg) + (e.empty() ? "" : ": " + e.substr(0, 200));
    }
    else
    {
        o.kind = "crash";
        o.msg  = "the process ended inside a call, exit status " + std::to_string(WIFEXITED(status) ? WEXITSTATUS(status) : -1);
    }
}
static void account(const Shm &s)
{
    memcpy(last_faults, s.faults, sizeof last_faults);
    memcpy(&last_worst, s.keep, 8);
    if (!counting)
        return;
    totals.runs++;
    totals.events += s.events;
    totals.steps += s.steps;
    totals.switches += s.switches;
    bool any = false;
    for (int i = 0; i < FK_NKINDS; i++)
    {
        totals.faults[i] += s.faults[i];
        any |= s.faults[i] != 0;
    }
    totals.faulted += any;
    totals.foreign += s.probes[0] != 0;
    for (size_t i = 0; i < sizeof totals.cov; i++)
        totals.cov[i] |= s.cov[i];
}
static void hashes()
{
    if (have_hashes)
        return;
    have_hashes = true;
    memset((void *)shm, 0, sizeof *shm);
    const pid_t pid = fork();
    if (pid == 0)
    {
        limits();
        dup2(fd_null, 0), dup2(fd_null, 1), dup2(fd_null, 2);
        env = Env{257, 0, 0, 0, 0, 0, 0, 0};
        rt_main_thread();
        rt_init_child();
        self->in_sut = true;
        sut_make_shared();
        self->in_sut = false;
        shm->hash     = sut_hash_shared();
        shm->r_events = sut_hash_constants();
        shm->done     = 1;
        _exit(0);
    }
    int st;
    wait_child(pid, st);
    want_shared = shm->done ? shm->hash : 0;
    want_const  = shm->done ? shm->r_events : 0;
}
static void run_phases(Plan &p, Outcome &o)
{
    if (!pblock)
    {
        pblock_fd = fcntl(memfd_create("phase", 0), F_DUPFD, 30);
        if (ftruncate(pblock_fd, sizeof(PhaseBlock)) != 0)
            _exit(4);
        pblock = (PhaseBlock *)mmap(nullptr, sizeof(PhaseBlock), PROT_READ | PROT_WRITE, MAP_SHARED, pblock_fd, 0);
    }
    hashes();
    PhaseBlock *b = pblock;
    memset((void *)b, 0, sizeof *b);
    b->env        = p.env;
    b->step_cap   = p.step_cap;
    b->want_const = p.hashes;
    for (auto &it : p.th.empty() ? std::vector<Item>() : p.th[0])
        if (b->n < 64)
        {
            PhaseItem &q = b->it[b->n++];
            q.op = it.op, q.aseed = it.aseed, q.phase = it.phase;
            if (it.aseed & OVBIT)
                q.ov = ovs[((it.aseed & ~OVBIT) >> 4) % Ov::COUNT];
        }
    if (ftruncate(fd_err, 0) || ftruncate(fd_out, 0))
        _exit(4);
    lseek(fd_err, 0, SEEK_SET), lseek(fd_out, 0, SEEK_SET);
    const pid_t pid = fork();
    if (pid == 0)
    {
        limits();
        child_fds(p);
        char e[64];
        snprintf(e, sizeof e, "SIM_PHASE_FD=%d", pblock_fd);
        char *const ev[] = {e, nullptr};
        char *const av[] = {(char *)"sim", nullptr};
        execve("/proc/self/exe", av, ev);
        _exit(4);
    }
    int        st;
    const bool late = wait_child(pid, st);
    Outcome    r;
    judge(st, late, b->shm, r);
    account(b->shm);
    if (!r.viol && !r.infra)
    {
        static const char *ph[] = {"before main", "in main", "after exit began"};
        for (uint32_t i = 0; i < b->n && !r.viol; i++)
        {
            const PhaseItem &q  = b->it[i];
            const Item      &it = p.th[0][i];
            if (q.done && it.chk && (q.st != it.est || q.hash != it.eh || q.nout != it.en))
            {
                r.viol = true;
                r.kind = q.st != it.est ? "exception" : "result";
                r.vt   = 0;
                r.vi   = (int)i;
                r.msg  = std::string(ops[q.op].name) + " called " + ph[q.phase] + " differs from the same call made alone in main";
            }
        }
        for (int k = 0; k < 3 && !r.viol && p.hashes; k++)
            if (b->hconst[k] != want_const || b->hnamed[k] != b->hnamed[1])
            {
                r.viol = true;
                r.kind = "constants";
                r.vt = r.vi = -1;
                r.msg       = std::string("published constants read ") + ph[k] + " have other values";
            }
    }
    o = r;
}
void run_plan(Plan &p, Outcome &o)
{
    o = Outcome();
    if (p.phases)
    {
        run_phases(p, o);
        return;
    }
    if (p.hashes)
        hashes();
    memset((void *)shm, 0, sizeof *shm);
    shm->stall_rec_ev = shm->intr_rec_ev = -1;
    shm->cur_tid = shm->cur_item = -1;
    if (ftruncate(fd_err, 0) || ftruncate(fd_out, 0))
        _exit(4);
    lseek(fd_err, 0, SEEK_SET), lseek(fd_out, 0, SEEK_SET), lseek(fd_in, 0, SEEK_SET);
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid < 0)
    {
        o.infra = true;
        return;
    }
    if (pid == 0)
    {
        limits();
        child_fds(p);
        exec_plan(p, want_shared, want_const);
    }
    int        st;
    const bool late = wait_child(pid, st);
    judge(st, late, *shm, o);
    o.rec.assign(shm->rec, shm->rec + (shm->nrec < RECMAX ? shm->nrec : RECMAX));
    account(*shm);
}

const Ref &get_ref(int op, uint32_t aseed, uint32_t dseed)
{
    const uint64_t key = ((uint64_t)op << 56) ^ ((uint64_t)aseed << 24) ^ (dseed & 0xffffff);
    auto           f   = refs.find(key);
    if (f != refs.end())
        return f->second;
    if (refs.size() > 400000)
        refs.clear();
    Plan p;
    p.prop = "ref";
    p.ref  = true;
    p.step_cap = 20000000;
    Item it;
    it.op = op, it.aseed = aseed, it.dseed = dseed;
    p.th.push_back({it});
    Outcome    o;
    const bool c = counting;
    counting     = false;
    run_plan(p, o);
    counting = c;
    totals.refs++;
    Ref r;
    r.ok     = !o.viol && !o.infra;
    r.kind   = o.kind;
    r.st     = shm->status;
    r.hash   = shm->hash;
    r.events = shm->r_events;
    r.steps  = shm->r_steps;
    r.nout   = shm->nout;
    r.allocs = shm->r_allocs;
    r.io     = shm->r_io != 0;
    if (!r.ok)
        totals.broken++;
    return refs[key] = r;
}
Scout *scout;
std::vector<int64_t> ints, hot_ints;
void scout_run(const Gen &g, uint64_t calls)
{
    if (!scout)
        scout = (Scout *)mmap(nullptr, sizeof(Scout), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void *)scout, 0, sizeof *scout);
    cmplog = &scout->log;
    for (uint64_t k = 0; (scout->pos < calls || scout->bpos < Scout::ROUNDS * CmpLog::SITES) && k < calls; k++)
    {
        memset((void *)shm, 0, sizeof *shm);
        const pid_t pid = fork();
        if (pid == 0)
        {
            limits();
            dup2(fd_null, 0), dup2(fd_null, 1), dup2(fd_null, 2);
            exec_scout(g, calls);
        }
        int st;
        wait_child(pid, st);
    }
    cmplog = nullptr;
    memcpy(ovs, scout->ov, sizeof ovs);
    note_ints();
}
// Constants that integers are compared with, least to greatest.
void note_ints()
{
    std::set<int64_t> c, hot;
    auto              add = [&](double v, bool unmet) {
        if (std::fabs(v) < 9e15 && std::fabs(v) > 4)
        {
            c.insert((int64_t)v);
            if (unmet)
                hot.insert((int64_t)v);
        }
    };
    for (uint32_t i = 0; i < CmpLog::SITES; i++)
        if (scout->log.pc[i] && scout->site[i].kind == 1)
        {
            const bool unmet = scout->site[i].mask != 7;
            add(scout->site[i].c, unmet);
            for (auto &o : scout->log.off[i])
                if (o.n >= 4 && std::llabs(o.off) > 4)
                    add((double)o.off, unmet), add((double)o.off + scout->site[i].c, unmet);
        }
    ints.assign(c.begin(), c.end());
    hot_ints.assign(hot.begin(), hot.end());
}
// The constants met in the first runs.
void learn_ints(const Gen &g, int runs)
{
    if (!scout)
    {
        scout = (Scout *)mmap(nullptr, sizeof(Scout), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        memset((void *)scout, 0, sizeof *scout);
    }
    for (int k = 0; k < runs; k++)
    {
        Plan p;
        gen_plan(g, (1ull << 40) + (uint64_t)k, p);
        if (!fill(p) || p.items() == 0)
            continue;
        Outcome r;
        cmplog = &scout->log;
        cmp_clear();
        run_plan(p, r);
        cmplog = nullptr;
        for (uint32_t i = 0; i < scout->log.n; i++)
        {
            const CmpRec &c = scout->log.r[i];
            Scout::Site  &t = scout->site[c.site];
            t.kind = c.kind, t.c = c.b;
            t.mask |= c.a < c.b ? 1 : c.a == c.b ? 2 : 4;
        }
    }
    note_ints();
}
bool fill(Plan &p)
{
    bool ok  = true;
    auto one = [&](Item &it) {
        if (it.type != IT_CALL)
            return;
        if (it.chk)
        {
            const Ref &r = get_ref(it.op, it.aseed, it.dseed);
            it.eh = r.hash, it.en = r.nout, it.est = r.st;
            ok &= r.ok;
        }
        for (auto &i : it.intr)
            for (auto &c : i.calls)
            {
                const Ref &r = get_ref(c.op, c.aseed, 0);
                c.eh = r.hash, c.en = r.nout, c.est = r.st;
                ok &= r.ok;
            }
    };
    for (auto &i : p.pro)
        one(i);
    for (auto &t : p.th)
        for (auto &i : t)
            one(i);
    return ok;
}
} // namespace sim
