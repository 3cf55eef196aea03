// Parent side: runs plans in forked children, keeps reference results, generates and minimises.
#pragma once
#include "plan.h"
#include <string>
#include <vector>
namespace sim
{
struct Ref
{
    bool     ok = false;
    bool     io = false;
    int      st = ST_NONE;
    uint64_t hash = 0, events = 0, steps = 0;
    uint32_t nout = 0, allocs = 0;
    std::string kind;
};
struct Totals
{
    uint64_t runs = 0, refs = 0, broken = 0, events = 0, steps = 0, switches = 0, calls = 0, faulted = 0, foreign = 0;
    uint64_t faults[FK_NKINDS] = {};
    unsigned char cov[8192]    = {};
};
extern Totals totals;
extern bool   counting; // add the run to the totals

void       engine_init();
void       run_plan(Plan &p, Outcome &o);
const Ref &get_ref(int op, uint32_t aseed, uint32_t dseed);
bool       fill(Plan &p); // expectations from references; false if a reference is unusable
extern uint32_t last_faults[FK_NKINDS];
extern double   last_worst;

struct Gen
{
    std::string prop;
    uint64_t    seed;
    int         worker;
    bool        asan;
};
const double COR_TOL = 40;
const uint32_t SITE_CALLS = 160;
const uint64_t SCOUT_CALLS = 100000;
// Scouting: before a worker's runs, single calls find the arguments that reach seldom executed code or touch
// writable static, thread-local or synchronisation state. Runs draw half of their calls from these. The scout
// is itself determined by the seed; the plans it leads to are self-contained.
struct Lead
{
    int      op;
    uint32_t aseed, dseed, fail_n;
};
struct Scout
{
    enum { MAXLEAD = 40000, BLOCKS = 65536, PER = 3, HIDMAX = 4000, HIDPER = 40 };
    volatile uint64_t pos;
    uint32_t nlead, nhid, hid_ops, nblk;
    Lead     lead[MAXLEAD];
    uint32_t hits[BLOCKS];
    uint32_t at[BLOCKS][PER];
    uint16_t nat[BLOCKS];
    uint32_t hid[HIDMAX];
    uint32_t ophid[256];
    uint32_t opfirst[256]; // calls of each operation that touched hidden state
    uint16_t blk[BLOCKS];
    // comparisons: outcomes seen (bit 0 less, 1 equal, 2 greater) and the calls that came closest to another outcome
    struct Site
    {
        uint8_t mask, kind, near, tried;
        Lead    lead[3];
        double  dist[3];
        double  c; // constant compared with
    };
    enum { SOLMAX = 3000, ROUNDS = 2 };
    CmpLog            log;
    Site              site[CmpLog::SITES];
    volatile uint32_t bpos; // sites looked at, over all rounds
    uint32_t          nov, nsol;
    uint32_t          solved, outcomes;
    Ov                ov[Ov::COUNT];
    Lead              sol[SOLMAX]; // calls that decide a comparison in a way not seen before
    enum { ALMAX = 2000, ALPER = 12 };
    uint32_t nal;
    uint32_t al[ALMAX];      // calls that allocate
    uint8_t  alseen[256][16]; // by operation and number of allocations
};
extern std::vector<int64_t> ints, hot_ints; // constants that the code compares lengths, positions and counts with; those it never met
extern Scout *scout; // null: none
void note_ints();
void learn_ints(const Gen &g, int runs);
void scout_run(const Gen &g, uint64_t calls);
Lead scout_call(const Gen &g, uint64_t i);
void gen_plan(const Gen &g, uint64_t run, Plan &p);
} // namespace sim
