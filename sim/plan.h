// Plans: everything one simulated run does, explicit and replayable.
#pragma once
#include "rt.h"
#include <string>
#include <vector>

namespace sim
{
enum ItemType
{
    IT_CALL,
    IT_STREAM,
    IT_ICC,
    IT_COR
};
// stream life-cycle codes, continuing SCode
enum
{
    SM_NEW = 100, // empty stream
    SM_NEWMEM,    // from memory (buf)
    SM_COPY,      // copy-construct from sid2
    SM_ASSIGN,    // assign from sid2
    SM_DEL,
    SM_RELOAD, // save, lose the stream, rebuild; u: 0 clean 1 truncate to n 2 xor buf at n 3/4 overwrite with buf at n
    SM_SCRIB,  // overwrite the source memory the stream was made from
    SM_SRCFREE // free it
};

struct Nested
{
    int      op;
    uint32_t aseed;
    // expectation
    uint64_t eh = 0;
    uint32_t en = 0;
    int      est = 0;
};
struct Intr
{
    uint32_t            ev;
    std::vector<Nested> calls;
};
struct Item
{
    int type = IT_CALL;
    // computation
    int      op    = 0;
    uint32_t aseed = 0;
    uint32_t dseed = 0;
    bool     twin  = false; // element containment: run clean and damaged, compare undamaged elements
    int      phase = 1;     // 0 before main, 1 main, 2 after exit began
    // stream
    int                  sid = 0, sid2 = 0, code = 0;
    uint64_t             u = 0, n = 0;
    std::vector<uint8_t> buf;
    // faults
    uint32_t          fail_n = 0;
    bool              fail_persist = false;
    int64_t           stall_ev     = -1;
    uint32_t          stall_sync = 0, intr_sync = 0;
    std::vector<Intr> intr;
    std::vector<Sw>   sw;
    // expectation, filled in from the reference
    uint64_t eh  = 0;
    uint32_t en  = 0;
    int      est = ST_OK;
    int      chk = 0; // 0 nothing, 1 equal, 2 equal or out of memory (only if an allocation was made to fail)
    bool     leak = false;
    uint32_t rep = 0;  // so many further calls come first
    bool     repv = false; // each with other arguments
};
struct Plan
{
    std::string                    prop;
    std::string                    work;      // the property whose workload this is, if another's
    bool                           tidy = false; // nothing may be left behind
    uint64_t                       stack_cap = 0; // bytes of stack a call may use, 0: any
    const std::string &base() const { return work.empty() ? prop : work; }
    std::string                    flavour = "main";
    Env                            env{257, 0, 0, 0, 0, 0, 0, 0};
    SchedGen                       sg{0, 0, 0, 0, 0};
    bool                           race = false, shared = true, hashes = false, fpmode = false, iocheck = false;
    bool                           ref = false;
    bool                           phases = false;
    int                            asthread = 0; // run the only thread as thread number n
    uint64_t                       step_cap = 60000000;
    std::vector<Item>              pro; // prologue on the main thread
    std::vector<std::vector<Item>> th;
    std::string                    note;
    // expectation recorded in a replay file
    std::string xkind;
    uint64_t    xhash = 0;
    size_t items() const
    {
        size_t k = pro.size();
        for (auto &t : th)
            k += t.size();
        return k;
    }
};
struct Outcome
{
    bool        viol = false;
    std::string kind, msg;
    int         vt = -1, vi = -1; // thread (-1: prologue) and item
    uint64_t    loghash = 0;
    std::vector<RecSw> rec;
    bool        infra = false; // the simulator itself failed
};

std::string plan_text(const Plan &p);
bool        plan_parse(const std::string &s, Plan &p, std::string &err);
int         op_index(const char *name);
int         code_index(const std::string &name);
std::string code_name(int c);

// ---- byte-array model of a stream
struct Model
{
    std::vector<uint8_t> b;
    size_t               cur = 0;
    bool                 rb = false, wb = false;
    bool                 live = false;
};
struct Exp
{
    bool                 cru = false, cri = false, cb = false, str = false;
    uint64_t             ru = 0;
    int64_t              ri = 0;
    std::vector<uint8_t> bytes;
    size_t               strmax = 0;
    bool                 hit_end = false; // read past the end of the data
    bool                 wrote = false, wseq = false;
    size_t               wpos = 0;
    std::vector<uint8_t> wdata;
};
bool model_apply(Model &m, const Item &it, Exp &e);
std::vector<uint8_t> damaged_image(const std::vector<uint8_t> &b, const Item &it);

enum Group
{
    G_RAW    = 1,
    G_SEEK   = 2,
    G_U8     = 4,
    G_TYPED  = 8,
    G_ENDIAN = 16,
    G_PTR    = 32,
    G_ALIGN  = 64,
    G_STR    = 128,
    G_MISC   = 256,
    G_LIFE   = 512,
    G_READ   = 1024 // any reading operation
};
int group_of(int code);
int own_groups(const std::string &prop);
} // namespace sim
