// Calls made before main and after exit began: a fresh process image is needed for each run.
#pragma once
#include "rt.h"
namespace sim
{
struct PhaseItem
{
    int      op;
    uint32_t aseed;
    int      phase;
    Ov       ov; // if aseed names replaced arguments
    // results
    int      done, st;
    uint64_t hash;
    uint32_t nout;
};
struct PhaseBlock
{
    uint32_t  n;
    Env       env;
    uint64_t  step_cap;
    int       want_const;
    int       reached[3];
    uint64_t  hconst[3], hnamed[3];
    PhaseItem it[64];
    Shm       shm;
};
extern PhaseBlock *phase_block; // non-null in such a process
void phase_run(int phase);
} // namespace sim
