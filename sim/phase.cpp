#include "phase.h"
#include "exec.h"
#include <cstdlib>
#include <sys/mman.h>
#include <unistd.h>
namespace sim
{
PhaseBlock *phase_block;
static Args *pargs;
void phase_run(int phase)
{
    PhaseBlock *b = phase_block;
    Thr        *t = self;
    for (uint32_t i = 0; i < b->n; i++)
    {
        PhaseItem &it = b->it[i];
        if (it.phase != phase)
            continue;
        Trig tr;
        memset((void *)&tr, 0, sizeof tr);
        tr.stall_ev = -1;
        tr.step_cap = b->step_cap;
        tr.mem_cap  = ~0ull >> 1;
        if (it.aseed & OVBIT)
            ovs[((it.aseed & ~OVBIT) >> 4) % Ov::COUNT] = it.ov;
        args_init(*pargs, it.op, it.aseed, 0);
        if (b->env.stack_fill != 257)
            rt_scrub_stack(b->env.stack_fill);
        rt_begin_item(t, (int)i, tr);
        it.st = call_op(it.op, *pargs);
        rt_end_item(t);
        it.hash = pargs->hash;
        it.nout = pargs->nout;
        it.done = 1;
        rt_loghash(it.hash);
        if (phase != 1)
            rt_fault(FK_PHASE);
    }
    if (b->want_const)
    {
        b->hconst[phase] = sut_hash_constants();
        b->hnamed[phase] = sut_hash_named();
    }
    b->reached[phase] = 1;
    rt_loghash(b->hconst[phase]);
    if (phase == 2)
        shm->done = 1;
}
} // namespace sim
using namespace sim;
__attribute__((constructor(101))) static void before_statics()
{
    sut_init();
    const char *e = getenv("SIM_PHASE_FD");
    if (!e)
        return;
    void *p = mmap(nullptr, sizeof(PhaseBlock), PROT_READ | PROT_WRITE, MAP_SHARED, atoi(e), 0);
    if (p == MAP_FAILED)
        _exit(4);
    phase_block = (PhaseBlock *)p;
    shm         = &phase_block->shm;
    env         = phase_block->env;
    pargs       = (Args *)malloc(sizeof(Args));
    log_on      = true;
    rt_main_thread();
    rt_init_child();
    self->in_sut = true;
    sut_make_shared();
    self->in_sut = false;
    phase_run(0);
}
__attribute__((destructor(101))) static void after_statics()
{
    if (phase_block)
        phase_run(2);
}
