#pragma once
#include "plan.h"
namespace sim
{
// Executes a plan in the current (forked, fresh) process and never returns.
[[noreturn]] void exec_plan(Plan &p, uint64_t want_shared, uint64_t want_const);
[[noreturn]] void exec_scout(const struct Gen &g, uint64_t calls);
int  call_op(int op, Args &a);
} // namespace sim
