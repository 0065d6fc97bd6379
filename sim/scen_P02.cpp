// P02: exceptions escape to the right caller exactly once.
#include "world_task.h"
#include "world_co.h"

namespace h {
const char* const kProperty = "P02";
StackReg* g_stacks;
}
namespace tk { World* g_w; }
namespace co { World* g_w; }
using namespace h;

namespace {
void gen_coroutines(rt::Rng& r, Program& p, bool thorough) {
  //                           DRIVE POLL ERR OUTY DROP SPIN YIELD TYIELD NEST SELF THROW SPIN DEEP REGS CNEST EXPR
  static const co::Profile f = {{6, 1, 2, 1, 1, 0, 4, 2, 4, 1, 5, 1, 0, 0, 5, 1}};
  co::gen(r, p, thorough, f, 4);
}
void gen_tasks_mt(rt::Rng& r, Program& p, bool thorough) {
  // start resume kill cancel drop next poll pause | mgr: add start resume cancel kill remove set_timeout tick find reset destroy | co_await kill | yield await throw
  static const tk::Profile f = {{4, 4, 3, 2, 0, 3, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 3, 7}, 2, 4, 0, 0, 0, 2, 0, 4};
  tk::gen(r, p, thorough, f);
}
void gen_tasks_one(rt::Rng& r, Program& p, bool thorough) {
  static const tk::Profile f = {{4, 4, 2, 2, 0, 3, 1, 0, 5, 3, 3, 2, 2, 2, 1, 3, 1, 1, 0, 2, 0, 5, 3, 7}, 1, 1, 0, 2, 0, 2, 0, 6};
  tk::gen(r, p, thorough, f);
}
}  // namespace
namespace h {
const Scenario kScenarios[] = {
    {"coroutines", 1, gen_coroutines, co::run, 60000, false, co::kOps, co::kProbes,
     "coroutine_context, coroutine_context_container, fcontext assembly, stack allocators, stack_pool (real); threads, mmap, mprotect, malloc, thread-local keys (simulated)"},
    {"tasks_threads", 1, gen_tasks_mt, tk::run, 60000, false, tk::kOps, tk::kProbes, TK_COMP},
    {"tasks_one_thread", 1, gen_tasks_one, tk::run, 60000, false, tk::kOps, tk::kProbes, TK_COMP},
};
const int kNumScenarios = 3;
}  // namespace h
