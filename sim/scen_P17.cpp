// P17: each stackful coroutine keeps its own stack and registers.
#include "world_co.h"

namespace h {
const char* const kProperty = "P17";
StackReg* g_stacks;
}
namespace co { World* g_w; }
using namespace h;

namespace {
void gen(rt::Rng& r, Program& p, bool thorough) {
  //                           DRIVE POLL ERR OUTY DROP SPIN YIELD TYIELD NEST SELF THROW SPIN DEEP REGS CNEST EXPR
  static const co::Profile f = {{3, 0, 6, 0, 1, 0, 2, 1, 1, 0, 1, 0, 4, 5, 2, 3}};
  co::gen(r, p, thorough, f, 4);
}
}  // namespace
namespace h {
const Scenario kScenarios[] = {
    {"state", 1, gen, co::run, 60000, false, co::kOps, co::kProbes,
     "coroutine_context, coroutine_context_container, fcontext assembly, stack allocators, stack_pool (real); threads, mmap, mprotect, malloc, thread-local keys (simulated)"},
};
const int kNumScenarios = 1;
}  // namespace h
