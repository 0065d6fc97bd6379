// P01: stackful coroutine control transfer and exclusive execution.
#include "world_coforms.h"

namespace h {
const char* const kProperty = "P01";
StackReg* g_stacks;
}
namespace co { World* g_w; }
using namespace h;

namespace {
void gen(rt::Rng& r, Program& p, bool thorough) {
  //                           DRIVE POLL ERR OUTY DROP SPIN YIELD TYIELD NEST SELF THROW SPIN DEEP REGS CNEST EXPR
  static const co::Profile f = {{6, 2, 4, 1, 1, 1, 5, 3, 2, 1, 1, 2, 0, 1, 2, 0}};
  co::gen(r, p, thorough, f, 2);
}
}  // namespace
namespace h {
const Scenario kScenarios[] = {
    {"drive", 4, gen, co::run, 60000, false, co::kOps, co::kProbes,
     "coroutine_context, coroutine_context_container, fcontext assembly, stack allocators, stack_pool (real); threads, mmap, mprotect, malloc, thread-local keys (simulated)"},
    {"creation_forms", 1, cf::gen, cf::run, 60000, false, cf::kOps, cf::kProbes,
     "coroutine_context, coroutine_context_container, fcontext assembly, stack allocators, stack_pool (real); threads, mmap, mprotect, malloc, thread-local keys (simulated)"},
};
const int kNumScenarios = 2;
}  // namespace h
