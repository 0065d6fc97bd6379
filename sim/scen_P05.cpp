// P05: actions, tasks and stacks live exactly as long as they must.
#include "world_alloc.h"
#include "world_forms.h"

namespace h {
const char* const kProperty = "P05";
StackReg* g_stacks;
}
namespace tk { World* g_w; }
using namespace h;

namespace {
void gen_threads(rt::Rng& r, Program& p, bool thorough) {
  // start resume kill cancel drop next poll pause | mgr: add start resume cancel kill remove set_timeout tick find reset destroy | co_await kill | yield await throw keep
  static const tk::Profile f = {{4, 4, 3, 2, 6, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 0, 0, 1}, 2, 4, 0, 0, 9, 0, 2, 2};
  tk::gen(r, p, thorough, f);
}
void gen_one_thread(rt::Rng& r, Program& p, bool thorough) {
  // start resume kill cancel drop next poll pause | mgr: add start resume cancel kill remove set_timeout tick find reset destroy | co_await kill | yield await throw keep
  static const tk::Profile f = {{4, 4, 2, 1, 6, 2, 1, 0, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 6, 0, 0, 1}, 1, 1, 0, 1, 9, 0, 3, 3};
  tk::gen(r, p, thorough, f);
}
}  // namespace
namespace h {
const Scenario kScenarios[] = {
    {"threads", 3, gen_threads, tk::run, 60000, false, tk::kOps, tk::kProbes, TK_COMP},
    {"one_thread", 1, gen_one_thread, tk::run, 60000, false, tk::kOps, tk::kProbes, TK_COMP},
    {"creation_forms", 1, tf::gen, tf::run, 60000, false, tf::kOps, tf::kProbes, TK_COMP},
    {"allocators", 1, al::gen, al::run, 60000, false, al::kOps, al::kProbes, "stack_allocator_posix, _malloc, _memory (real); malloc, mmap, mprotect (simulated)"},
};
const int kNumScenarios = 4;
}  // namespace h
