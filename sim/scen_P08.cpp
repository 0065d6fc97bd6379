// P08: a task manager may be shared by threads.
#include "world_task.h"

namespace h {
const char* const kProperty = "P08";
StackReg* g_stacks;
}
namespace tk { World* g_w; }
using namespace h;

namespace {
void gen_threads(rt::Rng& r, Program& p, bool thorough) {
  // start resume kill cancel drop next poll pause | mgr: add start resume cancel kill remove set_timeout tick find reset destroy | co_await kill | yield await throw
  static const tk::Profile f = {{2, 2, 1, 1, 0, 1, 1, 1, 8, 5, 5, 3, 3, 3, 2, 3, 3, 0, 0, 0, 0, 6, 0, 0}, 2, 4, 1, 1, 0, 0, 0, 2};
  tk::gen(r, p, thorough, f);
}
void gen_lookups(rt::Rng& r, Program& p, bool thorough) {
  // start resume kill cancel drop next poll pause | mgr: add start resume cancel kill remove set_timeout tick find reset destroy | co_await kill | yield await throw
  static const tk::Profile f = {{1, 1, 1, 0, 0, 0, 1, 0, 9, 2, 2, 5, 5, 5, 1, 2, 5, 0, 0, 0, 0, 3, 0, 0}, 2, 3, 1, 2, 0, 0, 0, 1};
  tk::gen(r, p, thorough, f);
}
}  // namespace
namespace h {
const Scenario kScenarios[] = {
    {"threads", 3, gen_threads, tk::run, 60000, false, tk::kOps, tk::kProbes, TK_COMP},
    {"lookups", 3, gen_lookups, tk::run, 60000, false, tk::kOps, tk::kProbes, TK_COMP},
};
const int kNumScenarios = 2;
}  // namespace h
