// P06: timeouts fire once, never early, at the first later tick.
#include "world_task.h"
#include "world_mgr20.h"

namespace h {
const char* const kProperty = "P06";
StackReg* g_stacks;
}
namespace tk { World* g_w; }
using namespace h;

namespace {
void gen_manager(rt::Rng& r, Program& p, bool thorough) {
  // start resume kill cancel drop next poll pause | mgr: add start resume cancel kill remove set_timeout tick find reset destroy | co_await kill | yield await throw
  static const tk::Profile f = {{3, 3, 1, 1, 0, 1, 1, 0, 8, 2, 2, 1, 1, 2, 6, 12, 1, 1, 0, 0, 0, 6, 1, 1}, 1, 1, 1, 2, 0, 0, 0, 4};
  tk::gen(r, p, thorough, f);
}
void gen_cxx20(rt::Rng& r, Program& p, bool thorough) {
  // start kill drop open set | mgr: add start cancel kill remove set_timeout tick find reset destroy | await gate generator
  static const m20::Profile f = {{4, 1, 1, 2, 2, 8, 2, 1, 1, 2, 6, 14, 1, 1, 1, 2, 3, 4}};
  m20::gen(r, p, thorough, f);
}
}  // namespace
namespace h {
const Scenario kScenarios[] = {
    {"manager", 1, gen_manager, tk::run, 60000, false, tk::kOps, tk::kProbes, TK_COMP},
    {"cxx20_manager", 1, gen_cxx20, m20::run, 60000, false, m20::kOps, m20::kProbes, M20_COMP},
};
const int kNumScenarios = 2;
}  // namespace h
