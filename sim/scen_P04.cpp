// P04: every follow-up and waiter of a task is activated once.
#include "world_forms.h"

namespace h {
const char* const kProperty = "P04";
StackReg* g_stacks;
}
namespace tk { World* g_w; }
using namespace h;

namespace {
void gen_threads(rt::Rng& r, Program& p, bool thorough) {
  // start resume kill cancel drop next poll pause | mgr: add start resume cancel kill remove set_timeout tick find reset destroy | co_await kill | yield await throw
  static const tk::Profile f = {{4, 4, 3, 2, 0, 6, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 4, 0}, 2, 4, 0, 0, 0, 6, 0, 3};
  tk::gen(r, p, thorough, f);
}
void gen_one_thread(rt::Rng& r, Program& p, bool thorough) {
  // start resume kill cancel drop next poll pause | mgr: add start resume cancel kill remove set_timeout tick find reset destroy | co_await kill | yield await throw
  static const tk::Profile f = {{4, 4, 3, 2, 1, 5, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 3, 1, 5, 4, 1}, 1, 1, 0, 1, 0, 6, 0, 4};
  tk::gen(r, p, thorough, f);
}
}  // namespace
namespace h {
const Scenario kScenarios[] = {
    {"threads", 3, gen_threads, tk::run, 60000, false, tk::kOps, tk::kProbes, TK_COMP},
    {"one_thread", 1, gen_one_thread, tk::run, 60000, false, tk::kOps, tk::kProbes, TK_COMP},
    {"creation_forms", 1, tf::gen, tf::run, 60000, false, tf::kOps, tf::kProbes, TK_COMP},
};
const int kNumScenarios = 3;
}  // namespace h
