// P03: a task finishes exactly once, with one stable outcome.
#include "world_forms.h"

namespace h {
const char* const kProperty = "P03";
StackReg* g_stacks;
}
namespace tk { World* g_w; }
using namespace h;

namespace {
void gen_mt(rt::Rng& r, Program& p, bool thorough) {
  static const tk::Profile f = {{/*START*/ 5, /*RESUME*/ 5, /*KILL*/ 4, /*CANCEL*/ 3, /*DROP*/ 0, /*NEXT*/ 1, /*POLL*/ 2, /*PAUSE*/ 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
                                 /*YIELD*/ 6, /*AWAIT*/ 1, /*THROW*/ 1}, 2, 4, 0, 0, 0, 0, 0, 2};
  tk::gen(r, p, thorough, f);
}
void gen_one(rt::Rng& r, Program& p, bool thorough) {
  static const tk::Profile f = {{5, 5, 5, 3, 2, 2, 2, 0, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 6, 1, 0, 1}, 1, 1, 0, 1, 2, 0, 0, 3};
  tk::gen(r, p, thorough, f);
}
}  // namespace
namespace h {
const Scenario kScenarios[] = {
    {"threads", 3, gen_mt, tk::run, 60000, false, tk::kOps, tk::kProbes, TK_COMP},
    {"one_thread", 1, gen_one, tk::run, 60000, false, tk::kOps, tk::kProbes, TK_COMP},
    {"creation_forms", 1, tf::gen, tf::run, 60000, false, tf::kOps, tf::kProbes, TK_COMP},
};
const int kNumScenarios = 3;
}  // namespace h
