// P15: C++20 tasks: one outcome, all waiters woken, state released.
#include "world_c20.h"

namespace h {
const char* const kProperty = "P15";
}
using namespace h;
namespace {
//                            CRE STA OPE SET RES KIL DRO MOV COP GNE GDR GCO THE POL | AWA LOC TMP GAT GEN SOM STA THR RET EMP LAT
const c20::Profile kTask = {{8, 5, 6, 0, 0, 4, 4, 2, 3, 0, 0, 0, 0, 3, 8, 4, 0, 7, 0, 0, 2, 1, 2, 1, 1}, {1, 0, 1, 5, 3, 3}, 0, 0};
const c20::Profile kThen = {{8, 5, 5, 0, 0, 4, 4, 2, 2, 0, 0, 0, 9, 3, 5, 2, 0, 6, 0, 0, 2, 1, 2, 1, 1}, {0, 3, 3, 4, 4, 4}, 0, 0};
const c20::Profile kMixed = {{8, 4, 5, 4, 1, 4, 4, 1, 2, 0, 1, 1, 3, 2, 6, 4, 1, 4, 4, 3, 2, 1, 2, 1, 1}, {2, 2, 1, 4, 2, 2}, 3, 0};
void gen_task(rt::Rng& r, Program& p, bool t) { c20::gen(r, p, t, kTask); }
void gen_then(rt::Rng& r, Program& p, bool t) { c20::gen(r, p, t, kThen); }
void gen_mixed(rt::Rng& r, Program& p, bool t) { c20::gen(r, p, t, kMixed); }
}  // namespace
namespace h {
const Scenario kScenarios[] = {
    {"task_trees", 2, gen_task, c20::run, 200000, false, c20::kOps, c20::kProbes, c20::kComp},
    {"task_continuations", 2, gen_then, c20::run, 200000, false, c20::kOps, c20::kProbes, c20::kComp},
    {"tasks_in_mixed_histories", 1, gen_mixed, c20::run, 200000, false, c20::kOps, c20::kProbes, c20::kComp},
};
const int kNumScenarios = 3;
}  // namespace h
