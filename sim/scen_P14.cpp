// P14: awaitable generators wake every waiter once with the value.
#include "world_c20.h"

namespace h {
const char* const kProperty = "P14";
}
using namespace h;
namespace {
//                            CRE STA OPE SET RES KIL DRO MOV COP GNE GDR GCO THE POL | AWA LOC TMP GAT GEN SOM STA THR RET EMP LAT
const c20::Profile kGen = {{8, 1, 2, 8, 2, 5, 4, 0, 0, 1, 3, 2, 0, 1, 2, 2, 1, 1, 12, 0, 2, 1, 2, 1, 1}, {4, 2, 2, 1, 1, 1}, 4, 0};
const c20::Profile kMixed = {{8, 3, 4, 6, 2, 4, 4, 1, 1, 1, 3, 2, 1, 1, 5, 4, 2, 3, 8, 3, 2, 1, 2, 1, 1}, {4, 2, 2, 2, 1, 1}, 5, 0};
void gen_gen(rt::Rng& r, Program& p, bool t) { c20::gen(r, p, t, kGen); }
void gen_mixed(rt::Rng& r, Program& p, bool t) { c20::gen(r, p, t, kMixed); }
}  // namespace
namespace h {
const Scenario kScenarios[] = {
    {"generator_waiters", 3, gen_gen, c20::run, 200000, false, c20::kOps, c20::kProbes, c20::kComp},
    {"generators_in_mixed_histories", 2, gen_mixed, c20::run, 200000, false, c20::kOps, c20::kProbes, c20::kComp},
};
const int kNumScenarios = 2;
}  // namespace h
