// P13: awaitable calls: one result, one resumption, clean kill.
#include "world_c20.h"

namespace h {
const char* const kProperty = "P13";
}
using namespace h;
namespace {
//                            CRE STA OPE SET RES KIL DRO MOV COP GNE GDR GCO THE POL | AWA LOC TMP GAT GEN SOM STA THR RET EMP LAT
const c20::Profile kCalls = {{8, 0, 8, 0, 0, 5, 4, 1, 0, 0, 0, 0, 0, 2, 8, 8, 3, 8, 0, 0, 2, 1, 2, 1, 1}, {5, 3, 3, 0, 0, 0}, 0, 0};
const c20::Profile kMixed = {{8, 3, 6, 3, 1, 5, 4, 1, 1, 0, 1, 0, 1, 2, 8, 6, 2, 6, 4, 2, 2, 1, 2, 1, 1}, {5, 2, 2, 2, 1, 1}, 3, 0};
void gen_calls(rt::Rng& r, Program& p, bool t) { c20::gen(r, p, t, kCalls); }
void gen_mixed(rt::Rng& r, Program& p, bool t) { c20::gen(r, p, t, kMixed); }
}  // namespace
namespace h {
const Scenario kScenarios[] = {
    {"call_trees", 3, gen_calls, c20::run, 200000, false, c20::kOps, c20::kProbes, c20::kComp},
    {"calls_in_mixed_histories", 2, gen_mixed, c20::run, 200000, false, c20::kOps, c20::kProbes, c20::kComp},
};
const int kNumScenarios = 2;
}  // namespace h
