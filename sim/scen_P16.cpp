// P16: waiting for some, any or all completes exactly on condition.
#include "world_c20.h"

namespace h {
const char* const kProperty = "P16";
}
using namespace h;
namespace {
//                            CRE STA OPE SET RES KIL DRO MOV COP GNE GDR GCO THE POL | AWA LOC TMP GAT GEN SOM STA THR RET EMP LAT
const c20::Profile kAll = {{8, 4, 6, 6, 1, 4, 3, 1, 1, 0, 2, 1, 0, 1, 3, 1, 0, 6, 3, 14, 2, 1, 1, 1, 1}, {4, 0, 4, 4, 0, 4}, 3, 0};
const c20::Profile kGens = {{8, 1, 2, 10, 2, 4, 3, 0, 0, 0, 2, 1, 0, 1, 2, 1, 0, 1, 3, 14, 2, 1, 1, 1, 1}, {4, 0, 2, 2, 0, 1}, 6, 0};
void gen_all(rt::Rng& r, Program& p, bool t) { c20::gen(r, p, t, kAll); }
void gen_gens(rt::Rng& r, Program& p, bool t) { c20::gen(r, p, t, kGens); }
}  // namespace
namespace h {
const Scenario kScenarios[] = {
    {"groups", 3, gen_all, c20::run, 200000, false, c20::kOps, c20::kProbes, c20::kComp},
    {"groups_of_generators", 2, gen_gens, c20::run, 200000, false, c20::kOps, c20::kProbes, c20::kComp},
};
const int kNumScenarios = 2;
}  // namespace h
