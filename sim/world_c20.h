// A single-threaded world of C++20 coroutines (callable_future, generator_future, task_future, some/any/all, then)
// driven by seeded histories of creations, awaits, completions, kills, drops and re-entrant actions, and checked
// against a model of what every coroutine waits for and may have been told. Used by P13, P14, P15 and P16.
#pragma once
#include "harness.h"

namespace c20 {
enum {
  // act ops (any actor)
  CREATE, START, OPEN, SET, RESET, KILL, DROP, MOVE, COPY, GNEW, GDROP, GCOPY, THEN, POLL, NACT,
  // body ops
  AWAIT = NACT, AWAIT_LOCAL, AWAIT_TEMP, GATE, AWAIT_GEN, SOME, STATUS, THROW, RET, EMPTY, LATE, NOPS
};
extern const char* const kOps[];
extern const char* const kProbes[];
struct Profile {
  int w[NOPS];
  int kinds[6];      // weights of callable<Val> callable<int> callable<void> task<Val> task<int> task<void>
  int hooks;         // chance in 10 that a generator has acting hooks
  int copies;        // unused weight slot
};
void gen(rt::Rng& r, h::Program& p, bool thorough, const Profile& pf);
void run(const h::Program& p);
extern const char* const kComp;
}  // namespace c20
