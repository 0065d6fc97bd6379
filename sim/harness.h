// Scenario interface shared by all simulated workloads.
#pragma once
#include "rt.h"

#include <stdint.h>
#include <stdio.h>
#include <functional>
#include <string>
#include <vector>

namespace h {

struct Op {
  int th;    // simulated thread (or actor) the operation belongs to
  int code;  // operation
  int a, b, c;
};

enum { kCfg = 16 };
struct Program {
  int cfg[kCfg];
  std::vector<Op> ops;
};

struct Scenario {
  const char* name;
  int weight;
  void (*gen)(rt::Rng&, Program&, bool thorough);
  void (*run)(const Program&);
  uint32_t max_steps;
  bool race_fatal;
  const char* const* opnames;      // null-terminated
  const char* const* probes;       // null-terminated, global ids assigned in order of registration
  const char* components;          // what runs real code
};

// every scenario source defines these
extern const char* const kProperty;
extern const Scenario kScenarios[];
extern const int kNumScenarios;
// committed regression programs for recorded findings live in replay files, not here

// ---- helpers for scenarios
struct Thread {
  std::function<void()> fn;
  int tid = -1;
};
inline void thread_entry(void* p) { (*static_cast<std::function<void()>*>(p))(); }

// runs the functions as simulated threads 1..n and joins them
inline void run_threads(std::vector<std::function<void()>>& fns) {
  std::vector<int> tids;
  tids.reserve(fns.size());
  for (size_t i = 0; i < fns.size(); ++i) tids.push_back(rt::spawn(thread_entry, &fns[i]));
  for (size_t i = 0; i < tids.size(); ++i) rt::join(tids[i]);
}

// run harness-only code without scheduling points or access checks
template <class F>
inline auto quiet(F&& f) -> decltype(f()) {
  rt::Quiet q;
  return f();
}

// probe ids inside a scenario are local; base is set before the run
extern int g_probe_base;
inline void reach(int id) { rt::probe(g_probe_base + id); }

}  // namespace h
