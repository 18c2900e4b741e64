// Properties: each one generates seeded plans (a world with faults) and evaluates a plan
// against the invariants of the world and against reference worlds derived from the plan.
#pragma once
#include "world.hpp"
struct Plan { std::string prop; u64 seed = 0; int kind = 0; WorldSpec w; std::string text() const; bool parse(const std::string &t); };
struct Verdict {
  bool bad = false, nontrivial = false; std::string cls, detail; u64 hash = 0, shape = 0;
  u64 worlds = 0, steps = 0, switches = 0, calls = 0, frames = 0, compared = 0; std::map<std::string, u64> faults, probes;
  void fail(const std::string &c, const std::string &d) { if (!bad) { bad = true; cls = c; detail = d; } }
};
struct Prop { const char *id; bool san; Plan (*gen)(u64 seed, bool thorough); void (*eval)(const Plan &, Verdict &); };
extern const std::vector<Prop> g_props;
const Prop *find_prop(const std::string &id);
