// Oracles: each property is a predicate over a plan, decided by running it.
#pragma once
#include "exec.h"
#include <map>

struct Verdict {
  bool bad = false;
  std::string cls;     // class of the violation; kept while minimising
  std::string msg;
  bool nontrivial = false;
  uint64_t sig = 0;    // what was reached: results and interleaving
  uint64_t hash = 0;   // event log of every execution
  std::vector<rt::Switch> sw;   // switches of the main execution
  std::map<std::string, uint64_t> count;
};

Verdict evaluate(const Plan& p);
Plan minimise(Plan p, const Verdict& v, int max_evals, double max_seconds, int* used);
bool parse_reference(const std::string& s, std::vector<ref::Elem>& out, bool* uncertain);
// per-operation digest of a fault-free-network run (cross-build comparison)
std::string digest(const Plan& p);
