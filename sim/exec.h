// Runs a plan in a forked child and reads back what happened.
#pragma once
#include "plan.h"

enum OpStatus : int { R_NONE = 0, R_FINE, R_BADALLOC, R_USER, R_OTHER, R_SKIP, R_BREAK };
extern const char* const status_names[];
enum ResFlag : uint32_t {
  FL_FROM = 1,       // callback: `from` is not the end of the previous element
  FL_OPEN = 2,       // a contour of the result is not closed
  FL_NOMOVE = 4,     // drawing callback before any move_to
  FL_USERPTR = 8,    // callback got another user pointer
  FL_ARC = 16,       // arc callback
  FL_THREAD = 32,    // callback on another task
  FL_CHANGED = 64,   // a kept output changed
  FL_OLDLOST = 128,  // what the output held before is not intact
  FL_INPUT = 256,    // an input object changed
  FL_ID = 512,       // the caller's exception arrived altered
  FL_MALFORMED = 1024,  // output object is inconsistent
  FL_ARGS = 4096,    // arguments of a callback changed while it ran
  FL_AFTER = 2048    // callback after the caller's exception was thrown
};
std::string flag_names(uint32_t f);

struct OpRes {
  int status = R_NONE;
  uint32_t flags = 0;
  int extra = -1;
  uint64_t steps = 0, allocs = 0, order = 0;
  std::vector<ref::Elem> out;     // elements produced by the operation
};
struct Post { int url; std::string body; int outcome, task, op; };   // develop build: one transfer

struct RunRes {
  int anomaly = 0, an_task = -1, an_op = -1, sig = 0;
  std::string msg;
  std::vector<std::vector<OpRes>> ops;    // [task][op], last round
  std::vector<std::vector<OpRes>> ops0;   // first round when rounds > 1
  size_t leak[3] = {0, 0, 0};
  std::string leakwhat;
  std::vector<rt::Switch> sw;
  uint64_t hash = 0, inter = 0, stat[rt::NSTAT] = {};
  std::vector<Post> posts;
  std::vector<rt::Shared::Site> sites;    // with RunOpt::sites: the place of every allocation
  int handles = 0, parts = 0;             // develop build: transfer handles / bodies not released
};

struct RunOpt { bool races = false; uint64_t op_limit = 0; bool sites = false; };

void exec_init();
RunRes run_plan(const Plan&, const RunOpt& = RunOpt());
// elements that actually reach the library for an add operation
std::vector<ref::Elem> delivered(const Plan&, const Op&);
std::vector<ref::Elem> expand(const Stream&, int flags);
uint64_t bits_hash(const std::vector<ref::Elem>&);
bool same_bits(const std::vector<ref::Elem>&, const std::vector<ref::Elem>&);
extern uint64_t g_execs;
extern uint64_t g_total_stat[rt::NSTAT];
