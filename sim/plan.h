// A plan is one complete, explicit simulated execution: the operations of every
// task, their inputs, the faults and the schedule.  It is generated from a seed
// or read from a replay file; running it involves no other choice.
#pragma once
#include <string>
#include <vector>
#include "geom.h"
#include "rt.h"

enum OpKind : int {
  K_NEW = 0,   // create the processor of a slot
  K_DEL,       // destroy it
  K_ADD,       // add a stream to it
  K_PROC,      // process
  K_PARSE,     // make_path on a text
  K_MATH,      // numeric helpers on the points of a stream
  K_PATH,      // build a path from a stream and traverse it
  K_YIELD,
  K_SEND,      // produce a stream, or pass on the output object `into`, for a channel
  K_RECVADD,   // take a stream from a channel and add it
  K_HAND,      // pass control of a slot to whoever waits on the channel
  K_TAKE,      // wait for that
  K_RECHECK,   // compare every kept output with what it was
  K_FEED,      // add an output object of the task (`into`) to a processor
  K_PIPE,      // add a result to a processor while another processor (`share`) delivers it
  K_DRAW,      // draw a stream onto the path object of a slot
  K_WALK,      // traverse that object; rule: callbacks left null (bits: move, line, curve)
  K_MOVEP,     // move its content to a new object (`share`)
  K_COUNT
};
extern const char* const op_names[K_COUNT];

enum Via : int { V_PATHS = 0, V_READER = 1, V_PATHS_ONE = 2 };     // V_PATHS_ONE: all contours in one path object
enum UFault : int { U_NONE = 0, U_THROW = 1, U_STOP = 2 };

struct Op {
  int k = K_YIELD;
  int slot = 0, kind = 0, stream = -1, via = 0;
  int op = 0, rule = 0;
  int fault = 0, at = 0;       // user fault (UFault) at element / callback number `at`
  int chan = 0;
  int share = -1;              // K_ADD via paths: use (and create) the shared input object of that number, never scrubbed
  int into = -1;               // K_PROC via paths: output variable of the task; -1: a fresh one
  int subat = -1;              // nested operations run at this callback
  int flags = 0;
  int cond = -1;               // only when the operation of that number ended with bad_alloc
  std::string text;
  std::vector<Op> sub;
};
enum OpFlags : int { OF_STUTTER = 1, OF_EMPTY = 2, OF_PREFILL = 4 };   // elements that draw nothing / empty paths between the others / output object in use before
const int INTO_SHARE = 100;    // into >= INTO_SHARE: the shared input object of number into - INTO_SHARE

struct Stream { std::vector<ref::Elem> e; };

struct Plan {
  std::string prop = "C01";
  uint64_t seed = 0;
  int profile = 0;
  int rounds = 1;
  double scale = 1;
  int curves = 0;
  std::vector<std::vector<Op>> tasks;
  std::vector<Stream> streams;
  rt::Mem mem;
  rt::Sched sched;
  std::vector<rt::AllocFault> faults;
  std::vector<int> net;        // C13: outcome of the i-th transfer
  int x0 = 0, x1 = 0;          // free parameters of a property
};

std::string to_text(const Plan&);
bool from_text(const std::string&, Plan&, std::string* err);
size_t count_ops(const Plan&);
std::vector<ref::Contour> contours_of(const Stream&, int kind);   // split at 'm'
// ids: operations are numbered per task in pre-order, nested ones included
void number_ops(const std::vector<Op>& v, std::vector<const Op*>& out);

// gen.cpp
Plan generate(const std::string& prop, uint64_t seed, bool thorough);
bool known_prop(const std::string&);
