// Simulator runtime: owns scheduling, memory and every other source of
// nondeterminism that the library under test can reach.
//
// The library is compiled with clang -fsanitize=thread and linked WITHOUT the
// sanitizer runtime: rt.cpp supplies the __tsan_* entry points.  So every load,
// store and atomic of the library is a call into this file, and each of those
// calls is a potential context switch under the simulator's control.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace rt {

constexpr int MAXT = 6;

// ---- memory -----------------------------------------------------------------
enum Place : int { PL_BUMP = 0, PL_DOWN, PL_LIFO, PL_SCATTER, PL_COUNT };
enum Fill : int { FI_ZERO = 0, FI_FF, FI_CD, FI_RAND, FI_ONE, FI_KEEP, FI_SMALL, FI_COUNT };
struct Mem {
  int place = PL_BUMP, fill = FI_CD, freefill = 1, stackfill = 0xA5;
  uint64_t seed = 1;        // placement, fill and the world clock / rand() of the library
};

// ---- faults -----------------------------------------------------------------
struct AllocFault {
  int task = 0, op = 0;
  uint32_t k = 0, burst = 1;   // allocations k .. k+burst-1 of that op fail
  uint32_t min_size = 0;       // only requests of at least this size
};

// ---- schedule ---------------------------------------------------------------
enum Strat : int { ST_RANDOM = 0, ST_PCT, ST_BURST, ST_EXPLICIT, ST_COUNT };
struct Switch { int task; uint64_t step; int to; int why; };   // why: 0 timed 1 global 2 shared 3 yield 4 blocked 5 finished
struct Sched {
  int strat = ST_RANDOM;
  uint64_t seed = 1;
  uint32_t mean = 1000;
  int depth = 3;
  uint64_t length = 100000;    // PCT: expected number of steps
  double p_global = 0.3, p_shared = 0.05, p_yield = 0.3;
  int stall = -1;              // this task is parked at its first user callback until all others are done
  std::vector<Switch> list;    // ST_EXPLICIT
};

struct Config {
  Mem mem;
  Sched sched;
  std::vector<AllocFault> faults;
  bool races = false;
  bool sites = false;              // record where in the library every allocation is made
  uint64_t op_step_limit = 0;      // 0: default
};

// ---- anomalies --------------------------------------------------------------
enum Anomaly : int {
  AN_NONE = 0, AN_BADACCESS, AN_RACE, AN_DEADLOCK, AN_NOPROGRESS, AN_BADFREE, AN_INPUTWRITE, AN_CRASH, AN_HANG, AN_LEAK,
  AN_HARNESS, AN_MISUSE
};
const char* anomaly_name(int);

constexpr int NSTAT = 24;
enum Stat : int {
  S_STEPS = 0, S_SWITCH, S_ALLOC, S_FREE, S_ALLOCFAULT, S_GLOBALACC, S_GLOBALWR, S_SHAREDACC, S_ATOMIC, S_LOCK, S_GUARD,
  S_CLOCK, S_RAND, S_YIELD, S_STALL, S_SW_TIMED, S_SW_GLOBAL, S_SW_SHARED, S_SW_YIELD, S_PEAK
};

// Result area shared with the parent process.
struct Shared {
  volatile int cur_task;
  volatile int cur_op[MAXT];
  int anomaly, an_task, an_op;
  char msg[400];
  uint64_t hash;
  uint64_t stat[NSTAT];
  uint64_t inter;           // hash of the switch sequence (an interleaving)
  uint32_t nswitch;         // recorded switches, at most MAXSW
  uint32_t complete;
  uint32_t nsite;
  uint64_t used;            // bytes of data[]
  uint64_t cap;
  enum { MAXSW = 1 << 16, MAXSITE = 1 << 15 };
  Switch sw[MAXSW];
  struct Site { int task, op; uint32_t k; uint64_t site; } site[MAXSITE];   // allocation k of an operation
  uint8_t data[1];
};

// Child side ------------------------------------------------------------------
void init_process();                      // once, before the first fork: fixed mappings
void begin(const Config& c, Shared* sh);  // in the child
typedef void (*TaskFn)(int task, void* arg);
void run_tasks(int n, TaskFn fn, void* arg);   // returns when all tasks are done
void end_run();

// mode of the calling task
enum Mode : int { USER = 0, LIB = 1, QUIET = 2 };
struct Scope {           // enters a mode for the lifetime of the object
  int old;
  explicit Scope(int m);
  ~Scope();
};
struct OpScope {          // an operation: own allocation counter and step budget
  int o_op, o_round;
  uint64_t o_start, o_alloc;
  OpScope(int op, int round);
  ~OpScope();
};
uint64_t op_steps();
uint64_t op_allocs();
void yield();            // explicit scheduling point in user code (callbacks)
void callback_point();   // as yield(), and where a stalled task parks
void hash(uint64_t v);
uint64_t steps();
int self();

// allocation bookkeeping
struct Live { size_t blocks, bytes; };
Live live();
uint64_t alloc_seq();
size_t live_round(int round, std::string* what);   // blocks of the library allocated in that round and still alive
void protect(const void* p, bool on);   // block becomes read-only for the library
bool in_arena(const void* p);
// channel between tasks (happens-before edge + blocking)
void chan_send(int chan);
bool chan_recv(int chan);      // false: no sender left
void anomaly(int code, const char* fmt, ...);   // fatal: ends the run

}  // namespace rt
