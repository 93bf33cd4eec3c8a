#include "rt.h"
#include "geom.h"   // Rng

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>

// Boundaries of the library's writable static storage (see bounds_begin.s / bounds_end.s)
extern "C" char sim_data_begin[], sim_data_end[], sim_bss_begin[], sim_bss_end[], sim_text_begin[], sim_text_end[];

namespace rt {

// ---------------------------------------------------------------------------
static const uintptr_t ARENA = 0x200000000000ull;
static const uintptr_t ARENA_SIZE = 256ull << 20;
static const uintptr_t STACKS = 0x210000000000ull;
static const uintptr_t STACK_SIZE = 4ull << 20;
static const uintptr_t STATE = 0x220000000000ull;    // one byte per granule: 0 dead, 1..8 live bytes, 0x80 read-only
static const uintptr_t CELLS = 0x230000000000ull;    // race records
static const uintptr_t BLOCKS = 0x250000000000ull;   // block table
static const uintptr_t BIDX = 0x260000000000ull;     // granule -> block number
static const size_t NGRAN = ARENA_SIZE / 8;
static const int ZONES = 16;

struct Cell {
  uint32_t wclk;
  uint8_t wt, wmask, pad[2];
  uint32_t rclk[MAXT];
  uint8_t rmask[MAXT];
  uint8_t last;      // last task + 1
  uint8_t pad2;
};

struct Block {
  uint64_t addr;
  uint32_t size, next;   // next: free list
  uint64_t seq;
  int16_t task, op;
  uint8_t state;         // 1 live 2 free
  uint8_t user;          // allocated in QUIET mode: belongs to the caller
  uint8_t ro, cls_ok;
  uint8_t round, pad_[7];
};

static uint8_t* const g_state = (uint8_t*)STATE;
static Cell* const g_cells = (Cell*)CELLS;
static Block* const g_blocks = (Block*)BLOCKS;
static uint32_t* const g_bidx = (uint32_t*)BIDX;
static Cell* g_gcells = nullptr;   // for library globals (data, then bss)
static const uint32_t MAXBLOCKS = 8u << 20;

struct Task {
  int id = -1;
  pthread_t th{};
  sem_t sem{};
  int mode = USER;
  uint64_t steps = 0;
  int64_t countdown = 1ll << 60;
  int op = -1;
  uint64_t op_start = 0, op_lim = 0;
  uint32_t op_alloc = 0;
  int round = 0;
  bool chan_wait = false, chan_closed = false;
  bool done = false, blocked = false, stalled = false, stall_used = false;
  const void* wait_on = nullptr;
  uint32_t vc[MAXT] = {};
  int prio = 0;
  uint32_t atomics = 0;
  TaskFn fn = nullptr;
  void* arg = nullptr;
};

static __thread Task* tl = nullptr;
static Task g_main;
static Task g_tasks[MAXT];
static int g_ntasks = 0;
static Config* g_cfg = nullptr;
static Shared* g_sh = nullptr;
static ref::Rng g_srng(1), g_mrng(1), g_wrng(1);
static uint64_t g_seq, g_liveb, g_livebytes;
static uint32_t g_nblocks;
static uint64_t g_bump, g_down, g_zone[ZONES];
static uint32_t g_free[4097];
static size_t g_xi;                       // explicit schedule position
static std::vector<uint64_t>* g_pct;      // change points
static size_t g_pcti;
static int g_lowprio;
static sem_t g_alldone;
static uint64_t g_steps;
static int g_burst_left;
static uint64_t g_op_limit;

const char* anomaly_name(int a) {
  static const char* n[] = {"none", "bad-memory-access", "data-race", "deadlock", "no-progress", "bad-free",
                            "input-written", "crash", "hang", "leak", "harness", "misuse"};
  return a >= 0 && a < (int)(sizeof n / sizeof *n) ? n[a] : "?";
}

void hash(uint64_t v) {
  uint64_t h = g_sh->hash ^ v;
  h *= 0x9FB21C651E98DF25ull;
  h ^= h >> 32;
  g_sh->hash = h;
}

void anomaly(int code, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  Task* t = tl;
  if (t) t->mode = USER;
  g_sh->anomaly = code;
  g_sh->an_task = t ? t->id : -1;
  g_sh->an_op = t ? t->op : -1;
  vsnprintf(g_sh->msg, sizeof g_sh->msg, fmt, ap);
  va_end(ap);
  hash(0xA0000000ull + code);
  g_sh->stat[S_STEPS] = g_steps;
  _exit(77);
}

// ---------------------------------------------------------------------------
static void* map_at(uintptr_t a, size_t n) {
  void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)a) { fprintf(stderr, "sim: cannot map %lx\n", (unsigned long)a); _exit(3); }
  return p;
}

void init_process() {
  map_at(ARENA, ARENA_SIZE);
  map_at(STATE, NGRAN);
  map_at(CELLS, NGRAN * sizeof(Cell));
  map_at(BLOCKS, (size_t)MAXBLOCKS * sizeof(Block));
  map_at(BIDX, NGRAN * 4);
  for (int i = 0; i < MAXT; ++i) map_at(STACKS + i * (STACK_SIZE + (1 << 20)), STACK_SIZE);
  size_t n = (size_t)(sim_data_end - sim_data_begin) / 8 + (size_t)(sim_bss_end - sim_bss_begin) / 8 + 16;
  g_gcells = (Cell*)calloc(n, sizeof(Cell));
}

void begin(const Config& c, Shared* sh) {
  static Config copy;
  copy = c;
  g_cfg = &copy;
  g_sh = sh;
  g_srng = ref::Rng(c.sched.seed * 3 + 11);
  g_mrng = ref::Rng(c.mem.seed * 5 + 7);
  g_wrng = ref::Rng(c.mem.seed * 7 + 3);
  g_bump = ARENA + 4096;
  g_down = ARENA + ARENA_SIZE - 4096;
  for (int i = 0; i < ZONES; ++i) g_zone[i] = ARENA + (ARENA_SIZE / ZONES) * i + 4096;
  g_nblocks = 1;
  g_seq = 1;
  g_op_limit = c.op_step_limit ? c.op_step_limit : 400000000ull;
  sh->hash = 0x1234567;
  g_main = Task();
  g_main.id = -1;
  g_main.op_lim = g_op_limit;
  tl = &g_main;
}

// ---------------------------------------------------------------------------
// Memory
bool in_arena(const void* p) { return (uintptr_t)p - ARENA < ARENA_SIZE; }
Live live() { return {g_liveb, g_livebytes}; }
uint64_t alloc_seq() { return g_seq; }

size_t live_round(int round, std::string* what) {
  size_t n = 0;
  for (uint32_t i = 1; i < g_nblocks; ++i) {
    Block& b = g_blocks[i];
    if (b.state == 1 && !b.user && b.round == round) {
      if (n < 4 && what) {
        char t[96];
        snprintf(t, sizeof t, "%s%u bytes (task %d op %d)", n ? ", " : "", b.size, b.task, b.op);
        *what += t;
      }
      ++n;
    }
  }
  return n;
}

static void set_state(uint64_t a, size_t n, bool on, uint8_t ro) {
  size_t g = (a - ARENA) / 8;
  if (!on) { memset(g_state + g, 0, (n + 7) / 8); return; }
  memset(g_state + g, 8 | ro, n / 8);
  if (n % 8) g_state[g + n / 8] = uint8_t(n % 8) | ro;
}

static void fill_mem(void* p, size_t n) {
  switch (g_cfg->mem.fill) {
    case FI_ZERO: memset(p, 0, n); break;
    case FI_FF: memset(p, 0xFF, n); break;
    case FI_CD: memset(p, 0xCD, n); break;
    case FI_RAND: {
      uint64_t* q = (uint64_t*)p;
      for (size_t i = 0; i < n / 8; ++i) q[i] = g_mrng.next();
      memset((char*)p + n / 8 * 8, 0x5A, n % 8);
      break;
    }
    case FI_ONE: {
      double* q = (double*)p;
      for (size_t i = 0; i < n / 8; ++i) q[i] = 1.0;
      memset((char*)p + n / 8 * 8, 1, n % 8);
      break;
    }
    case FI_SMALL: {
      uint32_t* q = (uint32_t*)p;
      for (size_t i = 0; i < n / 4; ++i) q[i] = g_mrng.below(4);
      memset((char*)p + n / 4 * 4, 1, n % 4);
      break;
    }
    default: break;
  }
}

static void* arena_alloc(size_t n, size_t align) {
  if (!n) n = 1;
  if (align < 16) align = 16;
  if (n > (64u << 20)) return nullptr;
  size_t r = (n + 15) & ~size_t(15);
  Task* t = tl;
  uint64_t a = 0;
  uint32_t id = 0;
  bool cls = r / 16 <= 4096 && align == 16;
  switch (g_cfg->mem.place) {
    case PL_LIFO:
      if (cls && g_free[r / 16]) { id = g_free[r / 16]; g_free[r / 16] = g_blocks[id].next; a = g_blocks[id].addr; break; }
      [[fallthrough]];
    case PL_BUMP:
      a = (g_bump + align - 1) & ~(align - 1);
      g_bump = a + r + 16;
      if (g_bump > ARENA + ARENA_SIZE) return nullptr;
      break;
    case PL_DOWN:
      a = (g_down - r - 16) & ~(align - 1);
      g_down = a;
      if (a < ARENA + 4096) return nullptr;
      break;
    default: {
      int z = (int)g_mrng.below(ZONES);
      a = (g_zone[z] + align - 1) & ~(align - 1);
      g_zone[z] = a + r + 16 + 16 * g_mrng.below(4);
      if (g_zone[z] > ARENA + (ARENA_SIZE / ZONES) * (z + 1)) return nullptr;
    }
  }
  if (!id) {
    if (g_nblocks >= MAXBLOCKS) return nullptr;
    id = g_nblocks++;
  }
  Block& b = g_blocks[id];
  b.addr = a;
  b.size = (uint32_t)n;
  b.seq = g_seq++;
  b.task = (int16_t)t->id;
  b.op = (int16_t)t->op;
  b.state = 1;
  b.user = t->mode == QUIET;
  b.ro = 0;
  b.cls_ok = cls;
  b.round = (uint8_t)t->round;
  g_bidx[(a - ARENA) / 8] = id;
  set_state(a, n, true, 0);
  fill_mem((void*)a, n);
  ++g_liveb;
  g_livebytes += n;
  if (g_livebytes > g_sh->stat[S_PEAK]) g_sh->stat[S_PEAK] = g_livebytes;
  g_sh->stat[S_ALLOC]++;
  hash(a * 31 + n);
  return (void*)a;
}

static void arena_free(void* p) {
  uintptr_t a = (uintptr_t)p;
  uint32_t id = a % 8 ? 0 : g_bidx[(a - ARENA) / 8];
  Block* b = id ? &g_blocks[id] : nullptr;
  if (!b || b->addr != a || b->state != 1) anomaly(AN_BADFREE, "release of memory that is not allocated (double release?)");
  b->state = 2;
  size_t ng = (b->size + 7) / 8;
  set_state(a, b->size, false, 0);
  if (g_ntasks > 1) memset((void*)(g_cells + (a - ARENA) / 8), 0, ng * sizeof(Cell));
  if (g_cfg->mem.freefill) memset(p, 0xDD, b->size);
  --g_liveb;
  g_livebytes -= b->size;
  g_sh->stat[S_FREE]++;
  if (b->cls_ok && g_cfg->mem.place == PL_LIFO) {
    size_t r = (b->size + 15) / 16;
    b->next = g_free[r];
    g_free[r] = id;
  }
}

static size_t arena_size(void* p) { return g_blocks[g_bidx[((uintptr_t)p - ARENA) / 8]].size; }

void protect(const void* p, bool on) {
  if (!in_arena(p)) return;
  uint32_t id = g_bidx[((uintptr_t)p - ARENA) / 8];
  Block& b = g_blocks[id];
  if (b.addr != (uintptr_t)p || b.state != 1) return;
  b.ro = on;
  set_state(b.addr, b.size, true, on ? 0x80 : 0);
}

// hash of the innermost return addresses (the library is built with frame pointers)
static uint64_t call_site() {
  uint64_t h = 0;
  auto fp = (uintptr_t*)__builtin_frame_address(0);
  int inside = 0;
  for (int i = 0; i < 12 && inside < 8; ++i) {
    bool lib = fp[1] >= (uintptr_t)sim_text_begin && fp[1] < (uintptr_t)sim_text_end;
    if (lib) { h = ref::Rng::mix(h ^ fp[1]); ++inside; }
    else if (inside) break;
    auto up = (uintptr_t*)fp[0];
    if ((uintptr_t)up % 8 || up <= fp || (char*)up - (char*)fp > (1 << 16)) break;
    fp = up;
  }
  return h;
}

// true: this request must fail
static bool fault_here(size_t n) {
  Task* t = tl;
  if (!t || t->mode != LIB || t->id < 0) return false;
  uint32_t k = t->op_alloc++;
  if (g_cfg->sites && g_sh->nsite < Shared::MAXSITE) g_sh->site[g_sh->nsite++] = {t->id, t->op, k, call_site()};
  for (auto& f : g_cfg->faults)
    if (f.task == t->id && f.op == t->op && k >= f.k && k - f.k < f.burst && n >= f.min_size) {
      g_sh->stat[S_ALLOCFAULT]++;
      hash(0xF000 + k);
      return true;
    }
  return false;
}

static inline bool simulated() { return tl && tl->mode != USER; }

static void* sim_new(size_t n, size_t align) {
  if (!simulated()) return align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
  if (fault_here(n)) return nullptr;
  return arena_alloc(n, align);
}

static void sim_delete(void* p) {
  if (!p) return;
  if (in_arena(p)) arena_free(p);
  else free(p);
}

// ---------------------------------------------------------------------------
// Scheduler
static bool runnable(const Task& t) { return !t.done && !t.blocked && !t.stalled; }

static void draw_countdown(Task* t) {
  auto& s = g_cfg->sched;
  switch (s.strat) {
    case ST_RANDOM: {
      double u = g_srng.unit();
      t->countdown = 1 + (int64_t)(-std::log(1 - u) * s.mean);
      break;
    }
    case ST_BURST:
      if (g_burst_left > 0) { --g_burst_left; t->countdown = 1 + g_srng.below(4); }
      else {
        t->countdown = 1 + (int64_t)(-std::log(1 - g_srng.unit()) * s.mean);
        g_burst_left = g_srng.range(4, 60);
      }
      break;
    case ST_PCT:
      t->countdown = g_pcti < g_pct->size() ? (int64_t)((*g_pct)[g_pcti] > g_steps ? (*g_pct)[g_pcti] - g_steps : 1) : 1ll << 60;
      break;
    default: {
      auto& l = s.list;
      while (g_xi < l.size() && l[g_xi].task != t->id) ++g_xi;
      if (g_xi < l.size() && l[g_xi].why <= 2)
        t->countdown = l[g_xi].step > t->steps ? (int64_t)(l[g_xi].step - t->steps) : 1;
      else
        t->countdown = 1ll << 60;
    }
  }
}

static int pick_next(Task* cur, bool must_leave) {
  int r[MAXT], n = 0;
  for (int i = 0; i < g_ntasks; ++i)
    if (runnable(g_tasks[i]) && !(must_leave && cur && i == cur->id)) r[n++] = i;
  if (!n) return -1;
  auto& s = g_cfg->sched;
  if (s.strat == ST_PCT) {
    int b = r[0];
    for (int i = 1; i < n; ++i)
      if (g_tasks[r[i]].prio > g_tasks[b].prio) b = r[i];
    return b;
  }
  if (s.strat == ST_EXPLICIT) return r[0];
  return r[g_srng.below(n)];
}

static void wait_turn(Task* t) {
  while (sem_wait(&t->sem) != 0) {}
  g_sh->cur_task = t->id;
}

static void record(Task* t, int to, int why) {
  g_sh->stat[S_SWITCH]++;
  if (why == 0) g_sh->stat[S_SW_TIMED]++;
  if (why == 1) g_sh->stat[S_SW_GLOBAL]++;
  if (why == 2) g_sh->stat[S_SW_SHARED]++;
  if (why == 3) g_sh->stat[S_SW_YIELD]++;
  if (g_sh->nswitch < Shared::MAXSW) g_sh->sw[g_sh->nswitch++] = {t->id, t->steps, to, why};
  hash(((uint64_t)t->id << 56) ^ (t->steps << 8) ^ (uint64_t)to);
  // an interleaving by operation and a coarse position inside it
  uint64_t h = g_sh->inter ^ (((uint64_t)t->id << 40) ^ ((uint64_t)(t->op + 1) << 24) ^ ((t->steps - t->op_start) / 16) ^ ((uint64_t)to << 60));
  h *= 0xD6E8FEB86659FD93ull;
  g_sh->inter = h ^ (h >> 29);
}

static void transfer(Task* from, int to) {
  int mode = from->mode;
  Task* n = &g_tasks[to];
  draw_countdown(n);
  sem_post(&n->sem);
  wait_turn(from);
  from->mode = mode;
  tl = from;
}

static int forced_target(Task* t, int why) {   // explicit schedule: target recorded for this event, or -1
  auto& l = g_cfg->sched.list;
  while (g_xi < l.size() && l[g_xi].task != t->id) ++g_xi;
  if (g_xi < l.size() && (l[g_xi].why <= 2 ? 0 : l[g_xi].why) == (why <= 2 ? 0 : why) && l[g_xi].step == t->steps) {
    int to = l[g_xi].to;
    ++g_xi;
    if (to >= 0 && to < g_ntasks && runnable(g_tasks[to])) return to;
    return -2;
  }
  return -1;
}

static void preempt(Task* t, int why) {
  if (t->id < 0 || g_ntasks < 2) { t->countdown = 1ll << 60; return; }
  auto& s = g_cfg->sched;
  int to;
  if (s.strat == ST_EXPLICIT) {
    to = forced_target(t, why);
    if (to < 0 || to == t->id) { draw_countdown(t); return; }
  } else {
    if (s.strat == ST_PCT && why == 0) {
      t->prio = --g_lowprio;
      ++g_pcti;
    }
    if (s.strat == ST_PCT && (why == 1 || why == 2)) t->prio = --g_lowprio;
    to = pick_next(t, why == 1 || why == 2);
    if (to < 0 || to == t->id) { draw_countdown(t); return; }
  }
  record(t, to, why);
  transfer(t, to);
}

// the running task cannot continue
static void leave(Task* t, int why) {
  int to = -1;
  if (g_cfg->sched.strat == ST_EXPLICIT) to = forced_target(t, why);
  if (to < 0) to = pick_next(t, true);
  if (to < 0) {
    // nobody can run: a stalled task is released, otherwise it is a deadlock
    for (int i = 0; i < g_ntasks; ++i)
      if (g_tasks[i].stalled && !g_tasks[i].done) {
        bool others = false;
        for (int j = 0; j < g_ntasks; ++j) others = others || (j != i && !g_tasks[j].done);
        if (others) anomaly(AN_DEADLOCK, "every other task waits for a task that is stopped inside its own callback");
        g_tasks[i].stalled = false;
        to = i;
      }
    if (to < 0)   // a receiver whose sender is gone: the channel is closed
      for (int i = 0; i < g_ntasks && to < 0; ++i)
        if (g_tasks[i].blocked && g_tasks[i].chan_wait) {
          g_tasks[i].blocked = false;
          g_tasks[i].chan_closed = true;
          to = i;
        }
    if (to < 0) {
      bool all = true;
      for (int i = 0; i < g_ntasks; ++i) all = all && g_tasks[i].done;
      if (all) { sem_post(&g_alldone); return; }
      anomaly(AN_DEADLOCK, "no task can run");
    }
    if (to == t->id) { return; }
  }
  record(t, to, why);
  if (t->done) {
    draw_countdown(&g_tasks[to]);
    sem_post(&g_tasks[to].sem);
    return;
  }
  transfer(t, to);
}

static void block_on(Task* t, const void* a) {
  t->steps++;
  t->blocked = true;
  t->wait_on = a;
  if (t->id < 0) anomaly(AN_DEADLOCK, "lock is never released");
  leave(t, 4);
  while (t->blocked) leave(t, 4);
}

static void wake(const void* a) {
  for (int i = 0; i < g_ntasks; ++i)
    if (g_tasks[i].blocked && g_tasks[i].wait_on == a) g_tasks[i].blocked = false;
}

static void* thread_main(void* p) {
  Task* t = (Task*)p;
  tl = t;
  wait_turn(t);
  t->fn(t->id, t->arg);
  t->mode = USER;
  return nullptr;
}

// runs after the thread_local destructors of the library
static pthread_key_t g_key;
static void thread_exit(void* p) {
  Task* t = (Task*)p;
  static __thread int round = 0;
  if (++round < 2) { pthread_setspecific(g_key, p); return; }   // last
  tl = t;
  t->done = true;
  t->steps++;
  leave(t, 5);
}

static void* thread_entry(void* p) {
  pthread_setspecific(g_key, p);
  return thread_main(p);
}

void run_tasks(int n, TaskFn fn, void* arg) {
  Task* outer = tl;
  g_ntasks = n;
  sem_init(&g_alldone, 0, 0);
  pthread_key_create(&g_key, thread_exit);
  static std::vector<uint64_t> pct;
  auto& s = g_cfg->sched;
  g_pct = &pct;
  pct.clear();
  if (s.strat == ST_PCT) {
    for (int i = 0; i < s.depth; ++i) pct.push_back(1 + g_srng.next() % (s.length ? s.length : 1));
    for (size_t i = 0; i < pct.size(); ++i)
      for (size_t j = i + 1; j < pct.size(); ++j)
        if (pct[j] < pct[i]) std::swap(pct[i], pct[j]);
  }
  int prio[MAXT];
  for (int i = 0; i < n; ++i) prio[i] = i + 1;
  for (int i = n - 1; i > 0; --i) std::swap(prio[i], prio[g_srng.below(i + 1)]);
  for (int i = 0; i < n; ++i) {
    Task& t = g_tasks[i];
    t = Task();
    t.id = i;
    t.fn = fn;
    t.arg = arg;
    t.prio = prio[i];
    t.op_lim = g_op_limit;
    sem_init(&t.sem, 0, 0);
    for (int j = 0; j < MAXT; ++j) t.vc[j] = 0;
    t.vc[i] = 1;
  }
  for (int i = 0; i < n; ++i) {
    uintptr_t lo = STACKS + i * (STACK_SIZE + (1 << 20));
    memset((void*)(lo + STACK_SIZE - (128 << 10)), g_cfg->mem.stackfill, 128 << 10);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void*)lo, STACK_SIZE);
    if (pthread_create(&g_tasks[i].th, &at, thread_entry, &g_tasks[i])) anomaly(AN_HARNESS, "pthread_create");
    pthread_attr_destroy(&at);
  }
  int first = s.strat == ST_EXPLICIT ? (s.list.empty() ? 0 : -1) : pick_next(nullptr, false);
  if (first < 0) {   // explicit: the first recorded switch says who started
    first = s.list[0].task;
    if (first < 0 || first >= n) first = 0;
  }
  draw_countdown(&g_tasks[first]);
  sem_post(&g_tasks[first].sem);
  while (sem_wait(&g_alldone) != 0) {}
  for (int i = 0; i < n; ++i) pthread_join(g_tasks[i].th, nullptr);
  tl = outer;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < MAXT; ++j)
      if (outer->vc[j] < g_tasks[i].vc[j]) outer->vc[j] = g_tasks[i].vc[j];
  g_ntasks = 0;
}

void end_run() {
  g_sh->stat[S_STEPS] = g_steps;
  g_sh->complete = 1;
}

// ---------------------------------------------------------------------------
Scope::Scope(int m) : old(tl->mode) { tl->mode = m; }
Scope::~Scope() { tl->mode = old; }
int self() { return tl->id; }
uint64_t steps() { return g_steps; }
OpScope::OpScope(int op, int round) {
  Task* t = tl;
  o_op = t->op; o_start = t->op_start; o_alloc = t->op_alloc; o_round = t->round;
  t->op = op;
  t->round = round;
  t->op_alloc = 0;
  t->op_start = t->steps;
  if (t->id >= 0) g_sh->cur_op[t->id] = op;
  hash(0x0900 + op);
}
OpScope::~OpScope() {
  Task* t = tl;
  uint64_t used = t->steps - t->op_start;
  t->op = o_op;
  t->op_start = o_start + used;      // the enclosing operation is not charged for nested ones
  t->op_alloc = (uint32_t)o_alloc;
  t->round = o_round;
  if (t->id >= 0) g_sh->cur_op[t->id] = o_op;
}
uint64_t op_steps() { return tl->steps - tl->op_start; }
uint64_t op_allocs() { return tl->op_alloc; }

void yield() {
  Task* t = tl;
  if (t->id < 0 || g_ntasks < 2) return;
  t->steps++;
  if (--t->countdown <= 0) { t->countdown = 1; }
  g_sh->stat[S_YIELD]++;
  if (g_cfg->sched.strat == ST_EXPLICIT) {
    int to = forced_target(t, 3);
    if (to >= 0 && to != t->id) { record(t, to, 3); transfer(t, to); }
    else if (to == -2) draw_countdown(t);
    else {
      auto& l = g_cfg->sched.list;
      if (g_xi < l.size() && l[g_xi].task == t->id && l[g_xi].why <= 2) draw_countdown(t);
    }
    return;
  }
  if (g_cfg->sched.strat == ST_PCT) return;
  if (g_srng.chance(g_cfg->sched.p_yield)) {
    int to = pick_next(t, false);
    if (to >= 0 && to != t->id) { record(t, to, 3); transfer(t, to); }
  }
}

void callback_point() {
  Task* t = tl;
  if (t->id >= 0 && g_ntasks > 1 && g_cfg->sched.stall == t->id && !t->stall_used) {
    bool others = false;
    for (int j = 0; j < g_ntasks; ++j) others = others || (j != t->id && !g_tasks[j].done);
    if (others) {
      t->stall_used = true;
      t->stalled = true;
      t->steps++;
      g_sh->stat[S_STALL]++;
      while (t->stalled) leave(t, 4);
    }
  }
  yield();
}

// ---------------------------------------------------------------------------
// Happens-before
struct SyncVar { const void* a; uint32_t vc[MAXT]; int owner; int count; int readers; };
static SyncVar g_sync[4096];
static int g_nsync;
static SyncVar* sync_of(const void* a) {
  for (int i = 0; i < g_nsync; ++i)
    if (g_sync[i].a == a) return &g_sync[i];
  if (g_nsync == 4096) anomaly(AN_HARNESS, "too many synchronisation objects");
  SyncVar* s = &g_sync[g_nsync++];
  s->a = a;
  s->owner = -2;
  return s;
}
static void acquire(SyncVar* s) {
  Task* t = tl;
  for (int i = 0; i < MAXT; ++i)
    if (t->vc[i] < s->vc[i]) t->vc[i] = s->vc[i];
}
static void release(SyncVar* s) {
  Task* t = tl;
  for (int i = 0; i < MAXT; ++i)
    if (s->vc[i] < t->vc[i]) s->vc[i] = t->vc[i];
  if (t->id >= 0) t->vc[t->id]++;
}

static int g_chan_full[64];
void chan_send(int c) {
  release(sync_of(&g_chan_full[c]));
  g_chan_full[c]++;
  wake(&g_chan_full[c]);
  yield();
}
bool chan_recv(int c) {
  Task* t = tl;
  while (!g_chan_full[c]) {
    if (t->chan_closed) return false;
    t->chan_wait = true;
    block_on(t, &g_chan_full[c]);
    t->chan_wait = false;
  }
  g_chan_full[c]--;
  acquire(sync_of(&g_chan_full[c]));
  return true;
}

static void race_check(Task* t, Cell* c, uint8_t mask, bool wr, const char* where) {
  int me = t->id;
  if (c->last && c->last != me + 1) g_sh->stat[S_SHAREDACC]++;
  c->last = uint8_t(me + 1);
  if (!g_cfg->races) return;
  if (c->wclk && c->wt != me && (c->wmask & mask) && c->wclk > t->vc[c->wt])
    anomaly(AN_RACE, "unsynchronised %s of %s written by task %d", wr ? "write" : "read", where, c->wt);
  if (wr) {
    for (int i = 0; i < g_ntasks; ++i)
      if (i != me && c->rclk[i] && (c->rmask[i] & mask) && c->rclk[i] > t->vc[i])
        anomaly(AN_RACE, "unsynchronised write of %s read by task %d", where, i);
    c->wclk = t->vc[me];
    c->wt = (uint8_t)me;
    c->wmask = mask;
  } else {
    c->rclk[me] = t->vc[me];
    c->rmask[me] |= mask;
  }
}

static __attribute__((noinline)) void bad_access(uintptr_t a, size_t n, bool wr) {
  // describe relative to the nearest block below, addresses differ between layouts
  size_t g = (a - ARENA) / 8;
  for (size_t i = 0; i < 4096 && i <= g; ++i) {
    uint32_t id = g_bidx[g - i];
    if (id) {
      Block& b = g_blocks[id];
      anomaly(AN_BADACCESS, "%s of %zu bytes at offset %ld of a %s block of %u bytes", wr ? "write" : "read", n,
              (long)(a - b.addr), b.state == 1 ? "live" : "released", b.size);
    }
  }
  anomaly(AN_BADACCESS, "%s of %zu bytes outside any block", wr ? "write" : "read", n);
}

static inline void access_arena(Task* t, uintptr_t a, size_t n, bool wr) {
  uintptr_t off = a - ARENA;
  bool shared = false;
  for (uintptr_t p = off, e = off + n; p < e;) {
    uintptr_t g = p >> 3, in = p & 7, k = 8 - in;
    if (k > e - p) k = e - p;
    uint8_t s = g_state[g];
    if ((s & 0x7F) < in + k) bad_access(ARENA + p, n, wr);
    if (s & 0x80) {
      if (wr) anomaly(AN_INPUTWRITE, "the library wrote %zu bytes into memory of the caller's input", n);
    } else if (g_ntasks > 1 && t->id >= 0) {
      Cell* c = &g_cells[g];
      if (c->last && c->last != t->id + 1) shared = true;
      race_check(t, c, uint8_t(((1u << k) - 1) << in), wr, "heap memory");
    }
    p += k;
  }
  if (shared && g_cfg->sched.strat != ST_EXPLICIT && g_cfg->sched.p_shared > 0 && g_srng.chance(g_cfg->sched.p_shared)) preempt(t, 2);
}

static void access_global(Task* t, uintptr_t a, size_t n, bool wr, uintptr_t idx) {
  g_sh->stat[S_GLOBALACC]++;
  if (wr) g_sh->stat[S_GLOBALWR]++;
  // the switch comes before the access: the check of a check-then-act pair is already done
  if (g_ntasks > 1 && t->id >= 0) {
    if (g_cfg->sched.strat != ST_EXPLICIT && g_cfg->sched.p_global > 0 && g_srng.chance(g_cfg->sched.p_global)) preempt(t, 1);
    uintptr_t in = a & 7;
    size_t k = n > 8 - in ? 8 - in : n;
    race_check(t, &g_gcells[idx], uint8_t(((1u << k) - 1) << in), wr, "static storage");
  }
}

static __attribute__((noinline)) void budget(Task* t) {
  anomaly(AN_NOPROGRESS, "operation still running after %lu memory accesses", (unsigned long)(t->steps - t->op_start));
}

static inline void access_(const void* p, size_t n, bool wr) {
  Task* t = tl;
  if (!t || t->mode != LIB) return;
  ++t->steps;
  ++g_steps;
  if (__builtin_expect(--t->countdown <= 0, 0)) preempt(t, 0);
  uintptr_t a = (uintptr_t)p;
  if (a - ARENA < ARENA_SIZE) access_arena(t, a, n, wr);
  else if (a - (uintptr_t)sim_data_begin < (uintptr_t)(sim_data_end - sim_data_begin))
    access_global(t, a, n, wr, (a - (uintptr_t)sim_data_begin) / 8);
  else if (a - (uintptr_t)sim_bss_begin < (uintptr_t)(sim_bss_end - sim_bss_begin))
    access_global(t, a, n, wr, (a - (uintptr_t)sim_bss_begin) / 8 + (sim_data_end - sim_data_begin) / 8 + 1);
  if (__builtin_expect(t->steps - t->op_start > t->op_lim, 0)) budget(t);
}

// range: memcpy and friends
static void access_range(const void* p, size_t n, bool wr) {
  if (!n) return;
  Task* t = tl;
  if (!t || t->mode != LIB) return;
  uintptr_t a = (uintptr_t)p;
  if (a - ARENA < ARENA_SIZE || a - (uintptr_t)sim_data_begin < 8 || n <= 8) access_(p, n, wr);
  else
    for (size_t i = 0; i < n; i += 8) access_((const char*)p + i, n - i < 8 ? n - i : 8, wr);
}

static void atomic_point(const void* a, int mo, bool wr, bool rd) {
  Task* t = tl;
  if (!t || t->mode != LIB) return;
  ++t->steps;
  ++g_steps;
  g_sh->stat[S_ATOMIC]++;
  if (in_arena(a)) {
    uintptr_t g = ((uintptr_t)a - ARENA) >> 3;
    if (!g_state[g]) bad_access((uintptr_t)a, 8, wr);
  }
  if (--t->countdown <= 0) preempt(t, 0);
  else if (g_ntasks > 1 && t->id >= 0 && g_cfg->sched.strat != ST_EXPLICIT) {
    // spinning must not starve the task that is waited for
    if (++t->atomics % 64 == 0 || g_srng.chance(g_cfg->sched.p_global)) preempt(t, 1);
  }
  if (t->steps - t->op_start > t->op_lim) budget(t);
  if (rd && (mo == 1 || mo == 2 || mo >= 4)) acquire(sync_of(a));
  if (wr && mo >= 3) release(sync_of(a));
}

// ---------------------------------------------------------------------------
// Locks
static int lock_(const void* m, bool tr, bool recursive) {
  Task* t = tl;
  if (!t) return 0;
  g_sh->stat[S_LOCK]++;
  if (t->mode == LIB && g_ntasks > 1 && t->id >= 0) { t->steps++; g_steps++; if (g_cfg->sched.strat != ST_EXPLICIT && g_srng.chance(g_cfg->sched.p_global)) preempt(t, 1); else if (--t->countdown <= 0) preempt(t, 0); }
  SyncVar* s = sync_of(m);
  while (s->owner != -2 || s->readers) {
    if (s->owner == t->id && !s->readers) {
      if (recursive) { s->count++; return 0; }
      if (tr) return EBUSY;
      anomaly(AN_DEADLOCK, "a task locks a mutex it already holds");
    }
    if (tr) return EBUSY;
    block_on(t, m);
  }
  s->owner = t->id;
  s->count = 1;
  acquire(s);
  return 0;
}
static int rdlock_(const void* m, bool tr) {
  Task* t = tl;
  if (!t) return 0;
  g_sh->stat[S_LOCK]++;
  SyncVar* s = sync_of(m);
  while (s->owner != -2) {
    if (tr) return EBUSY;
    if (s->owner == t->id) anomaly(AN_DEADLOCK, "a task locks a lock it already holds");
    block_on(t, m);
  }
  s->readers++;
  acquire(s);
  return 0;
}
static int unlock_(const void* m) {
  Task* t = tl;
  if (!t) return 0;
  SyncVar* s = sync_of(m);
  release(s);
  if (s->readers) { if (--s->readers == 0) wake(m); return 0; }
  if (--s->count <= 0) { s->owner = -2; s->count = 0; wake(m); }
  if (t->mode == LIB && g_ntasks > 1 && t->id >= 0) { t->steps++; g_steps++; if (--t->countdown <= 0) preempt(t, 0); }
  return 0;
}

static uint64_t sim_clock_ns() {
  g_sh->stat[S_CLOCK]++;
  uint64_t base = 1000000000000ull + (g_cfg->mem.seed % 1000003) * 1000000007ull;
  // jumps now and then
  return base + g_steps * 10 + (g_wrng.below(16) == 0 ? g_wrng.next() % 10000000000ull : 0);
}

}  // namespace rt

using namespace rt;

// ---------------------------------------------------------------------------
// operator new / delete of the whole program
void* operator new(size_t n) { void* p = sim_new(n, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = sim_new(n, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_new(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_new(n, 16); }
void* operator new(size_t n, std::align_val_t a) { void* p = sim_new(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = sim_new(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return sim_new(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return sim_new(n, (size_t)a); }
void operator delete(void* p) noexcept { sim_delete(p); }
void operator delete[](void* p) noexcept { sim_delete(p); }
void operator delete(void* p, size_t) noexcept { sim_delete(p); }
void operator delete[](void* p, size_t) noexcept { sim_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim_delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim_delete(p); }

// ---------------------------------------------------------------------------
// Seams: the library's object file has these names redirected to sim_*
extern "C" {
void* sim_malloc(size_t n) { void* p = sim_new(n, 16); if (!p) errno = ENOMEM; return p; }
void sim_free(void* p) { sim_delete(p); }
void* sim_calloc(size_t a, size_t b) { void* p = sim_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void* sim_realloc(void* q, size_t n) {
  if (!q) return sim_malloc(n);
  if (!in_arena(q)) return realloc(q, n);
  void* p = sim_malloc(n);
  if (!p) return nullptr;
  size_t o = arena_size(q);
  memcpy(p, q, o < n ? o : n);
  sim_delete(q);
  return p;
}
int sim_posix_memalign(void** r, size_t a, size_t n) { *r = sim_new(n, a); return *r ? 0 : ENOMEM; }
void* sim_aligned_alloc(size_t a, size_t n) { return sim_new(n, a); }

int sim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* at) { return pthread_mutex_init(m, at); }
int sim_pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t* m) { return lock_(m, false, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE); }
int sim_pthread_mutex_trylock(pthread_mutex_t* m) { return lock_(m, true, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE); }
int sim_pthread_mutex_unlock(pthread_mutex_t* m) { return unlock_(m); }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t* m) { return rdlock_(m, false); }
int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return rdlock_(m, true); }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return lock_(m, false, false); }
int sim_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return lock_(m, true, false); }
int sim_pthread_rwlock_unlock(pthread_rwlock_t* m) { return unlock_(m); }
int sim_pthread_spin_lock(pthread_spinlock_t* m) { return lock_((const void*)m, false, false); }
int sim_pthread_spin_trylock(pthread_spinlock_t* m) { return lock_((const void*)m, true, false); }
int sim_pthread_spin_unlock(pthread_spinlock_t* m) { return unlock_((const void*)m); }
int sim_pthread_once(pthread_once_t* o, void (*fn)()) {
  SyncVar* s = sync_of(o);
  if (s->count == 2) { acquire(s); return 0; }
  while (s->count == 1) block_on(tl, o);
  if (s->count == 2) { acquire(s); return 0; }
  s->count = 1;
  try { fn(); } catch (...) { s->count = 0; wake(o); throw; }
  s->count = 2;
  release(s);
  wake(o);
  return 0;
}
int sim_sched_yield() { if (tl && tl->mode == LIB) { tl->steps++; if (g_ntasks > 1 && tl->id >= 0 && g_cfg->sched.strat != ST_EXPLICIT) preempt(tl, 1); } return 0; }
int sim_nanosleep(const struct timespec*, struct timespec*) { return sim_sched_yield(); }

// function-local statics: the guard's first byte is the "done" flag the code tests itself
int sim___cxa_guard_acquire(char* g) {
  g_sh->stat[S_GUARD]++;
  SyncVar* s = sync_of(g);
  while (g[1]) block_on(tl, g);
  if (g[0]) { acquire(s); return 0; }
  g[1] = 1;
  return 1;
}
void sim___cxa_guard_release(char* g) { g[1] = 0; g[0] = 1; release(sync_of(g)); wake(g); }
void sim___cxa_guard_abort(char* g) { g[1] = 0; wake(g); }

int sim_rand() { g_sh->stat[S_RAND]++; return int(g_wrng.next() >> 33); }
long sim_random() { return sim_rand(); }
double sim_drand48() { return g_wrng.unit(); }
void sim_srand(unsigned) {}
char* sim_getenv(const char*) { return nullptr; }
time_t sim_time(time_t* t) { time_t v = (time_t)(sim_clock_ns() / 1000000000ull); if (t) *t = v; return v; }
clock_t sim_clock() { return (clock_t)(sim_clock_ns() / 1000); }
int sim_clock_gettime(clockid_t, struct timespec* ts) { uint64_t n = sim_clock_ns(); ts->tv_sec = n / 1000000000ull; ts->tv_nsec = n % 1000000000ull; return 0; }
int sim_gettimeofday(struct timeval* tv, void*) { uint64_t n = sim_clock_ns(); tv->tv_sec = n / 1000000000ull; tv->tv_usec = n / 1000 % 1000000; return 0; }
int64_t sim_steady_now() { return (int64_t)sim_clock_ns(); }
int64_t sim_system_now() { return (int64_t)sim_clock_ns(); }
void sim_assert_fail(const char* e, const char*, unsigned, const char*) { anomaly(AN_CRASH, "assertion failed in the library: %.200s", e); }
void sim_terminate() { anomaly(AN_CRASH, "std::terminate called by the library"); }
void sim_abort() { anomaly(AN_CRASH, "abort() called by the library"); }

// ---------------------------------------------------------------------------
// instrumentation entry points
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
  void __tsan_read##n(void* p) { access_(p, n, false); } \
  void __tsan_write##n(void* p) { access_(p, n, true); } \
  void __tsan_unaligned_read##n(void* p) { access_(p, n, false); } \
  void __tsan_unaligned_write##n(void* p) { access_(p, n, true); } \
  void __tsan_volatile_read##n(void* p) { access_(p, n, false); } \
  void __tsan_volatile_write##n(void* p) { access_(p, n, true); } \
  void __tsan_unaligned_volatile_read##n(void* p) { access_(p, n, false); } \
  void __tsan_unaligned_volatile_write##n(void* p) { access_(p, n, true); } \
  void __tsan_read_write##n(void* p) { access_(p, n, true); } \
  void __tsan_unaligned_read_write##n(void* p) { access_(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void** p) { access_(p, 8, false); }
void __tsan_vptr_update(void** p, void*) { access_(p, 8, true); }
void __tsan_read_range(void* p, size_t n) { access_range(p, n, false); }
void __tsan_write_range(void* p, size_t n) { access_range(p, n, true); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access_range(s, n, false); access_range(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access_range(s, n, false); access_range(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access_range(d, n, true); return memset(d, c, n); }

#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) { atomic_point((const void*)a, mo, false, true); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { atomic_point((const void*)a, mo, true, false); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { atomic_point((const void*)a, mo, true, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { atomic_point((const void*)a, mo, true, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { atomic_point((const void*)a, mo, true, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { atomic_point((const void*)a, mo, true, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { atomic_point((const void*)a, mo, true, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { atomic_point((const void*)a, mo, true, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { atomic_point((const void*)a, mo, true, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) { atomic_point((const void*)a, mo, true, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int) { atomic_point((const void*)a, mo, true, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int) { atomic_point((const void*)a, mo, true, true); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
}
