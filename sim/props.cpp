#include "props.h"
#include <algorithm>
#include <cctype>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>

using ref::Contour;
using ref::Elem;
using ref::P;
using ref::Rng;
using ref::Seg;

std::string digest_of(const RunRes&);

namespace {

struct Bad { std::string cls, msg; };

[[noreturn]] void bad(const std::string& cls, const std::string& msg) { throw Bad{cls, msg}; }

std::string where(const Plan& p, int t, int o) {
  std::vector<const Op*> n;
  if (t >= 0 && t < (int)p.tasks.size()) number_ops(p.tasks[t], n);
  char b[160];
  snprintf(b, sizeof b, "task %d operation %d (%s)", t, o, o >= 0 && o < (int)n.size() ? op_names[n[o]->k] : "end");
  return b;
}

std::vector<const Op*> numbered(const Plan& p, int t) { std::vector<const Op*> n; number_ops(p.tasks[t], n); return n; }

void fold(Verdict& v, const RunRes& R) { v.hash = Rng::mix(v.hash ^ R.hash); }

void counts(Verdict& v, const Plan& p, const RunRes& R) {
  v.count["allocation failures"] += R.stat[rt::S_ALLOCFAULT];
  v.count["context switches"] += R.stat[rt::S_SWITCH];
  v.count["preemptions at arbitrary accesses"] += R.stat[rt::S_SW_TIMED];
  v.count["preemptions at static storage or atomics"] += R.stat[rt::S_SW_GLOBAL];
  v.count["preemptions at memory another task touched"] += R.stat[rt::S_SW_SHARED];
  v.count["stalls inside a callback"] += R.stat[rt::S_STALL];
  for (size_t t = 0; t < p.tasks.size() && t < R.ops.size(); ++t) {
    auto n = numbered(p, (int)t);
    for (size_t o = 0; o < n.size(); ++o) {
      auto& r = R.ops[t][o];
      if (r.status == R_USER) v.count[n[o]->k == K_PROC ? "exceptions thrown by a sink" : "exceptions thrown by a reader"]++;
      if (r.status == R_FINE && n[o]->fault == U_STOP) v.count["readers that ended early"]++;
      if (n[o]->k == K_PROC && r.status == R_FINE) { v.count["process calls"]++; if (!r.out.empty()) v.count["process calls with a non-empty result"]++; }
    }
  }
}

void no_anomaly(const Plan& p, const RunRes& R) {
  if (R.anomaly == rt::AN_HARNESS) { fprintf(stderr, "sim: harness: %s\n", R.msg.c_str()); fflush(stderr); exit(3); }
  if (R.anomaly) bad(std::string("anomaly:") + rt::anomaly_name(R.anomaly), R.msg + " in " + where(p, R.an_task, R.an_op));
}

bool has_fault(const Plan& p, int t, int o) {
  for (auto& f : p.faults) if (f.task == t && f.op == o) return true;
  return false;
}

// outcome of every operation is one of those its faults allow
void check_status(const Plan& p, const RunRes& R) {
  for (size_t t = 0; t < p.tasks.size(); ++t) {
    auto n = numbered(p, (int)t);
    for (size_t o = 0; o <= n.size(); ++o) {
      auto& r = R.ops[t][o];
      std::string at = where(p, (int)t, (int)o);
      if (r.flags) bad("flags", flag_names(r.flags) + " in " + at);
      if (o == n.size()) break;
      const Op& q = *n[o];
      bool af = has_fault(p, (int)t, (int)o);
      if (r.status == R_NONE || r.status == R_SKIP) continue;
      if (r.status == R_OTHER) bad("exception", "unknown exception out of " + at);
      if (r.status == R_BADALLOC) { if (!af) bad("exception", "bad_alloc without an allocation failure in " + at); continue; }
      bool thrower = q.fault == U_THROW;
      if (q.k == K_ADD && thrower && q.via == V_READER && q.at <= (int)delivered(p, q).size()) {
        if (r.status != R_USER) bad("exception", "the reader's exception did not reach the caller of " + at);
        continue;
      }
      if (q.k == K_FEED && thrower && q.via == V_READER && q.at <= (int)r.out.size()) {
        if (r.status != R_USER) bad("exception", "the reader's exception did not reach the caller of " + at);
        continue;
      }
      if (q.k == K_WALK && thrower) {
        if (r.status == R_USER && (int)r.out.size() != q.at) bad("exception", "callbacks went on after one threw in " + at);
        if (r.status == R_FINE && (int)r.out.size() > q.at) bad("exception", "the callback's exception did not reach the caller of " + at);
        if (r.status == R_USER) continue;
      }
      if (q.k == K_PROC && thrower && q.via == V_READER) {
        if (r.status == R_USER && (int)r.out.size() != q.at) bad("exception", "callbacks went on after the sink threw in " + at);
        if (r.status == R_USER) continue;
      }
      if (r.status != R_FINE) bad("exception", std::string("unexpected ") + status_names[r.status] + " out of " + at);
    }
  }
}

// ---- model of the processors -------------------------------------------------
struct Ref { int stream, idx, cut; int kind; int flags; const std::vector<Elem>* ext; };   // contour idx of a delivered stream cut to `cut` elements (-1: all)
typedef std::vector<Ref> Content;

std::vector<Contour> contents_of(const Plan& p, int stream, int cut, int kind, int flags, const std::vector<Elem>* ext) {
  if (ext) {      // a result that became input
    auto e = *ext;
    if (cut >= 0 && cut < (int)e.size()) e.resize(cut);
    return contours_of({e}, kind);
  }
  Op o;
  o.stream = stream;
  o.flags = flags;
  auto e = delivered(p, o);
  if (cut >= 0 && cut < (int)e.size()) e.resize(cut);
  return contours_of({e}, kind);
}

struct ProcSite { int t, o; std::vector<Content> cands; bool after_proc; int slot; int epoch; };

struct Done { uint64_t order; int t, o; };
std::vector<Done> in_order(const Plan& p, const RunRes& R) {
  std::vector<Done> d;
  for (size_t t = 0; t < p.tasks.size(); ++t)
    for (size_t o = 0; o + 1 < R.ops[t].size(); ++o)
      if (R.ops[t][o].status != R_NONE) d.push_back({R.ops[t][o].order, (int)t, (int)o});
  std::sort(d.begin(), d.end(), [](const Done& a, const Done& b) { return a.order < b.order; });
  return d;
}

// what each process call has to be the boolean of
std::vector<ProcSite> model(const Plan& p, const RunRes& R) {
  std::vector<ProcSite> out;
  struct S { std::vector<Content> c{{}}; bool dirty = false; bool mixed = false; int epoch = 0; };
  std::map<int, S> st;
  int epoch = 0;
  std::vector<std::vector<const Op*>> num;
  for (size_t t = 0; t < p.tasks.size(); ++t) num.push_back(numbered(p, (int)t));
  for (auto& d : in_order(p, R)) {
    const Op& q = *num[d.t][d.o];
    const OpRes& r = R.ops[d.t][d.o];
    if (r.status == R_SKIP) continue;
    S& s = st[q.slot];
    if (q.k == K_NEW && r.status == R_FINE) { s = S(); s.epoch = ++epoch; }
    if (q.k == K_PIPE && r.status == R_FINE) {
      // drawing into another processor is also a process call of the source
      S& f = st[q.share];
      out.push_back({d.t, d.o, f.c, f.mixed, q.share, f.epoch});
      f.dirty = true;
    }
    if (q.k == K_ADD || q.k == K_RECVADD || q.k == K_FEED || q.k == K_PIPE) {
      const std::vector<Elem>* ext = q.k == K_FEED || q.k == K_PIPE || (q.k == K_RECVADD && r.extra < 0) ? &r.out : nullptr;
      int stream = q.stream, kind = q.kind, flags = q.flags;
      int cut = -1;
      if (q.k == K_RECVADD) {
        stream = r.extra / 2;
        kind = r.extra < 0 ? -1 - r.extra : r.extra % 2;
        if (!ext) for (auto& tk : num) for (auto* x : tk) if (x->k == K_SEND && x->stream == stream) flags = x->flags;
      }
      if (q.via == V_READER && (q.k == K_ADD || q.k == K_FEED) && q.fault) cut = q.at;
      auto cs = contents_of(p, stream, cut, kind, flags, ext);
      int n = (int)cs.size(), lo = n, hi = n;
      if (r.status == R_USER) {
        // the contour that was being read when the exception was thrown is not part of the input
        lo = hi = n ? n - 1 : 0;
      }
      if (r.status == R_BADALLOC) { lo = 0; hi = n ? n - 1 : 0; }
      if (s.dirty) s.mixed = true;
      s.epoch = ++epoch;
      std::vector<Content> nc;
      for (auto& c : s.c)
        for (int k = lo; k <= hi; ++k) {
          Content x = c;
          for (int i = 0; i < k; ++i) x.push_back({stream, i, cut, kind, flags, ext});
          nc.push_back(x);
        }
      if (nc.size() > 24) nc.clear();   // too ambiguous: not judged
      s.c = nc;
    }
    if (q.k == K_PROC) {
      out.push_back({d.t, d.o, s.c, s.mixed, q.slot, s.epoch});
      s.dirty = true;
    }
  }
  return out;
}

void segs(const Plan& p, const Content& c, std::vector<Seg>& subj, std::vector<Seg>& clip) {
  for (auto& r : c) {
    auto cs = contents_of(p, r.stream, r.cut, r.kind, r.flags, r.ext);
    if (r.idx >= (int)cs.size()) continue;
    for (auto& s : ref::segs_of(cs[r.idx])) (r.kind ? clip : subj).push_back(s);
  }
}

std::vector<Seg> out_segs(const std::vector<Elem>& e) {
  std::vector<Seg> r;
  for (auto& c : contours_of({e}, 0))
    for (auto& s : ref::segs_of(c)) r.push_back(s);
  return r;
}

int LINES = 24;

// the extent of what is compared bounds the tolerance when the plan also has larger scenes
double local_scale(const Plan& p, const std::vector<Seg>& a, const std::vector<Seg>& b) {
  double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300};
  for (auto* v : {&a, &b})
    for (auto& s : *v) {
      for (P q : {s.a, s.d}) {
        lo[0] = std::min(lo[0], q.x); hi[0] = std::max(hi[0], q.x);
        lo[1] = std::min(lo[1], q.y); hi[1] = std::max(hi[1], q.y);
      }
    }
  double e = std::max(hi[0] - lo[0], hi[1] - lo[1]);
  return e > 0 ? std::min(p.scale, 8 * e) : p.scale;
}

void check_regions(const Plan& p, const RunRes& R, int max_sites = 100) {
  int done = 0;
  for (auto& s : model(p, R)) {
    auto& r = R.ops[s.t][s.o];
    if (r.status != R_FINE || s.cands.empty()) continue;
    if (++done > max_sites) break;
    auto n = numbered(p, s.t);
    const Op& q = *n[s.o];
    auto os = out_segs(r.out);
    bool ok = false;
    std::string why;
    for (auto& c : s.cands) {
      std::vector<Seg> a, b;
      segs(p, c, a, b);
      auto d = ref::compare_region(a, b, q.op, q.rule, os, p.seed + s.o, LINES, local_scale(p, a, b));
      if (d.ok) { ok = true; break; }
      if (why.empty()) why = d.what;
    }
    if (!ok) bad("region", "result of " + where(p, s.t, s.o) + " is not the boolean of what was added: " + why);
  }
}

// process calls on unchanged input with the same operation and rule agree
void check_consistent(const Plan& p, const RunRes& R) {
  struct Key { int slot, epoch, op, rule; bool operator<(const Key& k) const { return std::tie(slot, epoch, op, rule) < std::tie(k.slot, k.epoch, k.op, k.rule); } };
  std::map<Key, const OpRes*> full;
  std::map<Key, std::vector<std::pair<const OpRes*, std::string>>> part;
  for (auto& s : model(p, R)) {
    auto& r = R.ops[s.t][s.o];
    const Op& q = *numbered(p, s.t)[s.o];
    Key k{s.slot, s.epoch, q.op, q.rule};
    if (r.status == R_FINE) {
      auto it = full.find(k);
      if (it == full.end()) full[k] = &r;
      else if (!same_bits(it->second->out, r.out)) bad("repeat", "repeating process on unchanged input gave another result at " + where(p, s.t, s.o));
    } else part[k].push_back({&r, where(p, s.t, s.o)});
  }
  for (auto& e : part) {
    auto it = full.find(e.first);
    if (it == full.end()) continue;
    for (auto& x : e.second) {
      auto& a = x.first->out;
      auto& b = it->second->out;
      bool pre = a.size() <= b.size();
      for (size_t i = 0; pre && i < a.size(); ++i) pre = same_bits({a[i]}, {b[i]});
      if (!pre) bad("prefix", "what an interrupted process delivered is not the beginning of the result, at " + x.second);
    }
  }
}

void compare_ops(const Plan& p, const OpRes& a, const OpRes& b, int t, int o, const char* what) {
  if (a.status != b.status) bad("differs", std::string(what) + ": " + where(p, t, o) + " ended with " + status_names[a.status] + " instead of " + status_names[b.status]);
  if (!same_bits(a.out, b.out)) bad("differs", std::string(what) + ": result of " + where(p, t, o) + " differs");
  if (a.flags != b.flags) bad("differs", std::string(what) + ": " + where(p, t, o) + " " + flag_names(a.flags | b.flags));
}

uint64_t result_sig(const RunRes& R) {
  uint64_t h = 7;
  for (auto& t : R.ops) for (auto& o : t) h = Rng::mix(h ^ bits_hash(o.out) ^ (uint64_t)o.status << 50);
  return h;
}

// the whole plan in one task, in the order in which operations completed
Plan flatten(const Plan& p, const RunRes& R, std::vector<std::pair<int, int>>& origin) {
  Plan q = p;
  q.tasks.assign(1, {});
  q.sched = rt::Sched();
  q.sched.strat = rt::ST_EXPLICIT;
  q.faults.clear();
  origin.clear();
  std::vector<std::vector<const Op*>> num;
  for (size_t t = 0; t < p.tasks.size(); ++t) num.push_back(numbered(p, (int)t));
  for (auto& d : in_order(p, R)) {
    Op o = *num[d.t][d.o];
    if (o.k == K_HAND || o.k == K_TAKE || o.k == K_YIELD) continue;
    o.sub.clear();
    if (o.into >= 0 && o.into < 4) o.into += 4 * d.t;
    for (auto f : p.faults)
      if (f.task == d.t && f.op == d.o) { f.task = 0; f.op = (int)q.tasks[0].size(); q.faults.push_back(f); }
    q.tasks[0].push_back(o);
    origin.push_back({d.t, d.o});
  }
  return q;
}

// ---- properties ---------------------------------------------------------------
RunRes main_run(Verdict& v, const Plan& p, const RunOpt& o = RunOpt()) {
  RunRes R = run_plan(p, o);
  fold(v, R);
  counts(v, p, R);
  v.sw = R.sw;
  v.sig = Rng::mix(result_sig(R) ^ R.inter);
  no_anomaly(p, R);
  return R;
}
RunRes aux_run(Verdict& v, const Plan& p, const RunOpt& o = RunOpt()) {
  RunRes R = run_plan(p, o);
  fold(v, R);
  no_anomaly(p, R);
  return R;
}

bool produced(const RunRes& R) {
  for (auto& t : R.ops) for (auto& o : t) if (!o.out.empty()) return true;
  return false;
}
bool fired(const RunRes& R, const Plan& p) {
  for (size_t t = 0; t < R.ops.size(); ++t) {
    auto n = numbered(p, (int)t);
    for (size_t o = 0; o < n.size(); ++o)
      if (R.ops[t][o].status == R_USER || R.ops[t][o].status == R_BADALLOC || (R.ops[t][o].status == R_FINE && n[o]->fault == U_STOP)) return true;
  }
  return false;
}

void prop_c01(const Plan& p, Verdict& v) {
  RunOpt ro;
  ro.races = true;
  RunRes R = main_run(v, p, ro);
  check_status(p, R);
  for (size_t t = 0; t < p.tasks.size(); ++t) {
    if (p.tasks[t].empty()) continue;
    Plan s = p;
    s.sched = rt::Sched();
    s.sched.strat = rt::ST_EXPLICIT;
    s.mem = rt::Mem();
    for (size_t u = 0; u < p.tasks.size(); ++u) if (u != t) s.tasks[u].clear();
    RunRes A = aux_run(v, s);
    for (size_t o = 0; o < R.ops[t].size(); ++o) {
      // the number of allocations may depend on addresses: the fault then hit another allocation, or none,
      // and this task's history is another one from here on
      auto &a = R.ops[t][o], &b = A.ops[t][o];
      if (has_fault(p, (int)t, (int)o) && (a.status != b.status || !same_bits(a.out, b.out))) break;
      compare_ops(p, a, b, (int)t, (int)o, "concurrent with other tasks");
    }
  }
  v.nontrivial = R.stat[rt::S_SWITCH] > p.tasks.size() && produced(R);
}

void prop_c02(const Plan& p, Verdict& v) {
  Plan b = p;
  b.mem = rt::Mem();
  b.mem.fill = rt::FI_ZERO;
  b.mem.stackfill = 0;
  RunRes B = aux_run(v, b);
  check_status(b, B);
  Rng r(p.mem.seed + 99);
  // 1: the drawn environment.  2: another one, on another thread.  3: after unrelated activity.
  {
    RunRes R = main_run(v, p);
    for (size_t o = 0; o < R.ops[0].size(); ++o) compare_ops(p, R.ops[0][o], B.ops[0][o], 0, (int)o, "other memory layout and contents");
  }
  {
    Plan q = p;
    q.mem.place = (p.mem.place + 1 + r.below(3)) % rt::PL_COUNT;
    q.mem.fill = r.below(rt::FI_COUNT);
    q.mem.stackfill = r.below(2) ? 0xFF : 0x3F;
    q.mem.seed = r.next() & 0xffffffff;
    q.tasks.insert(q.tasks.begin(), std::vector<Op>());
    q.rounds = 2;     // and a second time in the same process
    RunRes R = aux_run(v, q);
    for (size_t o = 0; o < B.ops[0].size(); ++o) {
      compare_ops(p, R.ops0[1][o], B.ops[0][o], 0, (int)o, "on another thread");
      compare_ops(p, R.ops[1][o], B.ops[0][o], 0, (int)o, "second time in one process");
    }
  }
  {
    // unrelated processors before and still alive; the plan's own operations with a shift of two
    Plan q = p;
    q.mem.place = r.below(rt::PL_COUNT);
    q.mem.fill = r.below(rt::FI_COUNT);
    q.mem.seed = r.next() & 0xffffffff;
    std::vector<Op> pre;
    int nz = 0;
    for (auto& o : p.tasks[0]) {
      if (o.k != K_NEW && o.k != K_ADD && o.k != K_PROC && o.k != K_DEL) continue;
      Op x = o;
      x.slot = 40 + o.slot % 20;
      x.into = -1;
      x.share = -1;
      x.sub.clear();
      if (o.k == K_PROC) { x.op = 1 + r.below(4); x.rule = r.below(4); }
      if (o.k == K_ADD && r.below(4) == 0) { x.via = V_READER; x.fault = U_THROW; x.at = r.below(5); }
      if (o.k == K_DEL && r.below(2)) continue;
      pre.push_back(x);
      if (++nz > 12) break;
    }
    if (r.chance(0.12)) {   // after very many small ones
      q.streams.push_back({{{'m', {}, {}, {0, 0}}, {'l', {}, {}, {9, 1}}, {'l', {}, {}, {4, 7}}}});
      q.streams.push_back({{{'m', {}, {}, {1, -2}}, {'l', {}, {}, {6, 2}}, {'c', {5, 4}, {3, 5}, {2, 6}}}});
      int n = r.range(20, 150);
      auto mk = [](int k, int slot) { Op o; o.k = k; o.slot = slot; return o; };
      for (int i = 0; i < n; ++i) {
        Op a = mk(K_ADD, 62), b = mk(K_ADD, 62), c = mk(K_PROC, 62);
        a.stream = (int)q.streams.size() - 2;
        b.stream = (int)q.streams.size() - 1;
        b.kind = 1;
        b.via = r.below(2) ? V_READER : V_PATHS;
        c.op = 1 + r.below(4);
        if (!i || r.chance(0.3)) { if (i) pre.push_back(mk(K_DEL, 62)); pre.push_back(mk(K_NEW, 62)); pre.push_back(a); pre.push_back(b); }
        pre.push_back(c);
      }
      pre.push_back(mk(K_DEL, 62));
    }
    q.tasks[0].insert(q.tasks[0].begin(), pre.begin(), pre.end());
    RunRes R = aux_run(v, q);
    for (size_t o = 0; o + 1 < B.ops[0].size(); ++o) compare_ops(p, R.ops[0][o + pre.size()], B.ops[0][o], 0, (int)o, "after unrelated processors");
  }
  v.count["environments compared"] += 4;
  v.nontrivial = produced(B);
}

void prop_c03(const Plan& p, Verdict& v) {
  RunRes R = main_run(v, p);
  check_status(p, R);
  check_regions(p, R);
  check_consistent(p, R);
  v.nontrivial = R.stat[rt::S_ALLOCFAULT] > 0;
  if (!v.nontrivial) return;
  // calls that came through are what they are without any failure, and
  // processors are as if what failed had never been tried: compared with fresh ones given what survived
  Plan f = p;
  f.faults.clear();
  f.sched = rt::Sched();
  f.sched.strat = rt::ST_EXPLICIT;
  f.tasks.assign(1, {});
  auto& T = f.tasks[0];
  struct M { int t, o; std::vector<size_t> at; };
  std::vector<M> pure, ms;
  for (size_t t = 0; t < p.tasks.size(); ++t) {
    auto n = numbered(p, (int)t);
    for (size_t o = 0; o < n.size(); ++o)
      if ((n[o]->k == K_PARSE || n[o]->k == K_MATH || n[o]->k == K_PATH) && R.ops[t][o].status == R_FINE && has_fault(p, (int)t, (int)o)) {
        Op x = *n[o];
        x.cond = -1;
        T.push_back(x);
        pure.push_back({(int)t, (int)o, {T.size() - 1}});
      }
  }
  auto sites = model(p, R);
  std::map<int, size_t> last;
  for (size_t i = 0; i < sites.size(); ++i)
    if (R.ops[sites[i].t][sites[i].o].status == R_FINE && !sites[i].after_proc && !sites[i].cands.empty() && sites[i].cands.size() <= 6) last[sites[i].slot] = i;
  auto mk = [](int k) { Op o; o.k = k; return o; };
  for (auto& l : last) {
    auto& s = sites[l.second];
    M m{s.t, s.o, {}};
    for (auto& c : s.cands) {
      T.push_back(mk(K_NEW));
      for (size_t i = 0; i < c.size();) {
        Stream st;
        int kind = c[i].kind;
        for (; i < c.size() && c[i].kind == kind; ++i) {
          auto cs = contents_of(p, c[i].stream, c[i].cut, c[i].kind, c[i].flags, c[i].ext);
          if (c[i].idx < (int)cs.size()) st.e.insert(st.e.end(), cs[c[i].idx].e.begin(), cs[c[i].idx].e.end());
        }
        Op a = mk(K_ADD);
        a.via = V_READER;
        a.kind = kind;
        a.stream = (int)f.streams.size();
        f.streams.push_back(st);
        T.push_back(a);
      }
      Op q = mk(K_PROC), &w = q;
      const Op& src = *numbered(p, s.t)[s.o];
      w.op = src.op;
      w.rule = src.rule;
      T.push_back(q);
      m.at.push_back(T.size() - 1);
      T.push_back(mk(K_DEL));
    }
    ms.push_back(m);
  }
  if (T.empty()) return;
  RunRes A = aux_run(v, f);
  for (auto& m : pure) compare_ops(p, R.ops[m.t][m.o], A.ops[0][m.at[0]], m.t, m.o, "with failing allocations");
  for (auto& m : ms) {
    bool ok = false;
    for (size_t k : m.at) ok = ok || (A.ops[0][k].status == R_FINE && same_bits(A.ops[0][k].out, R.ops[m.t][m.o].out));
    if (!ok) bad("history", "result of " + where(p, m.t, m.o) + " is not that of a processor on which nothing failed");
    v.count["results after failures compared with fresh processors"]++;
  }
}

void prop_c04(const Plan& p, Verdict& v) {
  RunRes R = main_run(v, p);
  check_status(p, R);
  if (R.leak[1] && R.leak[2]) bad("leak", "memory still allocated after everything was destroyed, in every round: " + R.leakwhat);
  v.count["allocations checked"] += R.stat[rt::S_ALLOC];
  v.nontrivial = produced(R) && (p.faults.empty() ? true : R.stat[rt::S_ALLOCFAULT] > 0);
}

void prop_c05(const Plan& p, Verdict& v) {
  RunRes R = main_run(v, p);
  check_status(p, R);
  check_regions(p, R);
  // the same contours through the other door
  Plan q = p;
  bool any = false;
  for (auto& t : q.tasks)
    for (auto& o : t)
      if (o.k == K_ADD && !o.fault) { o.via = o.via == V_READER ? V_PATHS : V_READER; any = true; }
  if (any) {
    RunRes A = aux_run(v, q);
    for (size_t t = 0; t < p.tasks.size(); ++t)
      for (size_t o = 0; o < R.ops[t].size(); ++o) compare_ops(p, A.ops[t][o], R.ops[t][o], (int)t, (int)o, "reader exchanged for path objects");
  }
  v.nontrivial = fired(R, p) && produced(R);
}

void prop_c06(const Plan& p, Verdict& v) {
  RunRes R = main_run(v, p);
  check_status(p, R);
  check_consistent(p, R);
  // every result through the other door, uninterrupted
  Plan q = p;
  for (auto& t : q.tasks)
    for (auto& o : t)
      if (o.k == K_PROC) { o.fault = 0; o.via = o.via == V_READER ? V_PATHS : V_READER; }
  RunRes A = aux_run(v, q);
  check_status(q, A);
  for (size_t t = 0; t < p.tasks.size(); ++t) {
    auto n = numbered(p, (int)t);
    for (size_t o = 0; o < n.size(); ++o) {
      if (n[o]->k != K_PROC) continue;
      auto &a = R.ops[t][o].out, &b = A.ops[t][o].out;
      if (R.ops[t][o].status == R_FINE && !same_bits(a, b)) bad("differs", "sink and path objects disagree at " + where(p, (int)t, (int)o));
      bool pre = a.size() <= b.size();
      for (size_t i = 0; pre && i < a.size(); ++i) pre = same_bits({a[i]}, {b[i]});
      if (!pre) bad("prefix", "what the sink received before it threw is not the beginning of the result, at " + where(p, (int)t, (int)o));
      if (R.ops[t][o].status == R_FINE && n[o]->fault && (int)b.size() > n[o]->at) bad("exception", "sink was not called for the whole result at " + where(p, (int)t, (int)o));
    }
  }
  v.nontrivial = fired(R, p) && produced(R);
}

void prop_c07(const Plan& p, Verdict& v) {
  RunRes R = main_run(v, p);
  check_status(p, R);
  check_regions(p, R);
  check_consistent(p, R);
  // fresh processors, fed the same, asked once
  std::vector<const Op*> n = numbered(p, 0);
  Plan f = p;
  f.tasks.assign(1, {});
  f.faults.clear();
  struct M { size_t o; size_t fo; bool exact; };
  std::vector<M> ms;
  auto sites = model(p, R);
  int slot = 0;
  for (auto& s : sites) {
    if (R.ops[s.t][s.o].status != R_FINE || s.t != 0) continue;
    if (ms.size() >= 6 && &s != &sites.back()) continue;
    auto& T = f.tasks[0];
    Op nw;
    nw.k = K_NEW;
    nw.slot = slot;
    T.push_back(nw);
    for (int o = 0; o < s.o; ++o)
      if (n[o]->k == K_ADD && n[o]->slot == s.slot) { Op a = *n[o]; a.slot = slot; T.push_back(a); }
    Op q = *n[s.o];
    q.slot = slot;
    q.fault = 0;
    q.into = -1;
    T.push_back(q);
    ms.push_back({(size_t)s.o, T.size() - 1, !s.after_proc});
    Op dl;
    dl.k = K_DEL;
    dl.slot = slot;
    T.push_back(dl);
    ++slot;
  }
  if (!ms.empty()) {
    RunRes A = aux_run(v, f);
    for (auto& m : ms) {
      auto &a = R.ops[0][m.o].out, &b = A.ops[0][m.fo].out;
      if (A.ops[0][m.fo].status != R_FINE) bad("exception", "fresh processor failed at " + where(p, 0, (int)m.o));
      if (m.exact) { if (!same_bits(a, b)) bad("history", "result of " + where(p, 0, (int)m.o) + " depends on earlier process calls"); }
      else {
        auto sa = out_segs(a), sb = out_segs(b);
        auto d = ref::compare_outputs(sa, sb, p.seed, LINES, local_scale(p, sa, sb));
        if (!d.ok) bad("history", "result of " + where(p, 0, (int)m.o) + " depends on earlier process calls: " + d.what);
      }
    }
  }
  v.nontrivial = sites.size() > 1 && produced(R);
}

void prop_c08(const Plan& p, Verdict& v) {
  RunRes R = main_run(v, p);
  check_status(p, R);
  for (size_t t = 0; t < p.tasks.size(); ++t) {
    auto n = numbered(p, (int)t);
    for (size_t o = 0; o < n.size(); ++o) if (n[o]->k == K_RECVADD && R.ops[t][o].status == R_FINE) v.count["deliveries"]++;
  }
  check_regions(p, R);
  v.nontrivial = p.tasks.size() > 1 && produced(R);
}

void prop_c09(const Plan& p, Verdict& v) {
  RunRes R = main_run(v, p);
  check_status(p, R);
  Plan q = p;
  for (auto& t : q.tasks) for (auto& o : t) { o.share = -1; o.into = -1; }
  RunRes A = aux_run(v, q);
  for (size_t t = 0; t < p.tasks.size(); ++t)
    for (size_t o = 0; o < R.ops[t].size(); ++o) compare_ops(p, R.ops[t][o], A.ops[t][o], (int)t, (int)o, "objects shared between calls");
  for (auto& t : p.tasks) for (auto& o : t) {
    if (o.share >= 0) v.count["inputs from a shared object"]++;
    if (o.into >= 0) v.count["results appended to an object in use"]++;
    if (o.k == K_RECHECK) v.count["re-examinations of all outputs"]++;
    if (o.k == K_ADD && o.share < 0) v.count["inputs scrubbed and freed after the call"]++;
  }
  v.nontrivial = produced(R);
}

void prop_c10(const Plan& p, Verdict& v) {
  RunRes R = main_run(v, p);
  check_status(p, R);
  bool damaged = false;
  for (size_t t = 0; t < p.tasks.size(); ++t) {
    auto n = numbered(p, (int)t);
    for (size_t o = 0; o < n.size(); ++o) {
      auto& r = R.ops[t][o];
      if (n[o]->k != K_PARSE || r.status != R_FINE) continue;
      std::vector<Elem> e;
      bool unc = false;
      bool whole = parse_reference(n[o]->text, e, &unc);
      if (!whole) { v.count["texts torn or corrupted"]++; damaged = true; }
      auto near = [](double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= 1e-12 * std::max({1e-3, std::fabs(a), std::fabs(b)}); };
      auto nearp = [&](ref::P a, ref::P b) { return near(a.x, b.x) && near(a.y, b.y); };
      if (!unc && e.size() != r.out.size()) {
        char b[120];
        snprintf(b, sizeof b, " (%zu elements instead of %zu)", r.out.size(), e.size());
        bad("parse", "make_path did not yield the elements that are complete in the text" + std::string(b) + " at " + where(p, (int)t, (int)o));
      }
      for (size_t i = 0; i < e.size() && i < r.out.size(); ++i)
        if (e[i].k != r.out[i].k || !nearp(e[i].to, r.out[i].to) || !nearp(e[i].p1, r.out[i].p1) || !nearp(e[i].p2, r.out[i].p2))
          bad("parse", "make_path yields another element than the text at " + where(p, (int)t, (int)o));
      if (!unc) {
        int ms = 0;
        for (auto& x : e) ms += x.k == 'm';
        if (r.extra != ms) bad("parse", "number of paths differs from the number of 'm' elements at " + where(p, (int)t, (int)o));
      }
      v.count["texts parsed"]++;
    }
  }
  v.nontrivial = damaged;
}

// generous: 25 times what is needed for the largest plans, see DESIGN.md
uint64_t step_bound(const Plan& p, int k) {
  size_t seg = 8;
  for (auto& s : p.streams) for (auto& e : s.e) seg += e.k == 'c' ? 6 : 2;
  for (auto& t : p.tasks) for (auto& o : t) if (o.k == K_PARSE) seg += o.text.size();
  (void)k;
  return 400000ull + 60000ull * seg + (p.curves ? 8000ull : 3000ull) * seg * seg;
}

void prop_c11(const Plan& p, Verdict& v) {
  RunOpt o;
  o.op_limit = step_bound(p, 0);
  RunRes R = main_run(v, p, o);
  check_status(p, R);
  uint64_t most = 0;
  for (auto& t : R.ops) for (auto& x : t) most = std::max(most, x.steps);
  v.count["largest share of the step bound used, in ppm (max)"] = most * 1000000 / o.op_limit;
  // every operation of every task came to an end
  for (size_t t = 0; t < p.tasks.size(); ++t)
    for (size_t k = 0; k < R.ops[t].size(); ++k) {
      auto n = numbered(p, (int)t);
      if (k < n.size() && R.ops[t][k].status == R_NONE) {
        bool nested = true;
        for (auto& q : p.tasks[t]) if (&q == n[k]) nested = false;
        if (!nested) bad("unfinished", where(p, (int)t, (int)k) + " never finished");
      }
    }
  v.nontrivial = produced(R) && (p.tasks.size() > 1 || fired(R, p) || p.streams.size() > 3);
}

void prop_c12(const Plan& p, Verdict& v) {
  RunRes R = main_run(v, p);
  check_status(p, R);
  check_regions(p, R);
  v.nontrivial = produced(R);
}

void compare_flat(const Plan& p, const RunRes& R, Verdict& v, const char* what) {
  std::vector<std::pair<int, int>> origin;
  Plan q = flatten(p, R, origin);
  RunRes A = aux_run(v, q);
  for (size_t i = 0; i < origin.size(); ++i) compare_ops(p, R.ops[origin[i].first][origin[i].second], A.ops[0][i], origin[i].first, origin[i].second, what);
}

void prop_c14(const Plan& p, Verdict& v) {
  RunOpt ro;
  ro.races = true;
  RunRes R = main_run(v, p, ro);
  check_status(p, R);
  compare_flat(p, R, v, "processor passed between threads");
  for (auto& t : p.tasks) for (auto& o : t) if (o.k == K_HAND) { v.count["hand-overs of a processor"]++; v.nontrivial = true; }
}

void prop_c16(const Plan& p, Verdict& v) {
  RunOpt ro;
  ro.races = true;
  RunRes R = main_run(v, p, ro);
  check_status(p, R);
  check_regions(p, R);
  check_consistent(p, R);
  compare_flat(p, R, v, "results passed on between threads");
  int fed = 0;
  for (size_t t = 0; t < p.tasks.size(); ++t) {
    auto n = numbered(p, (int)t);
    for (size_t o = 0; o < n.size(); ++o) {
      auto& r = R.ops[t][o];
      if (r.status == R_NONE || r.status == R_SKIP || r.out.empty()) continue;
      if (n[o]->k == K_FEED) v.count["results added from the caller's object"]++, ++fed;
      if (n[o]->k == K_PIPE) v.count["results drawn straight into another processor"]++, ++fed;
      if (n[o]->k == K_RECVADD) v.count["results received from another task"]++, ++fed;
    }
  }
  v.nontrivial = fed > 0;
}

void prop_c17(const Plan& p, Verdict& v) {
  RunOpt ro;
  ro.races = true;
  RunRes R = main_run(v, p, ro);
  check_status(p, R);
  for (size_t t = 0; t < p.tasks.size(); ++t) {
    auto n = numbered(p, (int)t);
    for (size_t o = 0; o < n.size(); ++o) {
      auto& r = R.ops[t][o];
      if (n[o]->k == K_WALK && r.status != R_NONE && r.status != R_SKIP) {
        v.count["traversals"]++;
        if (n[o]->rule) v.count["traversals with callbacks left null"]++;
        if (r.status == R_USER) v.count["traversals ended by an exception"]++;
        if (!r.out.empty()) v.nontrivial = true;
      }
      if (n[o]->k == K_DRAW && r.status == R_BADALLOC) v.count["drawings with failed elements"]++;
      if (n[o]->k == K_MOVEP && r.status == R_FINE) v.count["contents moved to another object"]++;
    }
  }
}

void prop_c15(const Plan& p, Verdict& v) {
  RunRes R = main_run(v, p);
  check_status(p, R);
  compare_flat(p, R, v, "library used inside a callback");
  bool ran = false;
  for (size_t t = 0; t < p.tasks.size(); ++t) {
    auto n = numbered(p, (int)t);
    std::set<const Op*> top;
    for (auto& o : p.tasks[t]) top.insert(&o);
    for (size_t o = 0; o < n.size(); ++o) if (!top.count(n[o]) && R.ops[t][o].status != R_NONE) { ran = true; v.count["operations nested in a callback"]++; }
  }
  v.nontrivial = ran;
}

#ifdef SIM_DEV
void prop_c13(const Plan& p, Verdict& v);
#endif

}  // namespace

Verdict evaluate(const Plan& p) {
  Verdict v;
  try {
    int id = atoi(p.prop.c_str() + 1);
    switch (id) {
      case 1: prop_c01(p, v); break;
      case 2: prop_c02(p, v); break;
      case 3: prop_c03(p, v); break;
      case 4: prop_c04(p, v); break;
      case 5: prop_c05(p, v); break;
      case 6: prop_c06(p, v); break;
      case 7: prop_c07(p, v); break;
      case 8: prop_c08(p, v); break;
      case 9: prop_c09(p, v); break;
      case 10: prop_c10(p, v); break;
      case 11: prop_c11(p, v); break;
      case 12: prop_c12(p, v); break;
#ifdef SIM_DEV
      case 13: prop_c13(p, v); break;
#endif
      case 14: prop_c14(p, v); break;
      case 15: prop_c15(p, v); break;
      case 16: prop_c16(p, v); break;
      case 17: prop_c17(p, v); break;
      default: fprintf(stderr, "sim: unknown property %s\n", p.prop.c_str()); exit(3);
    }
  } catch (const Bad& b) {
    v.bad = true;
    v.cls = b.cls;
    v.msg = b.msg;
  }
  return v;
}

std::string digest(const Plan& p) { return digest_of(run_plan(p)); }

std::string digest_of(const RunRes& R) {
  std::string s;
  char b[80];
  if (R.anomaly) { snprintf(b, sizeof b, "anomaly %d\n", R.anomaly); return b; }
  for (size_t t = 0; t < R.ops.size(); ++t)
    for (size_t o = 0; o < R.ops[t].size(); ++o) {
      snprintf(b, sizeof b, "%zu %zu %d %u %016llx\n", t, o, R.ops[t][o].status, R.ops[t][o].flags, (unsigned long long)bits_hash(R.ops[t][o].out));
      s += b;
    }
  return s;
}

// ---- reference grammar of path texts ---------------------------------------------
namespace {
struct Scan {
  const std::string& s;
  size_t i = 0;
  bool unc = false;
  static bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
  void skip() { while (i < s.size() && space(s[i])) ++i; }
  static bool dig(char c) { return c >= '0' && c <= '9'; }
  bool word(const char* w) {
    size_t n = strlen(w);
    if (i + n > s.size()) return false;
    for (size_t k = 0; k < n; ++k) if (tolower((unsigned char)s[i + k]) != w[k]) return false;
    i += n;
    return true;
  }
  bool number(double& d) {
    skip();
    size_t st = i;
    bool neg = false;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
    std::string t;
    size_t digits = 0;
    while (i < s.size() && dig(s[i])) { t += s[i++]; ++digits; }
    bool got = digits > 0;
    if (!got) {
      if (word("nan")) {
        if (i < s.size() && s[i] == '(') { size_t j = s.find(')', i); if (j == std::string::npos) { i = st; return false; } i = j + 1; }
        d = NAN;
        return true;
      }
      if (word("inf")) { word("inity"); d = neg ? -INFINITY : INFINITY; return true; }
    }
    if (i < s.size() && s[i] == '.') {
      ++i;
      size_t f = 0;
      t += '.';
      while (i < s.size() && dig(s[i])) { t += s[i++]; ++f; }
      if (!f && !got) { i = st; return false; }
      digits += f;
    } else if (!got) { i = st; return false; }
    if (digits > 17) unc = true;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
      size_t e = i++;
      std::string x;
      if (i < s.size() && (s[i] == '-' || s[i] == '+')) x += s[i++];
      size_t xd = 0;
      while (i < s.size() && dig(s[i])) { x += s[i++]; ++xd; }
      if (!xd) i = e;
      else { if (xd > 2) unc = true; t += 'e' + x; }
    }
    d = strtod(t.c_str(), nullptr);
    if (neg) d = -d;
    return true;
  }
  bool point(ref::P& p) { return number(p.x) && number(p.y); }
};
}  // namespace

// true: the whole text is well formed
bool parse_reference(const std::string& s, std::vector<Elem>& out, bool* uncertain) {
  Scan c{s};
  bool open = false;
  while (true) {
    c.skip();
    size_t st = c.i;
    if (c.i >= s.size()) break;
    char k = s[c.i++];
    Elem e;
    e.k = k;
    bool ok = false;
    ref::P q;
    if (k == 'm') { ok = c.point(e.to); if (ok) open = true; }
    else if (k == 'l') ok = c.point(e.to);
    else if (k == 'c') ok = c.point(e.p1) && c.point(e.p2) && c.point(e.to);
    else if (k == 'a') ok = c.point(q) && c.point(q);
    if (c.unc) { if (uncertain) *uncertain = true; return false; }
    if (!ok) { c.i = st; break; }
    if (k != 'a' && open) out.push_back(e);
  }
  c.skip();
  return c.i >= s.size();
}

// ---- minimisation -------------------------------------------------------------------
namespace {
struct Budget {
  int left;
  std::chrono::steady_clock::time_point end;
  int used = 0;
  bool ok() const { return left > 0 && std::chrono::steady_clock::now() < end; }
};

bool still(const Plan& p, const std::string& cls, Budget& b) {
  if (!b.ok()) return false;
  --b.left;
  ++b.used;
  Verdict v = evaluate(p);
  return v.bad && v.cls == cls;
}

// removes elements of a list while the failure stays
template <class T, class Set> bool shrink_list(Plan& p, std::vector<T> cur, Set set, const std::string& cls, Budget& b) {
  bool any = false;
  size_t chunk = std::max<size_t>(1, cur.size() / 2);
  while (!cur.empty() && b.ok()) {
    bool hit = false;
    for (size_t i = 0; i < cur.size() && b.ok();) {
      std::vector<T> t = cur;
      t.erase(t.begin() + i, t.begin() + std::min(i + chunk, t.size()));
      Plan q = p;
      set(q, t);
      if (still(q, cls, b)) { p = q; cur = t; hit = any = true; }
      else i += chunk;
    }
    if (chunk == 1) { if (!hit) break; }
    else chunk = std::max<size_t>(1, chunk / 2);
  }
  return any;
}

int sub_size(const Op& o) { std::vector<const Op*> n; number_ops(o.sub, n); return 1 + (int)n.size(); }

// drops operation k of task t; faults and conditions follow their operations
Plan drop_op(const Plan& p, int t, size_t k) {
  Plan q = p;
  int first = 0;
  for (size_t i = 0; i < k; ++i) first += sub_size(p.tasks[t][i]);
  int len = sub_size(p.tasks[t][k]);
  q.tasks[t].erase(q.tasks[t].begin() + k);
  std::vector<rt::AllocFault> f;
  for (auto x : p.faults) {
    if (x.task == t && x.op >= first && x.op < first + len) continue;
    if (x.task == t && x.op >= first + len) x.op -= len;
    f.push_back(x);
  }
  q.faults = f;
  for (auto& o : q.tasks[t])
    if (o.cond >= first + len) o.cond -= len;
    else if (o.cond >= first) o.cond = 1 << 20;
  return q;
}
}  // namespace

Plan minimise(Plan p, const Verdict& v, int max_evals, double max_seconds, int* used) {
  Budget b{max_evals, std::chrono::steady_clock::now() + std::chrono::milliseconds((int64_t)(max_seconds * 1000))};
  const std::string cls = v.cls;
  // a random schedule becomes the list of switches it made
  if (p.tasks.size() > 1 && p.sched.strat != rt::ST_EXPLICIT && !v.sw.empty()) {
    Plan q = p;
    q.sched.strat = rt::ST_EXPLICIT;
    q.sched.list = v.sw;
    if (still(q, cls, b)) p = q;
  }
  for (int pass = 0; pass < 3 && b.ok(); ++pass) {
    bool any = false;
    for (size_t t = 0; t < p.tasks.size() && b.ok(); ++t) {   // whole tasks
      if (p.tasks[t].empty()) continue;
      Plan q = p;
      q.tasks[t].clear();
      std::vector<rt::AllocFault> f;
      for (auto& x : p.faults) if (x.task != (int)t) f.push_back(x);
      q.faults = f;
      if (still(q, cls, b)) { p = q; any = true; }
    }
    for (size_t t = 0; t < p.tasks.size(); ++t)
      for (size_t k = p.tasks[t].size(); k-- > 0 && b.ok();) {
        Plan q = drop_op(p, (int)t, k);
        if (still(q, cls, b)) { p = q; any = true; }
      }
    // nested operations, user faults, variations
    for (size_t t = 0; t < p.tasks.size(); ++t)
      for (size_t k = 0; k < p.tasks[t].size() && b.ok(); ++k) {
        auto attempt = [&](auto change) {
          Plan q = p;
          change(q.tasks[t][k]);
          if (to_text(q) == to_text(p)) return;
          if (still(q, cls, b)) { p = q; any = true; }
        };
        if (!p.tasks[t][k].sub.empty() && p.faults.empty()) attempt([](Op& o) { o.sub.clear(); });
        if (p.tasks[t][k].fault == U_THROW && p.tasks[t][k].k == K_PROC) attempt([](Op& o) { o.fault = 0; o.at = 0; });
        if (p.tasks[t][k].flags) attempt([](Op& o) { o.flags = 0; });
        if (p.tasks[t][k].into >= 0) attempt([](Op& o) { o.into = -1; });
        if (p.tasks[t][k].share >= 0) attempt([](Op& o) { o.share = -1; });
        if (p.tasks[t][k].k == K_PARSE) {
          for (size_t len = p.tasks[t][k].text.size() / 2; len >= 1 && b.ok(); len /= 2)
            for (size_t i = 0; i + len <= p.tasks[t][k].text.size() && b.ok(); ) {
              Plan q = p;
              q.tasks[t][k].text.erase(i, len);
              if (still(q, cls, b)) { p = q; any = true; } else i += len;
            }
        }
      }
    any |= shrink_list(p, p.faults, [](Plan& q, const std::vector<rt::AllocFault>& l) { q.faults = l; }, cls, b);
    for (auto& f : p.faults) if (f.burst > 1) {
      Plan q = p;
      for (size_t i = 0; i < p.faults.size(); ++i) if (&p.faults[i] == &f) q.faults[i].burst = 1;
      if (still(q, cls, b)) { p = q; any = true; break; }
    }
    // contours of the streams
    for (size_t s = 0; s < p.streams.size(); ++s) {
      auto cs = contours_of(p.streams[s], 0);
      if (cs.size() < 2) continue;
      // positions of faults refer to elements: only streams without them
      bool plain = true;
      for (auto& t : p.tasks) for (auto& o : t) if (o.stream == (int)s && (o.fault || !o.sub.empty())) plain = false;
      if (!plain) continue;
      any |= shrink_list(p, cs, [s](Plan& q, const std::vector<Contour>& l) {
        q.streams[s].e.clear();
        for (auto& c : l) q.streams[s].e.insert(q.streams[s].e.end(), c.e.begin(), c.e.end());
      }, cls, b);
    }
    while (!p.net.empty() && b.ok()) {
      Plan q = p;
      q.net.resize(p.net.size() > 4 ? p.net.size() / 2 : p.net.size() - 1);
      if (!still(q, cls, b)) break;
      p = q;
      any = true;
    }
    for (size_t len = p.net.size() / 2; len >= 1 && b.ok(); len /= 2)
      for (size_t i = 0; i + len <= p.net.size() && b.ok(); i += len) {
        Plan q = p;
        for (size_t k = i; k < i + len; ++k) q.net[k] = 0;
        if (q.net != p.net && still(q, cls, b)) { p = q; any = true; }
      }
    { Plan q = p; q.mem = rt::Mem(); q.mem.seed = p.mem.seed; if (to_text(q) != to_text(p) && still(q, cls, b)) { p = q; any = true; } }
    if (p.sched.stall >= 0) { Plan q = p; q.sched.stall = -1; if (still(q, cls, b)) { p = q; any = true; } }
    if (p.sched.strat == rt::ST_EXPLICIT && !p.sched.list.empty())
      any |= shrink_list(p, p.sched.list, [](Plan& q, const std::vector<rt::Switch>& l) { q.sched.list = l; }, cls, b);
    if (!any) break;
  }
  // streams nothing refers to
  std::vector<int> use(p.streams.size(), 0);
  for (auto& t : p.tasks) { std::vector<const Op*> n; number_ops(t, n); for (auto* o : n) if (o->stream >= 0 && o->stream < (int)use.size()) use[o->stream] = 1; }
  for (size_t i = 0; i < use.size(); ++i) if (!use[i]) p.streams[i].e.clear();
  if (used) *used = b.used;
  return p;
}

#ifdef SIM_DEV
#include "dev_oracle.inc"
#endif
