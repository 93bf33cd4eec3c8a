#include "exec.h"
#include "river.h"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <stdexcept>
#include <new>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#ifdef SIM_DEV
#include "curl_stub.h"
#endif

using ref::Elem;

const char* const status_names[] = {"none", "ok", "bad_alloc", "caller's exception", "other exception", "skipped", "broken"};

std::string flag_names(uint32_t f) {
  static const char* n[] = {"callback 'from' differs from the previous point", "result contour is not closed", "drawing callback before move_to",
                            "foreign user pointer in callback", "unexpected arc callback", "callback on another thread",
                            "an earlier output changed", "earlier content of the output object lost or changed", "input object changed",
                            "caller's exception altered", "output object is inconsistent", "callback after the caller's exception", "arguments changed while the callback ran"};
  std::string r;
  for (int i = 0; i < 13; ++i)
    if (f >> i & 1) r += (r.empty() ? "" : "; ") + std::string(n[i]);
  return r;
}

uint64_t g_execs;
uint64_t g_total_stat[rt::NSTAT];

static bool eqbits(double a, double b) { return memcmp(&a, &b, 8) == 0; }
static bool eqbits(const ref::P& a, const ref::P& b) { return eqbits(a.x, b.x) && eqbits(a.y, b.y); }
static bool eqbits(const Elem& a, const Elem& b) { return a.k == b.k && eqbits(a.p1, b.p1) && eqbits(a.p2, b.p2) && eqbits(a.to, b.to); }
bool same_bits(const std::vector<Elem>& a, const std::vector<Elem>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!eqbits(a[i], b[i])) return false;
  return true;
}
uint64_t bits_hash(const std::vector<Elem>& v) {
  uint64_t h = 1469598103934665603ull;
  auto add = [&](double d) { uint64_t u; memcpy(&u, &d, 8); h = (h ^ u) * 1099511628211ull; h ^= h >> 29; };
  for (auto& e : v) { h = (h ^ (uint64_t)e.k) * 1099511628211ull; add(e.p1.x); add(e.p1.y); add(e.p2.x); add(e.p2.y); add(e.to.x); add(e.to.y); }
  return h;
}

// ---------------------------------------------------------------------------
// Redundant elements that draw nothing: a pen that is put down twice, lines of
// length zero.  They leave the contour what it is.
std::vector<Elem> expand(const Stream& s, int flags) {
  if (!(flags & OF_STUTTER)) return s.e;
  std::vector<Elem> r;
  uint64_t h = 12345 + s.e.size();
  ref::P last{0, 0};
  for (auto& e : s.e) {
    h = h * 6364136223846793005ull + 1442695040888963407ull;
    int w = int(h >> 60);
    if (e.k == 'm' && w < 6) r.push_back({'m', {}, {}, e.to + ref::P{1, 2}});
    r.push_back(e);
    if (w % 4 == 1) r.push_back({'l', {}, {}, e.to});
    if (w == 15) r.push_back({'l', {}, {}, e.to});
    last = e.to;
  }
  (void)last;
  return r;
}

std::vector<Elem> delivered(const Plan& p, const Op& o) {
  if (o.stream < 0 || o.stream >= (int)p.streams.size()) return {};
  return expand(p.streams[o.stream], o.flags);
}

// ---------------------------------------------------------------------------
// Child side
namespace {

const int NSLOT = 64, NCHAN = 16, NSHARE = 16, NOUT = 16;

struct UserStop { int id; uint64_t magic; };
const uint64_t MAGIC = 0x5175e55ull;

struct RecH {
  uint32_t task, op, round;
  int32_t status, extra;
  uint32_t flags, n;
  uint64_t steps, allocs, order;
};

rt::Shared* sh;
const Plan* P;
river::processor* slot[NSLOT];
int slot_maker[NSLOT];
river::paths* shared_in[NSHARE];
std::vector<Elem>* shared_snap[NSHARE];
struct Msg { int stream, kind, flags; river::paths* in; std::vector<Elem>* snap; };
std::vector<Msg>* queue[NCHAN];
uint64_t order_no;
// path objects; those below SHARED_PATHS are drawn by their maker before it
// passes control on, and only read from then on
struct PathObj { river::path* p = nullptr; std::vector<Elem>* model = nullptr; int maker = -1, walkers = 0; };
PathObj pobj[NSLOT];
const int SHARED_PATHS = 8;

typedef std::vector<std::pair<size_t, size_t>> Shape;
Shape shape_of(const river::paths& p) { Shape s; for (auto& x : p) s.push_back({x.element_types.size(), x.data.size()}); return s; }
struct OutVar { river::paths* p = nullptr; std::vector<Elem> snap; Shape shape; };
struct TaskState { int id; int round; std::vector<OutVar> keep; OutVar var[NOUT]; std::vector<int> status; int handed = 0, taken = 0; };

void put(const void* d, size_t n) {
  if (sh->used + n > sh->cap) rt::anomaly(rt::AN_HARNESS, "result area full");
  memcpy(sh->data + sh->used, d, n);
  sh->used += n;
}

void emit(TaskState& ts, int op, const OpRes& r) {
  RecH h{(uint32_t)ts.id, (uint32_t)op, (uint32_t)ts.round, r.status, r.extra, r.flags, (uint32_t)r.out.size(), r.steps, r.allocs, r.order ? r.order : ++order_no};
  put(&h, sizeof h);
  if (!r.out.empty()) put(r.out.data(), r.out.size() * sizeof(Elem));
  if (op < 9999) { if ((int)ts.status.size() <= op) ts.status.resize(op + 1); ts.status[op] = r.status; }
  rt::hash(r.status * 7919 + r.flags);
  rt::hash(bits_hash(r.out));
}

// garbage below the stack pointer, so that an uninitialised local is not zero by luck
__attribute__((noinline)) void scrub_stack(int v) {
  volatile char b[48 << 10];
  memset((void*)b, v, sizeof b);
  asm volatile("" : : "r"(b) : "memory");
}

double garbage() {
  double d;
  memset(&d, P->mem.stackfill, 8);
  return d;
}

river::point rp(const ref::P& p) { return river::point(p.x, p.y); }
ref::P pp(const river::point& p) { return {p.x, p.y}; }

// ---- input objects ---------------------------------------------------------
void protect_all(river::paths* in, bool on) {
  rt::protect(in, on);
  if (!in->empty()) rt::protect(in->data(), on);
  for (auto& p : *in) {
    if (!p.data.empty()) rt::protect(p.data.data(), on);
    if (!p.element_types.empty()) rt::protect(p.element_types.data(), on);
  }
}

river::paths* build_input(const std::vector<Elem>& e, int via, int flags) {
  rt::Scope q(rt::QUIET);
  auto* in = new river::paths;
  bool first = true;
  for (auto& x : e) {
    if (first || (x.k == 'm' && via != V_PATHS_ONE)) {
      // paths nothing was drawn on
      if (flags & OF_EMPTY) for (size_t k = (in->size() + e.size()) % 3; k > 0; --k) in->push_back(river::path());
      in->push_back(river::path());
      first = false;
    }
    auto& b = in->back();
    if (x.k == 'm') b.moveto(rp(x.to));
    else if (x.k == 'l') b.lineto(rp(x.to));
    else b.cubicto(rp(x.p1), rp(x.p2), rp(x.to));
  }
  if ((flags & OF_EMPTY) && e.size() % 2) in->push_back(river::path());
  return in;
}

struct Collect {
  std::vector<Elem>* v;
  static void m(path_moveto_func_para) { rt::Scope q(rt::USER); ((Collect*)user)->v->push_back({'m', {}, {}, pp(to)}); (void)from; }
  static void l(path_lineto_func_para) { rt::Scope q(rt::USER); ((Collect*)user)->v->push_back({'l', {}, {}, pp(to)}); (void)from; }
  static void c(path_cubicto_func_para) { rt::Scope q(rt::USER); ((Collect*)user)->v->push_back({'c', pp(ctrl1), pp(ctrl2), pp(to)}); (void)from; }
};

// contents of a paths object; LIB mode makes a read past its end visible
std::vector<Elem> contents(const river::paths& p) {
  std::vector<Elem> v;
  Collect c{&v};
  river::path_traverse_funcs f;
  f.move_to = Collect::m;
  f.line_to = Collect::l;
  f.cubic_to = Collect::c;
  for (auto& x : p) { rt::Scope q(rt::LIB); x.traverse(f, &c); }
  return v;
}

void scrub_free(river::paths* in) {
  rt::Scope q(rt::QUIET);
  protect_all(in, false);
  for (auto& p : *in) {
    for (auto& d : p.data) d = std::numeric_limits<double>::quiet_NaN();
    for (auto& t : p.element_types) t = 1;
  }
  delete in;
}

void run_ops(TaskState& ts, const std::vector<Op>& ops, int& id);

// What a caller's callback throws: a type of its own, standard ones, a plain
// number.  Each carries the identity of the throw.
template <class B> struct UserErr : B { UserStop u; UserErr(B b, UserStop u) : B(b), u(u) {} };
[[noreturn]] void throw_user(int userid, int at) {
  UserStop u{userid, MAGIC};
  switch (at % 7) {
    case 1: throw UserErr<std::runtime_error>(std::runtime_error("caller"), u);
    case 2: throw UserErr<std::logic_error>(std::logic_error("caller"), u);
    case 3: throw UserErr<std::bad_alloc>(std::bad_alloc(), u);
    case 4: throw userid;
    case 5: throw UserErr<std::out_of_range>(std::out_of_range("caller"), u);
    default: throw u;
  }
}

// ---- reader ----------------------------------------------------------------
struct Reader {
  TaskState* ts;
  const Op* op;
  const std::vector<Elem>* e;
  int opid;
  bool thrown = false;
  int userid;
  uint32_t flags = 0;
};

void nested(TaskState* ts, const Op* op, int opid, int at) {
  if (op->subat != at || op->sub.empty()) return;
  int id = opid + 1;
  run_ops(*ts, op->sub, id);
}

void read_func(read_path_func_para) {
  rt::Scope u(rt::USER);
  Reader* r = (Reader*)paths;
  if (rt::self() != r->ts->id) r->flags |= FL_THREAD;
  int n = (int)r->e->size();
  river::point last(0, 0);
  for (int i = 0; i <= n; ++i) {
    rt::callback_point();
    nested(r->ts, r->op, r->opid, i);
    if (r->op->fault && i == r->op->at) {
      rt::hash(0xC0FFEE + i);
      if (r->op->fault == U_STOP) return;
      r->thrown = true;
      throw_user(r->userid, i);
    }
    if (i == n) break;
    const Elem& x = (*r->e)[i];
    // arguments live only for the duration of the call
    river::point a = last, b = rp(x.p1), c = rp(x.p2), d = rp(x.to);
    {
      rt::Scope l(rt::LIB);
      if (x.k == 'm') segment_funcs.move_to(a, d, user);
      else if (x.k == 'l') segment_funcs.line_to(a, d, user);
      else segment_funcs.cubic_to(a, b, c, d, user);
    }
    if (!eqbits(pp(d), x.to) || !eqbits(pp(a), pp(last))) r->flags |= FL_INPUT;
    last = rp(x.to);
    a = b = c = d = river::point(garbage(), garbage());
    asm volatile("" : : "r"(&a), "r"(&b), "r"(&c), "r"(&d) : "memory");
  }
}

// ---- sink ------------------------------------------------------------------
struct Sink {
  uint64_t magic = MAGIC;
  TaskState* ts;
  const Op* op;
  int opid;
  int userid;
  std::vector<Elem> v;
  uint32_t flags = 0;
  river::point last{0, 0}, start{0, 0};
  bool open = false, thrown = false;

  static Sink* of(void* u) {
    Sink* s = (Sink*)u;
    if (!s || s->magic != MAGIC) rt::anomaly(rt::AN_MISUSE, "callback received a foreign user pointer");
    return s;
  }
  void close() { if (open && !eqbits(pp(last), pp(start))) flags |= FL_OPEN; }
  void before(const river::point& from, bool draw) {
    if (rt::self() != ts->id) flags |= FL_THREAD;
    if (thrown) flags |= FL_AFTER;
    if (draw) {
      if (!open) flags |= FL_NOMOVE;
      else if (!eqbits(pp(from), pp(last))) flags |= FL_FROM;
    }
    rt::callback_point();
    nested(ts, op, opid, (int)v.size());
    if (op->fault == U_THROW && (int)v.size() == op->at) {
      rt::hash(0xC0FFEE + v.size());
      thrown = true;
      throw_user(userid, op->at);
    }
  }
  static void m(path_moveto_func_para) {
    rt::Scope q(rt::USER);
    Sink* s = of(user);
    Elem e{'m', {}, {}, pp(to)};
    ref::P f = pp(from);
    s->before(from, false);
    if (!eqbits(pp(from), f) || !eqbits(pp(to), e.to)) s->flags |= FL_ARGS;
    s->close();
    s->v.push_back(e);
    s->start = s->last = rp(e.to);
    s->open = true;
  }
  static void l(path_lineto_func_para) {
    rt::Scope q(rt::USER);
    Sink* s = of(user);
    Elem e{'l', {}, {}, pp(to)};
    ref::P f = pp(from);
    s->before(from, true);
    if (!eqbits(pp(from), f) || !eqbits(pp(to), e.to)) s->flags |= FL_ARGS;
    s->v.push_back(e);
    s->last = rp(e.to);
  }
  static void c(path_cubicto_func_para) {
    rt::Scope q(rt::USER);
    Sink* s = of(user);
    Elem e{'c', pp(ctrl1), pp(ctrl2), pp(to)};
    ref::P f = pp(from);
    s->before(from, true);
    if (!eqbits(pp(from), f) || !eqbits(pp(to), e.to) || !eqbits(pp(ctrl1), e.p1) || !eqbits(pp(ctrl2), e.p2)) s->flags |= FL_ARGS;
    s->v.push_back(e);
    s->last = rp(e.to);
  }
  static void a(path_arcto_func_para) {
    rt::Scope q(rt::USER);
    of(user)->flags |= FL_ARC;
    (void)from; (void)center; (void)start_sweepRad; (void)to;
  }
};

// result contours held in an object
void check_closed(const std::vector<Elem>& v, size_t from, OpRes& r) {
  ref::P start{}, last{};
  bool open = false;
  for (size_t i = from; i < v.size(); ++i) {
    if (v[i].k == 'm') { if (open && !eqbits(last, start)) r.flags |= FL_OPEN; start = v[i].to; open = true; }
    else if (!open) r.flags |= FL_NOMOVE;
    last = v[i].to;
  }
  if (open && !eqbits(last, start)) r.flags |= FL_OPEN;
}

// ---- numeric helpers ---------------------------------------------------------
void math_battery(const std::vector<Elem>& e, OpRes& r) {
  using namespace rmath;
  std::vector<vec2> pts;
  for (auto& x : e) { pts.push_back(vec2(x.to.x, x.to.y)); if (x.k == 'c') { pts.push_back(vec2(x.p1.x, x.p1.y)); pts.push_back(vec2(x.p2.x, x.p2.y)); } }
  auto out = [&](double a, double b) { r.out.push_back({'l', {}, {}, {a, b}}); };
  for (size_t i = 0; i + 7 < pts.size() && i < 16; i += 3) {
    bezier_cubic a{pts[i], pts[i + 1], pts[i + 2], pts[i + 3]}, b{pts[i + 4], pts[i + 5], pts[i + 6], pts[i + 7]};
    rt::yield();
    bezier_cubic o1, o2, o3[3];
    cubic_intersect_result x; line_intersect_result li; line_cubic_intersect_result lc; point_at_y_result py; rect bb;
    double t[2] = {-1, -1}, ts[2] = {0.25, 0.625};
    cubic_equa_result ce; quad_equa_result qe;
    int ns;
    vec2 at;
    bezier_cubic circ[4];
    {
      rt::Scope q(rt::LIB);
      a.split(0.375, &o1, &o2);
      a.split(ts, o3, 2);
      at = b.point_at(0.3);
      py = a.point_at_y((a.p0.y + a.p3.y) / 2);
      bb = a.get_boundary();
      ns = a.split_y(t, t + 1);
      x = intersect(a, b, 30);
      li = intersect(a.p0, a.p3, b.p0, b.p3);
      lc = intersect(line{b.p0, b.p3}, a);
      ce = resolv_cubic_equa(1, -3, 1.5, 0.1);
      qe = resolv_quad_equa(1, -3, 1.5);
      bezier_cubic::circle(a.p0, 2.0, circ);
    }
    out(o1.p2.x, o1.p3.y); out(o2.p1.x, o2.p2.y); out(o3[1].p1.x, o3[2].p2.y); out(at.x, at.y);
    out(py.count, py.count > 0 ? py.t[0] : 0); out(bb.min.x, bb.max.y); out(ns, ns > 0 ? t[0] : 0);
    for (int k = 0; k < x.count && k < 9; ++k) { out(x.data[k].t0, x.data[k].t1); out(x.data[k].p.x, x.data[k].p.y); }
    for (int k = 0; k < li.count && k < 2; ++k) out(li.data[k].t0, li.data[k].t1);
    for (int k = 0; k < lc.count && k < 3; ++k) out(lc.data[k].t0, lc.data[k].t1);
    for (int k = 0; k < ce.count && k < 3; ++k) out(ce.data[k], k);
    for (int k = 0; k < qe.count && k < 2; ++k) out(qe.data[k], k);
    out(circ[1].p2.x, circ[3].p1.y);
  }
}

// ---- traversal of a path object -----------------------------------------------
struct Walker {
  uint64_t magic = MAGIC;
  TaskState* ts;
  const Op* op;
  int opid, userid;
  const std::vector<Elem>* model;
  std::vector<Elem> v;
  uint32_t flags = 0;
  size_t next = 0;          // next element of the model
  ref::P last{0, 0};
  bool thrown = false;

  bool silent(const Elem& e) const { return op->rule & (e.k == 'm' ? 1 : e.k == 'l' ? 2 : 4); }
  void skip() { while (next < model->size() && silent((*model)[next])) last = (*model)[next++].to; }
  static Walker* of(void* u) {
    Walker* s = (Walker*)u;
    if (!s || s->magic != MAGIC) rt::anomaly(rt::AN_MISUSE, "callback received a foreign user pointer");
    return s;
  }
  void take(const Elem& e, const river::point& from, const river::point& to) {
    if (rt::self() != ts->id) flags |= FL_THREAD;
    if (thrown) flags |= FL_AFTER;
    skip();
    if (next >= model->size() || !eqbits(e, (*model)[next])) flags |= FL_MALFORMED;
    if (!eqbits(pp(from), last)) flags |= FL_FROM;
    rt::callback_point();
    nested(ts, op, opid, (int)v.size());
    if (op->fault == U_THROW && (int)v.size() == op->at) {
      rt::hash(0xC0FFEE + v.size());
      thrown = true;
      throw_user(userid, op->at);
    }
    if (!eqbits(pp(to), e.to) || !eqbits(pp(from), last)) flags |= FL_ARGS;
    v.push_back(e);
    last = e.to;
    ++next;
  }
  static void m(path_moveto_func_para) { rt::Scope q(rt::USER); of(user)->take({'m', {}, {}, pp(to)}, from, to); }
  static void l(path_lineto_func_para) { rt::Scope q(rt::USER); of(user)->take({'l', {}, {}, pp(to)}, from, to); }
  static void c(path_cubicto_func_para) { rt::Scope q(rt::USER); of(user)->take({'c', pp(ctrl1), pp(ctrl2), pp(to)}, from, to); }
};

// ---- operations ---------------------------------------------------------------
template <class F> int guarded(TaskState& ts, int userid, OpRes& r, F f) {
  int st;
  auto user = [&](UserStop u) { st = R_USER; r.extra = u.id; if (u.id != userid || u.magic != MAGIC) r.flags |= FL_ID; };
  try { f(); st = R_FINE; }
  catch (const UserStop& u) { user(u); }
  catch (const UserErr<std::runtime_error>& u) { user(u.u); }
  catch (const UserErr<std::logic_error>& u) { user(u.u); }
  catch (const UserErr<std::bad_alloc>& u) { user(u.u); }
  catch (const UserErr<std::out_of_range>& u) { user(u.u); }
  catch (int u) { user({u, MAGIC}); }
  catch (const std::bad_alloc&) { st = R_BADALLOC; }
  catch (...) { st = R_OTHER; }
  (void)ts;
  return st;
}

void recheck(TaskState& ts, OpRes& r) {
  for (auto& k : ts.keep)
    if (k.p && (!same_bits(contents(*k.p), k.snap) || shape_of(*k.p) != k.shape)) r.flags |= FL_CHANGED;
  for (auto& k : ts.var)
    if (k.p && (!same_bits(contents(*k.p), k.snap) || shape_of(*k.p) != k.shape)) r.flags |= FL_CHANGED;
}

void do_add(TaskState& ts, const Op& o, int id, OpRes& r, river::processor* pr, const std::vector<Elem>& el, river::paths* ready) {
  auto pt = o.kind ? river::path_type::clip : river::path_type::subject;
  int uid = ts.id * 1000 + id;
  if (o.via == V_READER && !ready) {
    Reader rd{&ts, &o, &el, id};
    rd.userid = uid;
    r.status = guarded(ts, uid, r, [&] { rt::Scope l(rt::LIB); pr->add_path(read_func, (const void*)&rd, pt); });
    r.flags |= rd.flags;
    if (rd.thrown && r.status != R_USER) r.flags |= FL_ID;
    r.steps = rt::op_steps(); r.allocs = rt::op_allocs();
    return;
  }
  river::paths* in = ready;
  bool keep = false;
  if (!in && o.share >= 0 && o.share < NSHARE) {
    keep = true;
    if (!shared_in[o.share]) {
      shared_in[o.share] = build_input(el, o.via, o.flags);
      shared_snap[o.share] = new std::vector<Elem>(contents(*shared_in[o.share]));
      protect_all(shared_in[o.share], true);
    }
    in = shared_in[o.share];
  }
  if (!in) in = build_input(el, o.via, o.flags);
  if (!keep) protect_all(in, true);
  Shape sh0 = shape_of(*in);
  r.status = guarded(ts, uid, r, [&] { rt::Scope l(rt::LIB); pr->add_path(*in, pt); });
  r.steps = rt::op_steps(); r.allocs = rt::op_allocs();
  if (shape_of(*in) != sh0) r.flags |= FL_INPUT;
  if (keep) { if (!same_bits(contents(*in), *shared_snap[o.share])) r.flags |= FL_INPUT; }
  else {
    if (!same_bits(contents(*in), el)) r.flags |= FL_INPUT;
    scrub_free(in);
  }
}

void do_proc(TaskState& ts, const Op& o, int id, OpRes& r, river::processor* pr) {
  auto ct = (river::clip_type)o.op;
  auto fr = (river::fill_rule)o.rule;
  int uid = ts.id * 1000 + id;
  if (o.via == V_READER) {
    Sink s;
    s.ts = &ts; s.op = &o; s.opid = id; s.userid = uid;
    river::path_traverse_funcs f;
    f.move_to = Sink::m; f.line_to = Sink::l; f.cubic_to = Sink::c; f.arc_to = Sink::a;
    r.status = guarded(ts, uid, r, [&] { rt::Scope l(rt::LIB); pr->process(ct, fr, f, &s); });
    r.steps = rt::op_steps(); r.allocs = rt::op_allocs();
    if (r.status == R_FINE) s.close();
    r.flags |= s.flags;
    if (s.thrown && r.status != R_USER) r.flags |= FL_ID;
    r.out = std::move(s.v);
    return;
  }
  OutVar tmp;
  OutVar& v = o.into >= 0 && o.into < NOUT ? ts.var[o.into] : tmp;
  int si = o.into >= INTO_SHARE ? o.into - INTO_SHARE : -1;
  if (si >= 0 && si < NSHARE && shared_in[si]) {   // an object that was an input before
    protect_all(shared_in[si], false);
    tmp.p = shared_in[si];
    tmp.snap = *shared_snap[si];
    shared_in[si] = nullptr;
  }
  if (!v.p) {
    rt::Scope q(rt::QUIET);
    v.p = new river::paths;
    if (o.flags & OF_PREFILL) {            // the caller has drawn here before, or is about to
      if (id % 3 != 0) { v.p->push_back(river::path()); v.p->back().moveto(1, 2); if (id & 1) v.p->back().lineto(3, id); }
      if (id % 3 != 1) v.p->push_back(river::path());
      v.snap = contents(*v.p);
    }
  }
  Shape sh0 = shape_of(*v.p);
  size_t old = v.snap.size();
  r.status = guarded(ts, uid, r, [&] { rt::Scope l(rt::LIB); pr->process(ct, fr, *v.p); });
  r.steps = rt::op_steps(); r.allocs = rt::op_allocs();
  std::vector<Elem> now = contents(*v.p);
  bool pre = now.size() >= old;
  for (size_t i = 0; pre && i < old; ++i) pre = eqbits(now[i], v.snap[i]);
  Shape sh1 = shape_of(*v.p);
  if (sh1.size() < sh0.size() || !std::equal(sh0.begin(), sh0.end(), sh1.begin())) pre = false;
  if (!pre) { r.flags |= FL_OLDLOST; old = 0; }
  if (r.status == R_FINE) check_closed(now, old, r);
  r.out.assign(now.begin() + old, now.end());
  v.snap = now;
  v.shape = sh1;
  if (&v == &tmp) ts.keep.push_back(tmp);
}

// a result becomes input; the object stays the caller's
void do_feed(TaskState& ts, const Op& o, int id, OpRes& r, river::processor* pr, OutVar& v) {
  auto pt = o.kind ? river::path_type::clip : river::path_type::subject;
  int uid = ts.id * 1000 + id;
  if (!same_bits(contents(*v.p), v.snap)) r.flags |= FL_CHANGED;
  if (o.via == V_READER) {
    Reader rd{&ts, &o, &v.snap, id};
    rd.userid = uid;
    r.status = guarded(ts, uid, r, [&] { rt::Scope l(rt::LIB); pr->add_path(read_func, (const void*)&rd, pt); });
    r.flags |= rd.flags;
    if (rd.thrown && r.status != R_USER) r.flags |= FL_ID;
  } else {
    protect_all(v.p, true);
    r.status = guarded(ts, uid, r, [&] { rt::Scope l(rt::LIB); pr->add_path(*v.p, pt); });
    protect_all(v.p, false);
  }
  r.steps = rt::op_steps(); r.allocs = rt::op_allocs();
  if (!same_bits(contents(*v.p), v.snap) || shape_of(*v.p) != v.shape) r.flags |= FL_INPUT;
  r.out = v.snap;
}

// one processor draws its result straight into another one
struct Pipe { TaskState* ts; const Op* op; river::processor* src; uint32_t flags = 0; };
void pipe_func(read_path_func_para) {
  rt::Scope u(rt::USER);
  Pipe* p = (Pipe*)paths;
  if (rt::self() != p->ts->id) p->flags |= FL_THREAD;
  rt::callback_point();
  rt::Scope l(rt::LIB);
  p->src->process((river::clip_type)p->op->op, (river::fill_rule)p->op->rule, segment_funcs, user);
}
void do_pipe(TaskState& ts, const Op& o, int id, OpRes& r, river::processor* pr, river::processor* src) {
  auto pt = o.kind ? river::path_type::clip : river::path_type::subject;
  Pipe pi{&ts, &o, src};
  r.status = guarded(ts, ts.id * 1000 + id, r, [&] { rt::Scope l(rt::LIB); pr->add_path(pipe_func, (const void*)&pi, pt); });
  r.flags |= pi.flags;
  r.steps = rt::op_steps(); r.allocs = rt::op_allocs();
  if (r.status != R_FINE) return;
  // what was drawn: the same once more
  OutVar v;
  { rt::Scope q(rt::QUIET); v.p = new river::paths; }
  r.status = guarded(ts, ts.id * 1000 + id, r, [&] { rt::Scope l(rt::LIB); src->process((river::clip_type)o.op, (river::fill_rule)o.rule, *v.p); });
  v.snap = contents(*v.p);
  v.shape = shape_of(*v.p);
  if (r.status == R_FINE) check_closed(v.snap, 0, r);
  r.out = v.snap;
  ts.keep.push_back(v);
}

void run_op(TaskState& ts, const Op& o, int id) {
  OpRes r;
  if (o.cond >= 0 && (o.cond >= (int)ts.status.size() || ts.status[o.cond] != R_BADALLOC)) { r.status = R_SKIP; emit(ts, id, r); return; }
  scrub_stack(P->mem.stackfill + (P->mem.stackfill == 0xA5 ? 0 : id & 3));
  switch (o.k) {
    case K_NEW: {
      if (slot[o.slot]) { r.status = R_SKIP; break; }
      r.status = guarded(ts, -1, r, [&] { rt::Scope l(rt::LIB); slot[o.slot] = new river::processor; slot_maker[o.slot] = ts.id; });
      r.steps = rt::op_steps(); r.allocs = rt::op_allocs();
      break;
    }
    case K_DEL: {
      if (!slot[o.slot]) { r.status = R_SKIP; break; }
      auto* p = slot[o.slot];
      slot[o.slot] = nullptr;
      r.status = guarded(ts, -1, r, [&] { rt::Scope l(rt::LIB); delete p; });
      r.steps = rt::op_steps(); r.allocs = rt::op_allocs();
      break;
    }
    case K_ADD: {
      if (!slot[o.slot]) { r.status = R_SKIP; break; }
      std::vector<Elem> el = delivered(*P, o);
      do_add(ts, o, id, r, slot[o.slot], el, nullptr);
      break;
    }
    case K_PROC:
      if (!slot[o.slot]) { r.status = R_SKIP; break; }
      do_proc(ts, o, id, r, slot[o.slot]);
      break;
    case K_PARSE: {
      river::paths* res = nullptr;
      char* txt = nullptr;
      { rt::Scope q(rt::QUIET); txt = (char*)operator new(o.text.size() + 1); memcpy(txt, o.text.c_str(), o.text.size() + 1); res = new river::paths; }
      rt::protect(txt, true);
      r.status = guarded(ts, -1, r, [&] { rt::Scope l(rt::LIB); *res = river::make_path(txt); });
      r.steps = rt::op_steps(); r.allocs = rt::op_allocs();
      rt::protect(txt, false);
      { rt::Scope q(rt::QUIET); memset(txt, 'm', o.text.size()); operator delete(txt); }
      r.out = contents(*res);
      r.extra = (int)res->size();
      OutVar v;
      v.p = res;
      v.snap = r.out;
      v.shape = shape_of(*res);
      ts.keep.push_back(v);
      break;
    }
    case K_MATH: {
      std::vector<Elem> el = delivered(*P, o);
      math_battery(el, r);
      r.status = R_FINE;
      r.steps = rt::op_steps();
      break;
    }
    case K_PATH: {
      std::vector<Elem> el = delivered(*P, o);
      river::paths* res = nullptr;
      { rt::Scope q(rt::QUIET); res = new river::paths; res->push_back(river::path()); }
      std::vector<Elem> done;
      r.status = R_FINE;
      for (auto& x : el) {
        rt::yield();
        int st = guarded(ts, -1, r, [&] {
          river::point d = rp(x.to), b = rp(x.p1), c = rp(x.p2);
          rt::Scope l(rt::LIB);
          auto& p = res->back();
          if (x.k == 'm') p.moveto(d); else if (x.k == 'l') p.lineto(d); else p.cubicto(b, c, d);
        });
        if (st == R_FINE) done.push_back(x);
        else r.status = st;
        if (st != R_FINE && !same_bits(contents(*res), done)) r.flags |= FL_MALFORMED;
      }
      r.steps = rt::op_steps(); r.allocs = rt::op_allocs();
      // the content moves along with the object
      river::paths* res2 = nullptr;
      { rt::Scope q(rt::QUIET); res2 = new river::paths; }
      { rt::Scope q(rt::QUIET); res2->push_back(std::move(res->back())); }
      r.out = contents(*res2);
      if (!same_bits(r.out, done)) r.flags |= FL_MALFORMED;
      if (!contents(*res).empty()) r.flags |= FL_MALFORMED;
      { rt::Scope q(rt::QUIET); delete res; }
      OutVar v;
      v.p = res2;
      v.snap = r.out;
      v.shape = shape_of(*res2);
      ts.keep.push_back(v);
      break;
    }
    case K_SEND: {
      if (!queue[o.chan]) queue[o.chan] = new std::vector<Msg>;
      if (o.stream < 0) {               // a result of this task changes hands
        OutVar* v = o.into >= 0 && o.into < NOUT ? &ts.var[o.into] : nullptr;
        if (!v || !v->p) { r.status = R_SKIP; break; }
        if (!same_bits(contents(*v->p), v->snap)) r.flags |= FL_CHANGED;
        queue[o.chan]->push_back({-1, o.kind, o.flags, v->p, new std::vector<Elem>(v->snap)});
        *v = OutVar();
        r.order = ++order_no;           // before whoever receives it
        rt::chan_send(o.chan);
        r.status = R_FINE;
        break;
      }
      std::vector<Elem> el = delivered(*P, o);
      queue[o.chan]->push_back({o.stream, o.kind, o.flags, build_input(el, o.via, o.flags), nullptr});
      rt::chan_send(o.chan);
      r.status = R_FINE;
      break;
    }
    case K_RECVADD: {
      if (!rt::chan_recv(o.chan) || !queue[o.chan] || queue[o.chan]->empty()) { r.status = R_SKIP; break; }
      Msg m = queue[o.chan]->front();
      queue[o.chan]->erase(queue[o.chan]->begin());
      Op a = o;
      a.kind = m.kind; a.stream = m.stream; a.flags = m.flags;
      std::vector<Elem> el = delivered(*P, a);
      if (m.snap) { el = *m.snap; delete m.snap; }
      if (!slot[o.slot]) { scrub_free(m.in); r.status = R_SKIP; break; }
      do_add(ts, a, id, r, slot[o.slot], el, m.in);
      r.extra = m.stream * 2 + m.kind;
      if (m.stream < 0) { r.extra = -1 - m.kind; r.out = el; }
      break;
    }
    case K_HAND: ++ts.handed; rt::chan_send(o.chan); r.status = R_FINE; break;
    case K_TAKE: r.status = rt::chan_recv(o.chan) ? R_FINE : R_SKIP; if (r.status == R_FINE) ++ts.taken; break;
    case K_DRAW: {
      PathObj& b = pobj[o.slot];
      if ((b.p && b.maker != ts.id) || b.walkers || (o.slot < SHARED_PATHS && ts.handed)) { r.status = R_SKIP; break; }
      if (!b.p) { rt::Scope q(rt::QUIET); b.p = new river::path; b.model = new std::vector<Elem>; b.maker = ts.id; }
      r.status = R_FINE;
      for (auto& x : delivered(*P, o)) {
        rt::yield();
        int st = guarded(ts, -1, r, [&] {
          river::point d = rp(x.to), u = rp(x.p1), w = rp(x.p2);
          {
            rt::Scope l(rt::LIB);
            if (x.k == 'c') b.p->cubicto(u, w, d);
            else if (o.op & 1) { if (x.k == 'm') b.p->moveto(x.to.x, x.to.y); else b.p->lineto(x.to.x, x.to.y); }
            else if (x.k == 'm') b.p->moveto(d); else b.p->lineto(d);
          }
          if (!eqbits(pp(d), x.to) || !eqbits(pp(u), x.p1) || !eqbits(pp(w), x.p2)) r.flags |= FL_INPUT;
          d = u = w = river::point(garbage(), garbage());
        });
        if (st == R_FINE) b.model->push_back(x);
        else r.status = st;
      }
      r.steps = rt::op_steps(); r.allocs = rt::op_allocs();
      break;
    }
    case K_WALK: {
      PathObj& b = pobj[o.slot];
      if (!b.p || (b.maker != ts.id && (!ts.taken || o.slot >= SHARED_PATHS))) { r.status = R_SKIP; break; }
      int uid = ts.id * 1000 + id;
      Walker w;
      w.ts = &ts; w.op = &o; w.opid = id; w.userid = uid; w.model = b.model;
      river::path_traverse_funcs f;
      if (!(o.rule & 1)) f.move_to = Walker::m;
      if (!(o.rule & 2)) f.line_to = Walker::l;
      if (!(o.rule & 4)) f.cubic_to = Walker::c;
      const river::path_traverse_funcs f0 = f;
      ++b.walkers;
      r.status = guarded(ts, uid, r, [&] { rt::Scope l(rt::LIB); b.p->traverse(f, &w); });
      --b.walkers;
      r.steps = rt::op_steps(); r.allocs = rt::op_allocs();
      if (memcmp(&f, &f0, sizeof f)) r.flags |= FL_INPUT;
      w.skip();
      if (r.status == R_FINE && w.next != b.model->size()) w.flags |= FL_MALFORMED;
      if (w.thrown && r.status != R_USER) w.flags |= FL_ID;
      r.flags |= w.flags;
      r.out = std::move(w.v);
      break;
    }
    case K_MOVEP: {
      PathObj& b = pobj[o.slot];
      if (!b.p || b.maker != ts.id || b.walkers || o.share < 0 || o.share >= NSLOT || pobj[o.share].p || (o.slot < SHARED_PATHS && ts.handed)) { r.status = R_SKIP; break; }
      river::path* np = nullptr;
      int st = guarded(ts, -1, r, [&] { rt::Scope l(rt::LIB); np = new river::path(std::move(*b.p)); });
      r.steps = rt::op_steps(); r.allocs = rt::op_allocs();
      r.status = st;
      if (st != R_FINE) break;              // no object: the content stays where it was
      { rt::Scope q(rt::QUIET); delete b.p; }
      pobj[o.share] = b;
      pobj[o.share].p = np;
      b = PathObj();
      break;
    }
    case K_FEED: {
      OutVar* v = o.into >= 0 && o.into < NOUT ? &ts.var[o.into] : nullptr;
      if (!slot[o.slot] || !v || !v->p) { r.status = R_SKIP; break; }
      do_feed(ts, o, id, r, slot[o.slot], *v);
      break;
    }
    case K_PIPE:
      if (!slot[o.slot] || o.share < 0 || o.share >= NSLOT || !slot[o.share] || o.share == o.slot) { r.status = R_SKIP; break; }
      do_pipe(ts, o, id, r, slot[o.slot], slot[o.share]);
      break;
    case K_RECHECK: recheck(ts, r); r.status = R_FINE; break;
    default: rt::yield(); r.status = R_FINE;
  }
  emit(ts, id, r);
}

void run_ops(TaskState& ts, const std::vector<Op>& ops, int& id) {
  for (auto& o : ops) {
    int my = id++;
    {
      rt::OpScope sc(my, ts.round);
      run_op(ts, o, my);
    }
    std::vector<const Op*> n;
    number_ops(o.sub, n);
    id = my + 1 + (int)n.size();
    rt::yield();
  }
}

void release_outputs(TaskState& ts) {
  for (auto& k : ts.keep) { rt::Scope q(rt::QUIET); delete k.p; }
  ts.keep.clear();
  for (auto& k : ts.var) { rt::Scope q(rt::QUIET); delete k.p; k.p = nullptr; k.snap.clear(); }
}

void task_main(int t, void*) {
  TaskState ts;
  ts.id = t;
  for (int r = 0; r < P->rounds; ++r) {
    ts.round = r;
    int id = 0;
    run_ops(ts, P->tasks[t], id);
    OpRes end;
    {
      rt::OpScope sc(id, r);
      recheck(ts, end);
      end.status = R_FINE;
      emit(ts, 9999, end);
      release_outputs(ts);
      for (int s = SHARED_PATHS; s < NSLOT; ++s)
        if (pobj[s].p && pobj[s].maker == t) { rt::Scope q(rt::QUIET); delete pobj[s].p; delete pobj[s].model; pobj[s] = PathObj(); }
      // processors a plan (or a shortened one) did not destroy
      if (P->tasks.size() == 1 || P->rounds > 1)
        for (int s = 0; s < NSLOT; ++s)
          if (slot[s] && slot_maker[s] == t) { rt::Scope l(rt::LIB); delete slot[s]; slot[s] = nullptr; }
    }
  }
}

}  // namespace
void emit_post(int task, int, int url, int outcome, const char* body, size_t n) {
  RecH h{};
  h.task = 0xFFFE;
  h.op = (uint32_t)sh->cur_op[task];
  h.round = (uint32_t)task;
  h.extra = url;
  h.status = outcome;
  h.n = (uint32_t)n;
  put(&h, sizeof h);
  put(body, n);
}
namespace {

void child(const Plan& p, const RunOpt& o) {
  P = &p;
  rt::Config c;
  c.mem = p.mem;
  c.sched = p.sched;
  c.faults = p.faults;
  c.races = o.races;
  c.op_step_limit = o.op_limit;
  c.sites = o.sites;
  rt::begin(c, sh);
#ifdef SIM_DEV
  curl_stub_begin(p.net);
#endif
  rt::run_tasks((int)p.tasks.size(), task_main, nullptr);
  // tear down what the plan left behind, as a program would at its end
  RecH h{};
  h.task = 0xFFFF;
  if (p.rounds > 1) {
    std::string w;
    size_t l1 = rt::live_round(1, nullptr), l2 = rt::live_round(2, &w);
    h.steps = l1; h.allocs = l2; h.n = (uint32_t)w.size();
    put(&h, sizeof h);
    put(w.data(), w.size());
  }
#ifdef SIM_DEV
  {
    int a = 0, b = 0;
    curl_stub_end(&a, &b);
    RecH q{};
    q.task = 0xFFFD;
    q.status = a;
    q.extra = b;
    put(&q, sizeof q);
  }
#endif
  rt::end_run();
  _exit(0);
}

}  // namespace

// ---------------------------------------------------------------------------
static const size_t DATA_CAP = 24u << 20;

void exec_init() {
  rt::init_process();
  size_t n = sizeof(rt::Shared) + DATA_CAP;
  sh = (rt::Shared*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (sh == MAP_FAILED) { perror("mmap"); exit(3); }
  sh->cap = DATA_CAP;
}

RunRes run_plan(const Plan& p, const RunOpt& o) {
  RunRes R;
  ++g_execs;
  if (p.tasks.empty() || p.tasks.size() > rt::MAXT) { R.anomaly = rt::AN_HARNESS; R.msg = "bad task count"; return R; }
  memset(sh, 0, offsetof(rt::Shared, sw));
  sh->cap = DATA_CAP;
  sh->cur_task = -1;
  for (auto& x : sh->cur_op) x = -1;
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0) {
    struct rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    struct rlimit cpu{60, 61};
    setrlimit(RLIMIT_CPU, &cpu);     // last resort against a loop without memory accesses
    int nul = open("/dev/null", 1);
    if (nul >= 0 && !getenv("SIM_STDERR")) { dup2(nul, 2); dup2(nul, 1); }
    child(p, o);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  R.hash = sh->hash;
  R.inter = sh->inter;
  memcpy(R.stat, sh->stat, sizeof R.stat);
  for (int i = 0; i < rt::NSTAT; ++i)
    if (i == rt::S_PEAK) { if (g_total_stat[i] < sh->stat[i]) g_total_stat[i] = sh->stat[i]; }
    else g_total_stat[i] += sh->stat[i];
  R.sw.assign(sh->sw, sh->sw + sh->nswitch);
  R.sites.assign(sh->site, sh->site + sh->nsite);
  if (WIFSIGNALED(st)) {
    R.anomaly = WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL ? rt::AN_HANG : rt::AN_CRASH;
    R.sig = WTERMSIG(st);
    R.an_task = sh->cur_task;
    R.an_op = R.an_task >= 0 ? sh->cur_op[R.an_task] : -1;
    R.msg = std::string("process ended by signal ") + strsignal(R.sig);
  } else if (sh->anomaly) {
    R.anomaly = sh->anomaly;
    R.an_task = sh->an_task;
    R.an_op = sh->an_op;
    R.msg = sh->msg;
  } else if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || !sh->complete) {
    R.anomaly = rt::AN_CRASH;
    R.an_task = sh->cur_task;
    R.an_op = R.an_task >= 0 ? sh->cur_op[R.an_task] : -1;
    R.msg = "the process ended itself during an operation";
  }
  std::vector<const Op*> num;
  for (auto& t : p.tasks) {
    num.clear();
    number_ops(t, num);
    R.ops.push_back(std::vector<OpRes>(num.size() + 1));
    R.ops0.push_back(std::vector<OpRes>(num.size() + 1));
  }
  for (uint64_t i = 0; i + sizeof(RecH) <= sh->used;) {
    RecH h;
    memcpy(&h, sh->data + i, sizeof h);
    i += sizeof h;
    if (h.task == 0xFFFF) {
      R.leak[1] = h.steps; R.leak[2] = h.allocs;
      R.leakwhat.assign((char*)sh->data + i, h.n);
      i += h.n;
      continue;
    }
    if (h.task == 0xFFFE) {   // develop build: a transfer
      Post q{h.extra, std::string((char*)sh->data + i, h.n), h.status, (int)h.round, (int)h.op};
      R.posts.push_back(q);
      i += h.n;
      continue;
    }
    if (h.task == 0xFFFD) { R.handles = h.status; R.parts = h.extra; continue; }
    if (h.task >= R.ops.size()) break;
    OpRes r;
    r.status = h.status; r.flags = h.flags; r.extra = h.extra; r.steps = h.steps; r.allocs = h.allocs; r.order = h.order;
    r.out.resize(h.n);
    if (h.n) memcpy((void*)r.out.data(), sh->data + i, h.n * sizeof(Elem));
    i += h.n * sizeof(Elem);
    size_t op = h.op == 9999 ? R.ops[h.task].size() - 1 : h.op;
    if (op >= R.ops[h.task].size()) break;
    if (h.round == 0) R.ops0[h.task][op] = r;
    R.ops[h.task][op] = r;
  }
  return R;
}
