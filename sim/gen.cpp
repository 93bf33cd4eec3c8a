// Plan generators, one profile per property.  A plan is a function of
// (property, seed) and nothing else.
#include "exec.h"
#include <algorithm>
#include <cstdio>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>

using namespace ref;

namespace {

struct Gen {
  Plan p;
  Rng r;
  bool deep;
  int next_slot = 0;
  Gen(const std::string& prop, uint64_t seed, bool thorough) : r(Rng::mix(seed * 1000003ull + std::hash<int>()(atoi(prop.c_str() + 1))) + 17), deep(thorough) {
    p.prop = prop;
    p.scale = 0;
    p.seed = seed;
    p.mem.seed = r.next() & 0xffffffff;
    p.sched.seed = r.next() & 0xffffffff;
  }
  int slot() { return next_slot++ % 60; }
  int stream(const std::vector<Elem>& e) { p.streams.push_back({e}); return (int)p.streams.size() - 1; }
  int stream(const std::vector<Contour>& cs) {
    std::vector<Elem> e;
    for (auto& c : cs) e.insert(e.end(), c.e.begin(), c.e.end());
    return stream(e);
  }
};

Op mk(int k, int slot) { Op o; o.k = k; o.slot = slot; return o; }

// which scenes
const double SC_P = 0.15, SC_LO = -7, SC_HI = 7;     // powers of ten
const double FAR_P = 0.15, FAR_LO = 0, FAR_HI = 5;
struct SceneOpt { bool interleave = false; bool small = false; bool lines = false; };
std::vector<Contour> scene(Gen& g, const SceneOpt& so, bool* curves) {
  Rng& r = g.r;
  int fam;
  static const int any[] = {F_POLY, F_POLY, F_CUBIC, F_MIX, F_MIX, F_RECT, F_RING, F_RING, F_STAR, F_GRID, F_BLEND, F_BLEND, F_BLEND_LINES, F_LENS, F_BENT, F_QUAD};
  static const int inter[] = {F_POLY, F_RECT, F_STAR, F_GRID, F_BLEND_LINES, F_CUBIC, F_RING, F_BLEND, F_QUAD};
  static const int lines[] = {F_POLY, F_RECT, F_STAR, F_GRID, F_BLEND_LINES};
  if (so.lines) fam = lines[r.below(5)];
  else if (so.interleave) fam = inter[r.below(9)];
  else fam = any[r.below(16)];
  int n = r.chance(0.06) ? 1 : r.chance(0.85) ? r.range(2, so.small ? 4 : 6) : r.range(6, 10);
  if (!so.small && r.chance(g.deep ? 0.06 : 0.03)) { fam = F_MANY; n = r.range(10, g.deep ? 40 : 24); }
  else if (!so.small && !so.interleave && r.chance(0.03)) { fam = F_LONG; n = r.range(2, 3); }
  double S;
  std::vector<Contour> cs;
  if (!so.small && r.chance(g.deep ? 0.03 : 0.015)) {     // a crowd of separate small scenes
    fam = so.lines || r.chance(0.6) ? F_BLEND_LINES : so.interleave ? F_CUBIC : F_BLEND;
    S = 64;
    int want = r.range(20, r.chance(0.3) ? 120 : 60), cols = r.range(1, 12), cell = 0;
    bool sorted = r.chance(0.5);
    while ((int)cs.size() < want) {
      double s1;
      auto q = make_scene(r, fam, r.range(1, 3), &s1);
      P off{3 * S * (cell % cols), 3 * S * (cell / cols)};
      for (auto& c : q) {
        for (auto& e : c.e) { e.p1 = e.p1 * (S / s1) + off; e.p2 = e.p2 * (S / s1) + off; e.to = e.to * (S / s1) + off; }
        cs.push_back(c);
      }
      ++cell;
    }
    if (sorted) std::stable_sort(cs.begin(), cs.end(), [](const Contour& a, const Contour& b) { return a.kind < b.kind; });
  } else cs = make_scene(r, fam, n, &S);
  if (curves) *curves = family_has_curves(fam);
  if (r.chance(SC_P)) {      // very small or very large
    double f = std::pow(10.0, SC_LO + r.unit() * (SC_HI - SC_LO));
    for (auto& c : cs)
      for (auto& e : c.e) { e.p1 = e.p1 * f; e.p2 = e.p2 * f; e.to = e.to * f; }
    S *= f;
  }
  g.p.scale = std::max(g.p.scale, S);
  if (r.chance(FAR_P)) {     // small compared with its coordinates
    P off{(r.unit() - 0.5) * S * std::pow(10.0, FAR_LO + r.unit() * (FAR_HI - FAR_LO)), (r.unit() - 0.5) * S * std::pow(10.0, FAR_LO + r.unit() * (FAR_HI - FAR_LO))};
    for (auto& c : cs)
      for (auto& e : c.e) { e.p1 = e.p1 + off; e.p2 = e.p2 + off; e.to = e.to + off; }
  }
  // make sure that both kinds usually occur
  if (cs.size() > 1 && r.chance(0.7)) { cs[0].kind = SUBJECT; cs[1].kind = CLIP; }
  return cs;
}

int pick_op(Rng& r) { return r.chance(0.02) ? OP_NONE : r.range(OP_INTERSECTION, OP_XOR); }
int pick_rule(Rng& r) { return r.range(EVEN_ODD, NEGATIVE); }

struct HOpt {
  int procs_lo = 1, procs_hi = 2;
  bool interleave = false;      // adds between processing
  double reader = 0.4;          // adds through a reader
  double reader_fault = 0, sink = 0.4, sink_fault = 0, into = 0, stutter = 0.1, share = 0, empties = 0.1, prefill = 0.1;
  double same = 0.2;            // repeat the previous (op, rule)
  double lattice = 0.2;         // straight edges in degenerate position
  bool del = true, nu = true, small = false, lines = false;
  int slot = -1;
};

// rotates the start of a closed contour; draws the same curve
Contour rotated(const Contour& c, int by) {
  auto sg = segs_of(c);
  if (sg.size() < 2) return c;
  Contour o;
  o.kind = c.kind;
  size_t n = sg.size(), st = by % n;
  o.e.push_back({'m', {}, {}, sg[st].a});
  for (size_t i = 0; i < n; ++i) {
    const Seg& s = sg[(st + i) % n];
    if (s.cubic) o.e.push_back({'c', s.b, s.c, s.d});
    else if (i + 1 < n || (by & 1)) o.e.push_back({'l', {}, {}, s.d});
    else if (s.d != sg[st].a) o.e.push_back({'l', {}, {}, s.d});
  }
  return o;
}

// straight-edged contours on a lattice, in anything but general position:
// shared vertices, overlapping edges, repeated and reversed contours, contours
// that cross themselves, flat and collapsed ones
std::vector<Contour> lattice_scene(Gen& g, bool small, bool axis) {
  Rng& r = g.r;
  bool big = !small && r.chance(g.deep ? 0.08 : 0.04);     // many contours, long contours, many crossings per edge
  if (big) axis = true;
  int G = big ? r.range(10, 60) : r.range(2, 9);
  static const double steps[] = {1, 1, 1, 10, 0.5, 1.0 / 3, 0.1, 1e-3, 1e5, 1e-7};
  double st = steps[r.below(10)];
  P off{0, 0};
  if (r.chance(0.4)) off = {r.range(-5, 5) * st * (r.chance(0.3) ? 0.37 : 1), r.range(-5, 5) * st * (r.chance(0.3) ? 0.37 : 1)};
  auto pt = [&]() -> P { return {double(r.range(0, G)), double(r.range(0, G))}; };
  double right = r.chance(0.4) ? 0.8 : 0.2;     // how often an edge is axis-parallel
  int n = big ? (r.chance(0.5) ? r.range(2, 6) : r.range(10, 40)) : r.range(1, small ? 4 : 7);
  std::vector<Contour> cs;
  for (int i = 0; i < n; ++i) {
    Contour c;
    c.kind = r.below(2);
    int k = r.below(12);
    if (big && n <= 6 && r.chance(0.6)) k = 12;
    if (!cs.empty() && k < 4) {           // like an earlier one
      c = cs[r.below((uint32_t)cs.size())];
      if (r.chance(0.5)) c.kind = r.below(2);
      int how = r.below(4);
      if (how == 1) c = rotated(c, r.below(9));
      else if (how == 2) { P d{double(r.range(-2, 2)), double(r.range(-2, 2))}; for (auto& e : c.e) e.to = e.to + d; }
      else if (how == 3) {                // backwards
        auto sg = segs_of(c);
        if (!sg.empty()) {
          c.e = {{'m', {}, {}, sg.back().d}};
          for (size_t q = sg.size(); q-- > 0;) c.e.push_back({'l', {}, {}, sg[q].a});
        }
      }
    } else if (k < 6) {                   // a rectangle
      P a = pt(), b = pt();
      c.e = {{'m', {}, {}, a}, {'l', {}, {}, {b.x, a.y}}, {'l', {}, {}, b}, {'l', {}, {}, {a.x, b.y}}};
      if (r.chance(0.3)) c.e.push_back({'l', {}, {}, a});
    } else if (k == 6) {                  // flat or pointlike
      P a = pt();
      c.e.push_back({'m', {}, {}, a});
      int m = r.range(0, 4);
      for (int q = 0; q < m; ++q) { P b = pt(); c.e.push_back({'l', {}, {}, r.chance(0.3) ? a : r.chance(0.5) ? P{b.x, a.y} : P{a.x, b.y}}); }
    } else if (k == 7) {                  // there and back
      P a = pt(), b = pt(), d = pt();
      c.e = {{'m', {}, {}, a}, {'l', {}, {}, b}, {'l', {}, {}, a}, {'l', {}, {}, d}};
      if (r.chance(0.5)) c.e.push_back({'l', {}, {}, b});
    } else if (k == 12) {                 // a comb with many teeth, upright or lying
      int teeth = r.range(5, G < 12 ? G / 2 : r.chance(0.3) ? G / 2 : 10), h1 = r.range(1, G), x0 = r.range(0, G - 2 * teeth < 0 ? 0 : G - 2 * teeth), y0 = r.range(0, 3);
      bool lying = r.below(2);
      auto q = [&](int x, int y) { P a{double(x), double(y)}; if (lying) std::swap(a.x, a.y); c.e.push_back({c.e.empty() ? 'm' : 'l', {}, {}, a}); };
      q(x0, y0);
      for (int z = 0; z < teeth; ++z) { int h = y0 + r.range(1, h1); q(x0 + 2 * z, h); q(x0 + 2 * z + 1, h); q(x0 + 2 * z + 1, y0 + (z + 1 < teeth && r.chance(0.7) ? r.range(0, 1) : 0)); if (z + 1 < teeth) q(x0 + 2 * z + 2, c.e.back().to.y == y0 || lying ? y0 : y0 + 1); }
      if (r.chance(0.3)) q(x0, y0);
    } else {
      int m = r.range(1, big ? (r.chance(0.1) ? 120 : 25) : r.chance(0.2) ? 14 : 6);
      c.e.push_back({'m', {}, {}, pt()});
      for (int q = 0; q < m; ++q) {
        P a = c.e.back().to, b = pt();
        if (r.chance(right)) { if (r.below(2)) b.y = a.y; else b.x = a.x; }
        c.e.push_back({'l', {}, {}, b});
      }
    }
    if (axis) {                           // only edges along the axes
      std::vector<Elem> e;
      for (auto& q : c.e) {
        if (!e.empty() && q.to.x != e.back().to.x && q.to.y != e.back().to.y) e.push_back({'l', {}, {}, {q.to.x, e.back().to.y}});
        e.push_back(q);
      }
      P a = e.back().to, b = e[0].to;
      if (a.x != b.x && a.y != b.y) e.push_back({'l', {}, {}, {a.x, b.y}});
      c.e = e;
    }
    cs.push_back(c);
    size_t edges = 0;
    for (auto& q : cs) edges += q.e.size();
    if (edges > 160) break;
  }
  // one number per lattice line: equal coordinates are equal to the last bit
  for (auto& c : cs)
    for (auto& e : c.e) e.to = {off.x + e.to.x * st, off.y + e.to.y * st};
  g.p.scale = std::max(g.p.scale, G * st);
  return cs;
}

// one processor's life
void history(Gen& g, std::vector<Op>& out, HOpt h) {
  Rng& r = g.r;
  int slot = h.slot >= 0 ? h.slot : g.slot();
  SceneOpt so;
  so.interleave = h.interleave;
  so.small = h.small;
  so.lines = h.lines;
  bool curves = false;
  bool lattice = r.chance(h.lattice);
  auto cs = lattice ? lattice_scene(g, h.small, h.interleave || r.chance(0.3)) : scene(g, so, &curves);
  if (curves) g.p.curves = 1;
  if (h.nu) out.push_back(mk(K_NEW, slot));
  // adds
  std::vector<Op> adds;
  std::vector<Contour> committed_all = cs;
  size_t i = 0;
  double together = cs.size() > 12 && r.chance(0.6) ? 0.97 : 0.5;
  while (i < cs.size()) {
    size_t j = i + 1;
    while (j < cs.size() && cs[j].kind == cs[i].kind && r.chance(together)) ++j;
    std::vector<Contour> part(cs.begin() + i, cs.begin() + j);
    Op a = mk(K_ADD, slot);
    a.kind = cs[i].kind;
    a.stream = g.stream(part);
    a.via = r.chance(h.reader) ? V_READER : r.chance(0.3) ? V_PATHS_ONE : V_PATHS;
    if (r.chance(h.stutter)) a.flags |= OF_STUTTER;
    if (r.chance(h.empties)) a.flags |= OF_EMPTY;
    if (h.share > 0 && a.via != V_READER && r.chance(h.share)) a.share = r.below(8);
    adds.push_back(a);
    if (r.chance(h.reader_fault)) {
      Op& f = adds.back();
      f.via = V_READER;
      f.share = -1;
      auto el = expand(g.p.streams[f.stream], f.flags);
      int n = (int)el.size();
      if (r.chance(0.35)) {        // the reader ends early
        int at = r.range(0, n);
        std::vector<Elem> cut(el.begin(), el.begin() + at);
        auto cc = contours_of({cut}, f.kind);
        std::vector<Contour> test = committed_all;
        bool ok = true;
        if (!cc.empty()) {
          Contour last = cc.back();
          Contour clean;
          clean.kind = last.kind;
          for (auto& e : last.e) if (clean.e.empty() || e.k == 'c' || e.to != clean.e.back().to) clean.e.push_back(e);
          if (!lattice && segs_of(clean).size() >= 2) {
            test.push_back(clean);
            // stands in for the full contour
            size_t full = 0;
            for (size_t q = i; q < j; ++q) if (committed_all[q].e[0].to == clean.e[0].to) full = q + 1;
            if (full) { test[full - 1] = clean; test.pop_back(); }
            ok = segs_of(clean).size() >= 3 && general_position(test, g.p.scale);
            if (segs_of(clean).size() == 2 && !segs_of(clean)[0].cubic && !segs_of(clean)[1].cubic) ok = false;
          } else if (!lattice && segs_of(clean).size() == 1) ok = false;   // a lone segment
        }
        if (lattice) ok = !h.interleave;   // the closing edge may be slanted
        if (ok) { f.fault = U_STOP; f.at = at; }
        if (ok) committed_all = test;   // later faults see the shortened contour
      } else {
        f.fault = U_THROW;
        f.at = r.range(0, n);
        // contours that were complete when it was thrown stay; the caller delivers the rest again
        std::vector<int> starts;
        for (int q = 0; q < n; ++q) if (el[q].k == 'm') starts.push_back(q);
        if (r.chance(0.6)) {
          int done = 0;
          for (size_t q = 1; q < starts.size(); ++q) if (starts[q] < f.at) done = (int)q;
          auto all = contours_of({el}, f.kind);
          std::vector<Contour> rest(all.begin() + std::min<size_t>(done, all.size()), all.end());
          Op again = mk(K_ADD, slot);
          again.kind = f.kind;
          again.stream = g.stream(rest);
          again.via = r.chance(0.5) ? V_READER : V_PATHS;
          adds.push_back(again);
        }
      }
    }
    i = j;
  }
  int np = r.range(h.procs_lo, h.procs_hi);
  std::vector<Op> procs;
  int op = pick_op(r), rule = pick_rule(r);
  for (int k = 0; k < np; ++k) {
    Op q = mk(K_PROC, slot);
    if (k && !r.chance(h.same)) { if (r.chance(0.8)) op = pick_op(r); if (r.chance(0.6)) rule = pick_rule(r); }
    q.op = op;
    q.rule = rule;
    q.via = r.chance(h.sink) ? V_READER : V_PATHS;
    if (r.chance(h.sink_fault)) { q.via = V_READER; q.fault = U_THROW; q.at = r.chance(0.7) ? r.range(0, 8) : r.range(0, 60); }
    if (q.via == V_PATHS && r.chance(h.into)) q.into = r.below(3);
    if (r.chance(h.prefill)) q.flags |= OF_PREFILL;
    procs.push_back(q);
  }
  if (!h.interleave) {
    for (auto& a : adds) out.push_back(a);
    for (auto& q : procs) out.push_back(q);
  } else {
    size_t a = 0, q = 0;
    size_t first = 1 + r.below((uint32_t)adds.size());
    while (a < first) out.push_back(adds[a++]);
    while (a < adds.size() || q < procs.size()) {
      if (q < procs.size() && (a >= adds.size() || r.chance(0.6))) out.push_back(procs[q++]);
      else out.push_back(adds[a++]);
    }
    if (!procs.empty()) { Op l = procs.back(); l.fault = 0; out.push_back(l); }
  }
  if (h.del) out.push_back(mk(K_DEL, slot));
}

std::string number(Rng& r) {
  char b[64];
  if (r.chance(0.01)) { static const char* w[] = {"nan", "inf", "-inf", "NaN", "infinity", "0", "-0", "-0.0", "1e-9", "+.5e+2"}; return w[r.below(10)]; }
  switch (r.below(10)) {
    case 0: snprintf(b, sizeof b, "%d", r.range(-9, 99)); break;
    case 1: snprintf(b, sizeof b, "%.3f", r.unit() * 200 - 100); break;
    case 2: snprintf(b, sizeof b, "%.17g", r.unit() * 200 - 100); break;
    case 3: snprintf(b, sizeof b, "%.4e", r.unit() * 100); break;
    case 4: snprintf(b, sizeof b, ".%d", r.range(0, 99)); break;
    case 5: snprintf(b, sizeof b, "%d.", r.range(0, 99)); break;
    case 6: snprintf(b, sizeof b, "+%d", r.range(0, 99)); break;
    case 7: snprintf(b, sizeof b, "%dE%d", r.range(1, 9), r.range(-3, 3)); break;
    case 8: snprintf(b, sizeof b, "-%.2f", r.unit() * 10); break;
    default: snprintf(b, sizeof b, "%.1f", r.unit() * 100);
  }
  return b;
}

std::string make_text(Rng& r, int elems) {
  std::string s;
  auto sp = [&] { static const char* w[] = {" ", " ", " ", "  ", "\n", "\t", " \r\n "}; return std::string(w[r.below(7)]); };
  auto nums = [&](int n) { std::string t; for (int i = 0; i < n; ++i) t += (i || r.chance(0.8) ? sp() : "") + number(r); return t; };
  for (int i = 0; i < elems; ++i) {
    int k = i == 0 && r.chance(0.9) ? 0 : (int)r.below(8);
    if (k == 0) s += "m" + nums(2);
    else if (k < 5) s += "l" + nums(2);
    else if (k < 7) s += "c" + nums(6);
    else s += "a" + nums(4);
    if (r.chance(0.9)) s += sp();
  }
  return s;
}

// what happens to a text on its way: cut short, bytes flipped, pieces lost,
// repeated or swapped
std::string damage(Rng& r, std::string s) {
  int n = r.range(1, 3);
  for (int i = 0; i < n && !s.empty(); ++i) {
    size_t a = r.below((uint32_t)s.size()), len = 1 + r.below(12);
    switch (r.below(7)) {
      case 0: case 1: s.resize(a); break;
      case 2: s[a] = "mlca0123456789.-+eE \nxMNz\x01"[r.below(26)]; break;
      case 3: s.erase(a, len); break;
      case 4: s.insert(a, s.substr(a, len)); break;
      case 5: { std::string t = s.substr(a, len); s.erase(a, t.size()); s.insert(r.below((uint32_t)s.size() + 1), t); break; }
      default: s[a] = char(s[a] ^ (1 << r.below(7)));
    }
  }
  for (auto& c : s) if (!c) c = ' ';
  return s;
}

// other use of the library: text, numeric helpers, path objects
Op side_op(Gen& g) {
  Rng& r = g.r;
  Op o;
  switch (r.below(3)) {
    case 0: o.k = K_PARSE; o.text = make_text(r, r.range(1, 6)); if (r.chance(0.3)) o.text = damage(r, o.text); break;
    case 1: {
      o.k = K_MATH;
      std::vector<Elem> e;
      int n = r.range(8, 14);
      for (int i = 0; i < n; ++i) e.push_back({i ? 'l' : 'm', {}, {}, {r.unit() * 100, r.unit() * 100}});
      o.stream = g.stream(e);
      break;
    }
    default: {
      o.k = K_PATH;
      std::vector<Elem> e;
      int n = r.range(1, 20);
      for (int i = 0; i < n; ++i) {
        auto pt = [&]() -> P { return {r.unit() * 100, r.unit() * 100}; };
        int k = i ? (int)r.below(5) : 0;
        if (k == 0) e.push_back({'m', {}, {}, pt()});
        else if (k < 3) e.push_back({'l', {}, {}, pt()});
        else { P a = pt(), b = pt(); e.push_back({'c', a, b, pt()}); }
      }
      o.stream = g.stream(e);
    }
  }
  return o;
}

void pick_mem(Gen& g) {
  Rng& r = g.r;
  g.p.mem.place = r.below(rt::PL_COUNT);
  g.p.mem.fill = r.below(rt::FI_COUNT);
  g.p.mem.freefill = r.chance(0.8);
  static const int sf[] = {0xA5, 0x00, 0xFF, 0x3F, 0x7F, 0x01};
  g.p.mem.stackfill = sf[r.below(6)];
}

void pick_sched(Gen& g) {
  Rng& r = g.r;
  auto& s = g.p.sched;
  int k = r.below(10);
  s.strat = k < 5 ? rt::ST_RANDOM : k < 7 ? rt::ST_BURST : rt::ST_PCT;
  static const uint32_t means[] = {20, 100, 400, 1500, 6000, 20000};
  s.mean = means[r.below(6)];
  s.depth = r.range(1, 6);
  s.length = 2000ull << r.below(8);
  static const double pg[] = {0, 0.05, 0.3, 0.7};
  s.p_global = pg[r.below(4)];
  static const double ps[] = {0, 0.02, 0.2};
  s.p_shared = ps[r.below(3)];
  static const double py[] = {0, 0.1, 0.4, 0.8};
  s.p_yield = py[r.below(4)];
}

void every(std::vector<Op>& v, const std::function<void(Op&)>& f) {
  for (auto& o : v) { f(o); every(o.sub, f); }
}

// allocation faults, placed with the allocation counts of a fault-free run
void pick_alloc_faults(Gen& g, int most, bool procs_only) {
  Rng& r = g.r;
  RunOpt opt;
  opt.sites = true;
  RunRes b = run_plan(g.p, opt);
  if (b.anomaly) return;
  struct C { int t, o; uint64_t n; };
  std::vector<std::vector<const Op*>> num(g.p.tasks.size());
  for (size_t t = 0; t < num.size(); ++t) number_ops(g.p.tasks[t], num[t]);
  std::vector<C> c;
  for (size_t t = 0; t < b.ops.size(); ++t)
    for (size_t o = 0; o + 1 < b.ops[t].size(); ++o)
      if (b.ops[t][o].allocs && (!procs_only || num[t][o]->k == K_PROC)) c.push_back({(int)t, (int)o, b.ops[t][o].allocs});
  if (c.empty()) return;
  int n = r.chance(0.7) ? 1 : r.range(1, most);
  for (int i = 0; i < n; ++i) {
    C& q = c[r.below((uint32_t)c.size())];
    rt::AllocFault f;
    f.task = q.t;
    f.op = q.o;
    bool by_place = false;
    if (r.chance(0.5)) {
      // first the place in the code, then one of the allocations made there
      std::vector<uint64_t> place;
      std::map<uint64_t, std::vector<uint32_t>> at;
      for (auto& x : b.sites)
        if (x.task == q.t && x.op == q.o) {
          auto& w = at[x.site];
          if (w.empty()) place.push_back(x.site);
          w.push_back(x.k);
        }
      if (!place.empty()) {
        auto& w = at[place[r.below((uint32_t)place.size())]];
        f.k = r.chance(0.3) ? w[0] : r.chance(0.3) ? w.back() : w[r.below((uint32_t)w.size())];
        by_place = true;
      }
    }
    if (!by_place) f.k = r.chance(0.15) ? 0 : r.chance(0.1) ? (uint32_t)q.n - 1 : (uint32_t)(r.next() % q.n);
    f.burst = r.chance(0.6) ? 1 : r.chance(0.5) ? r.range(2, 4) : 1000000;
    if (r.chance(0.12)) { f.k = 0; f.burst = 1000000; static const uint32_t ms[] = {64, 200, 800, 2000}; f.min_size = ms[r.below(4)]; }
    g.p.faults.push_back(f);
  }
}

}  // namespace

bool known_prop(const std::string& s) {
  return s.size() == 3 && s[0] == 'C' && atoi(s.c_str() + 1) >= 1 && atoi(s.c_str() + 1) <= 17;
}

Plan generate(const std::string& prop, uint64_t seed, bool thorough) {
  Gen g(prop, seed, thorough);
  Rng& r = g.r;
  Plan& p = g.p;
  int id = atoi(prop.c_str() + 1);
  pick_mem(g);
  pick_sched(g);
  switch (id) {
    case 1: {   // separate processors in separate tasks
      int nt = r.chance(0.6) ? 2 : r.chance(0.05) ? 6 : r.range(3, thorough ? 5 : 4);
      for (int t = 0; t < nt; ++t) {
        std::vector<Op> v;
        int nh = r.range(1, 2);
        for (int k = 0; k < nh; ++k) {
          if (r.chance(0.35)) v.push_back(side_op(g));
          HOpt h;
          h.small = true;
          h.procs_hi = 3;
          h.reader_fault = 0.05;
          h.sink_fault = 0.05;
          h.into = 0.2;
          h.share = 0.0;
          history(g, v, h);
        }
        if (r.chance(0.3)) v.push_back(side_op(g));
        p.tasks.push_back(v);
      }
      // tasks that do the very same thing meet in the same places
      if (r.chance(0.35))
        for (int t = 1; t < nt; ++t) {
          p.tasks[t] = p.tasks[0];
          every(p.tasks[t], [&](Op& o) { o.slot = o.slot + t * 12; });
        }
      if (r.chance(0.15)) pick_alloc_faults(g, 2, false);
      break;
    }
    case 2: {
      std::vector<Op> v;
      int nh = r.range(1, 3);
      for (int k = 0; k < nh; ++k) {
        if (r.chance(0.3)) v.push_back(side_op(g));
        HOpt h;
        h.procs_hi = 4;
        h.into = 0.2;
        h.interleave = r.chance(0.25);
        h.reader_fault = 0.05;
        h.sink_fault = 0.05;
        history(g, v, h);
      }
      if (r.chance(0.4)) v.push_back(side_op(g));
      p.tasks.push_back(v);
      break;
    }
    case 3: {
      int nt = r.chance(0.75) ? 1 : 2;
      for (int t = 0; t < nt; ++t) {
        std::vector<Op> v;
        if (r.chance(0.3)) v.push_back(side_op(g));
        HOpt h;
        h.procs_lo = 1;
        h.procs_hi = 3;
        h.into = 0.3;
        h.interleave = r.chance(0.35);
        h.del = false;
        size_t before = v.size();
        history(g, v, h);
        int slot = v[before].slot;
        // the caller delivers a single contour again when that failed
        std::vector<Op> w;
        for (size_t k = 0; k < v.size(); ++k) {
          w.push_back(v[k]);
          if (v[k].k == K_ADD && contours_of({delivered(p, v[k])}, 0).size() == 1 && r.chance(0.5)) {
            Op again = v[k];
            again.cond = (int)w.size() - 1;
            w.push_back(again);
          }
        }
        // and processes again, whatever happened
        Op q = mk(K_PROC, slot);
        for (auto& o : w) if (o.k == K_PROC) { q.op = o.op; q.rule = o.rule; }
        if (q.op == 0) q.op = pick_op(r);
        w.push_back(q);
        if (r.chance(0.5)) { Op q2 = mk(K_PROC, slot); q2.op = pick_op(r); q2.rule = pick_rule(r); w.push_back(q2); }
        w.push_back(mk(K_DEL, slot));
        if (r.chance(0.2)) w.push_back(side_op(g));
        if (r.chance(0.3)) { HOpt h2; h2.small = true; history(g, w, h2); }
        p.tasks.push_back(w);
      }
      pick_alloc_faults(g, 3, false);
      break;
    }
    case 4: {
      int nt = r.chance(0.8) ? 1 : 2;
      for (int t = 0; t < nt; ++t) {
        std::vector<Op> v;
        int nh = r.range(1, 2);
        for (int k = 0; k < nh; ++k) {
          if (r.chance(0.4)) v.push_back(side_op(g));
          HOpt h;
          h.procs_lo = r.chance(0.1) ? 0 : 1;
          h.procs_hi = 3;
          h.small = true;
          h.into = 0.3;
          h.interleave = r.chance(0.3);
          h.reader_fault = 0.2;
          h.sink_fault = 0.2;
          history(g, v, h);
        }
        if (r.chance(0.1)) { int s = g.slot(); v.push_back(mk(K_NEW, s)); v.push_back(mk(K_DEL, s)); }
        p.tasks.push_back(v);
      }
      if (r.chance(0.6)) pick_alloc_faults(g, 3, false);
      p.rounds = 3;
      break;
    }
    case 5: {
      int nt = r.chance(0.8) ? 1 : 2;
      for (int t = 0; t < nt; ++t) {
        std::vector<Op> v;
        HOpt h;
        h.reader = 0.8;
        h.reader_fault = 0.6;
        h.stutter = 0.25;
        h.procs_hi = 3;
        h.interleave = r.chance(0.25);
        history(g, v, h);
        p.tasks.push_back(v);
      }
      break;
    }
    case 6: {
      int nt = r.chance(0.8) ? 1 : 2;
      for (int t = 0; t < nt; ++t) {
        std::vector<Op> v;
        HOpt h;
        h.sink = 0.7;
        h.prefill = 0.3;
        h.sink_fault = 0.4;
        h.same = 0.6;
        h.procs_lo = 2;
        h.procs_hi = 6;
        if (r.chance(0.01)) { h.procs_lo = 12; h.procs_hi = 40; h.small = true; h.lines = true; }   // a long session
        h.into = 0.5;
        history(g, v, h);
        p.tasks.push_back(v);
      }
      break;
    }
    case 7: {
      std::vector<Op> v;
      HOpt h;
      h.procs_lo = 2;
      h.procs_hi = r.chance(0.2) ? 12 : 5;
      h.interleave = r.chance(0.5);
      if (r.chance(0.004)) { h.procs_lo = 60; h.procs_hi = 300; h.small = true; h.lines = true; h.same = 0.5; }   // a long session
      h.sink_fault = 0.1;
      h.reader_fault = 0.05;
      h.into = 0.2;
      history(g, v, h);
      p.tasks.push_back(v);
      if (r.chance(0.3)) pick_alloc_faults(g, 2, true);
      break;
    }
    case 8: {   // producers deliver to one consumer through a channel
      int np = r.range(1, 3);
      bool curves = false;
      SceneOpt so;
      auto cs = r.chance(0.25) ? lattice_scene(g, false, r.chance(0.3)) : scene(g, so, &curves);
      int slot = g.slot();
      std::vector<std::vector<Op>> prod(np);
      size_t i = 0;
      int sent = 0;
      while (i < cs.size()) {
        size_t j = i + 1;
        while (j < cs.size() && cs[j].kind == cs[i].kind && r.chance(0.5)) ++j;
        std::vector<Contour> part;
        for (size_t q = i; q < j; ++q) part.push_back(r.chance(0.5) ? rotated(cs[q], r.range(0, 9)) : cs[q]);
        Op s = mk(K_SEND, slot);
        s.kind = cs[i].kind;
        s.stream = g.stream(part);
        s.via = r.chance(0.4) ? V_PATHS_ONE : V_PATHS;
        if (r.chance(0.25)) s.flags |= OF_STUTTER;
        if (r.chance(0.25)) s.flags |= OF_EMPTY;
        auto& w = prod[r.below(np)];
        w.push_back(s);
        if (r.chance(0.2)) w.push_back(side_op(g));
        ++sent;
        i = j;
      }
      std::vector<Op> c;
      c.push_back(mk(K_NEW, slot));
      for (int k = 0; k < sent; ++k) c.push_back(mk(K_RECVADD, slot));
      int nq = r.range(1, 3);
      for (int k = 0; k < nq; ++k) { Op q = mk(K_PROC, slot); q.op = pick_op(r); q.rule = pick_rule(r); q.via = r.below(2); c.push_back(q); }
      c.push_back(mk(K_DEL, slot));
      for (auto& w : prod) p.tasks.push_back(w);
      p.tasks.push_back(c);
      p.sched.p_yield = 0.5;
      break;
    }
    case 9: {
      int nt = r.chance(0.6) ? 1 : 2;
      for (int t = 0; t < nt; ++t) {
        std::vector<Op> v;
        int nh = r.range(1, 3);
        std::vector<std::vector<Op>> hs;
        for (int k = 0; k < nh; ++k) {
          std::vector<Op> w;
          HOpt h;
          h.small = nh > 1;
          h.procs_hi = 3;
          h.into = 0.4;
          h.reader = 0.25;
          h.empties = 0.25;
          h.prefill = 0.5;
          history(g, w, h);
          hs.push_back(w);
        }
        // a second processor fed from the very same input objects
        if (r.chance(0.6)) {
          std::vector<Op> w = hs[0];
          int ns = g.slot(), sh = 0;
          for (auto& o : hs[0]) if (o.k == K_ADD && o.via != V_READER && sh < 6) o.share = t * 8 + sh++;
          sh = 0;
          for (auto& o : w) { o.slot = ns; if (o.k == K_ADD && o.via != V_READER && sh < 6) o.share = t * 8 + sh++; }
          int used = sh;
          for (auto& o : w) if (o.k == K_PROC && used && r.chance(0.4) && o.via == V_PATHS) { o.into = INTO_SHARE + t * 8 + --used; }
          hs.push_back(w);
        }
        // lives of the processors overlap
        std::vector<size_t> pos(hs.size(), 0);
        while (true) {
          std::vector<int> open;
          for (size_t k = 0; k < hs.size(); ++k) if (pos[k] < hs[k].size()) open.push_back((int)k);
          if (open.empty()) break;
          int k = hs.size() > 1 && r.chance(0.5) ? open[r.below((uint32_t)open.size())] : open[0];
          v.push_back(hs[k][pos[k]++]);
          if (r.chance(0.15)) v.push_back(mk(K_RECHECK, 0));
        }
        // an object may become an output only after its last use as input
        for (size_t k = 0; k < v.size(); ++k)
          if (v[k].into >= INTO_SHARE)
            for (size_t q = k + 1; q < v.size(); ++q)
              if (v[q].k == K_ADD && v[q].share == v[k].into - INTO_SHARE) { v[k].into = -1; break; }
        v.push_back(mk(K_RECHECK, 0));
        p.tasks.push_back(v);
      }
      break;
    }
    case 10: {
      int nt = r.chance(0.7) ? 1 : 2;
      for (int t = 0; t < nt; ++t) {
        std::vector<Op> v;
        int n = r.range(1, 10);
        for (int k = 0; k < n; ++k) {
          Op o;
          o.k = K_PARSE;
          o.text = make_text(r, r.chance(0.004) ? r.range(300, 1500) : r.chance(0.1) ? r.range(10, 60) : r.range(0, 6));
          if (r.chance(0.75)) o.text = damage(r, o.text);
          v.push_back(o);
        }
        p.tasks.push_back(v);
      }
      if (r.chance(0.25)) pick_alloc_faults(g, 2, false);
      break;
    }
    case 11: {
      int nt = r.range(1, 4);
      for (int t = 0; t < nt; ++t) {
        std::vector<Op> v;
        if (r.chance(0.3)) v.push_back(side_op(g));
        HOpt h;
        h.procs_hi = 4;
        h.small = nt > 1;
        h.reader = 0.6;
        h.sink = 0.6;
        h.reader_fault = 0.1;
        h.sink_fault = 0.1;
        h.interleave = r.chance(0.2);
        history(g, v, h);
        if (r.chance(0.3)) v.push_back(side_op(g));
        if (r.chance(0.3)) { HOpt h2; h2.small = true; history(g, v, h2); }
        p.tasks.push_back(v);
      }
      if (nt > 1 && r.chance(0.6)) p.sched.stall = r.below(nt);
      if (r.chance(0.3)) pick_alloc_faults(g, 2, false);
      break;
    }
    case 12: {
      int nt = r.chance(0.7) ? 1 : r.range(2, 3);
      for (int t = 0; t < nt; ++t) {
        std::vector<Op> v;
        HOpt h;
        h.procs_hi = r.chance(0.15) ? 10 : 4;
        h.interleave = r.chance(0.35);
        h.small = nt > 1;
        if (r.chance(0.01)) { h.procs_lo = 12; h.procs_hi = 40; h.small = true; h.lines = true; }   // a long session
        h.reader_fault = 0.08;
        h.sink_fault = 0.08;
        h.into = 0.2;
        history(g, v, h);
        p.tasks.push_back(v);
      }
      if (r.chance(0.1)) pick_alloc_faults(g, 2, false);
      break;
    }
    case 13: {
      int nt = r.chance(0.8) ? 1 : 2;
      for (int t = 0; t < nt; ++t) {
        std::vector<Op> v;
        HOpt h;
        h.small = true;
        h.procs_hi = 2;
        h.reader_fault = 0.1;
        history(g, v, h);
        p.tasks.push_back(v);
      }
      int n = 400;
      double q = r.chance(0.3) ? 1.0 : r.unit();
      int kind = r.below(8);
      for (int i = 0; i < n; ++i) p.net.push_back(r.chance(q) ? (kind < 7 ? kind : (int)r.below(7)) : 0);
      break;
    }
    case 14: {   // a processor wanders between tasks
      int nt = r.range(2, 4), np = r.range(1, 3);
      p.tasks.resize(nt);
      int chan = 0;
      struct H { std::vector<Op> v; size_t pos = 0; int at; };
      std::vector<H> hs(np);
      for (auto& h : hs) {
        HOpt o;
        o.small = true;
        o.procs_hi = 3;
        o.interleave = r.chance(0.3);
        o.reader_fault = 0.1;
        o.sink_fault = 0.1;
        history(g, h.v, o);
        h.at = r.below(nt);
      }
      while (true) {
        std::vector<int> open;
        for (int k = 0; k < np; ++k) if (hs[k].pos < hs[k].v.size()) open.push_back(k);
        if (open.empty()) break;
        H& h = hs[open[r.below((uint32_t)open.size())]];
        if (h.pos && r.chance(0.45) && chan < 15) {
          int to = r.below(nt);
          if (to != h.at) {
            Op a = mk(K_HAND, 0), b = mk(K_TAKE, 0);
            a.chan = b.chan = chan++;
            p.tasks[h.at].push_back(a);
            p.tasks[to].push_back(b);
            h.at = to;
          }
        }
        p.tasks[h.at].push_back(h.v[h.pos++]);
      }
      break;
    }
    case 15: {   // callbacks that use the library themselves
      std::vector<Op> v;
      int nh = r.range(1, 2);
      for (int k = 0; k < nh; ++k) {
        HOpt h;
        h.small = true;
        h.reader = 0.8;
        h.sink = 0.8;
        h.procs_hi = 3;
        history(g, v, h);
      }
      int n = r.range(1, 3);
      std::vector<Op*> host;
      for (auto& o : v) if ((o.k == K_ADD || o.k == K_PROC) && o.via == V_READER) host.push_back(&o);
      for (int k = 0; k < n && !host.empty(); ++k) {
        Op* o = host[r.below((uint32_t)host.size())];
        if (!o->sub.empty()) continue;
        std::vector<Op> w;
        HOpt h;
        h.small = true;
        h.reader = 0.5;
        h.sink = 0.5;
        h.reader_fault = 0.1;
        h.sink_fault = 0.1;
        history(g, w, h);
        if (r.chance(0.3)) w.push_back(side_op(g));
        // third level
        if (r.chance(0.25))
          for (auto& x : w)
            if ((x.k == K_ADD || x.k == K_PROC) && x.via == V_READER && x.sub.empty()) {
              HOpt h3;
              h3.small = true;
              history(g, x.sub, h3);
              x.subat = r.range(0, 3);
              break;
            }
        o->sub = w;
        o->subat = o->k == K_ADD ? r.range(0, (int)delivered(p, *o).size()) : r.range(0, 10);
      }
      if (r.chance(0.05)) {        // nested much deeper
        std::vector<Op>* w = &v;
        int depth = r.range(3, 8);
        for (int k = 0; k < depth; ++k) {
          Op* host = nullptr;
          for (auto& o : *w) if ((o.k == K_ADD || o.k == K_PROC) && o.via == V_READER && (o.sub.empty() || k == 0) && (!host || r.below(2))) host = &o;
          if (!host) break;
          std::vector<Op> u;
          HOpt h;
          h.small = true;
          h.reader = 0.9;
          h.sink = 0.9;
          h.lines = true;
          history(g, u, h);
          host->sub = u;
          host->subat = host->k == K_ADD ? r.range(0, (int)delivered(p, *host).size()) : r.range(0, 4);
          w = &host->sub;
        }
      }
      p.tasks.push_back(v);
      break;
    }
    case 16: {   // results become operands of further operations
      bool lattice = r.chance(0.3);
      SceneOpt so;
      bool curves = false;
      auto cs = lattice ? lattice_scene(g, true, true) : scene(g, so, &curves);
      if (curves) p.curves = 1;
      int nt = r.chance(0.45) ? 1 : r.range(2, 3);
      p.tasks.resize(nt);
      // operands: one stream, or a result that lies in a variable of a task, or a processor that holds one
      struct Val { int stream = -1, task = -1, var = -1, slot = -1; };
      std::vector<Val> vals;
      {
        int no = std::min((int)cs.size(), r.range(2, 5));
        std::vector<std::vector<Contour>> part(std::max(no, 1));
        for (size_t i = 0; i < cs.size(); ++i) part[i < part.size() ? i : r.below((uint32_t)part.size())].push_back(cs[i]);
        for (auto& q : part) { Val v; v.stream = g.stream(q); vals.push_back(v); }
      }
      std::vector<int> nvar(nt, 0);
      int chan = 0;
      int steps = lattice ? r.range(2, 5) : (int)vals.size() - 1 + r.range(0, 1);
      if (steps < 2) steps = 2;
      int rule = pick_rule(r);
      for (int k = 0; k < steps; ++k) {
        int t = r.below(nt);
        if (nvar[t] >= 4) continue;
        auto& T = p.tasks[t];
        int slot = g.slot();
        if (r.chance(0.3)) rule = pick_rule(r);
        T.push_back(mk(K_NEW, slot));
        int nin = vals.size() > 2 && r.chance(0.25) ? 3 : 2;
        if (r.chance(0.05) || vals.size() < 2) nin = 1;      // simplification of one operand
        for (int i = 0; i < nin && !vals.empty(); ++i) {
          // results first
          size_t w = r.below((uint32_t)vals.size());
          if (r.chance(0.6)) for (size_t q = 0; q < vals.size(); ++q) if (vals[q].stream < 0) w = q;
          Val v = vals[w];
          int kind = i == 0 ? 0 : i == 1 ? 1 : (int)r.below(2);
          bool again = lattice && r.chance(0.4);    // used more than once
          if (v.stream >= 0) {
            Op a = mk(K_ADD, slot);
            a.kind = kind;
            a.stream = v.stream;
            a.via = r.chance(0.4) ? V_READER : V_PATHS;
            T.push_back(a);
          } else if (v.slot >= 0) {
            if (v.task != t) continue;
            Op a = mk(K_PIPE, slot);
            a.kind = kind;
            a.share = v.slot;
            a.op = pick_op(r);
            a.rule = rule;
            T.push_back(a);
            again = lattice && again;
          } else if (v.task == t) {
            Op a = mk(K_FEED, slot);
            a.kind = kind;
            a.into = v.var;
            a.via = r.chance(0.4) ? V_READER : V_PATHS;
            if (r.chance(0.06)) { a.via = V_READER; a.fault = U_THROW; a.at = r.range(0, 20); }
            T.push_back(a);
          } else {
            if (chan >= 15) continue;
            again = false;               // the object changes hands
            Op a = mk(K_SEND, 0), b = mk(K_RECVADD, slot);
            a.kind = kind;
            a.into = v.var;
            a.chan = b.chan = chan++;
            p.tasks[v.task].push_back(a);
            T.push_back(b);
          }
          if (!again) vals.erase(vals.begin() + w);
        }
        Val res;
        res.task = t;
        if (r.chance(0.2) && k + 1 < steps) res.slot = slot;     // the processor itself is passed on
        else {
          int np = r.chance(0.2) ? 2 : 1;
          for (int q = 0; q < np; ++q) {
            Op o = mk(K_PROC, slot);
            o.op = pick_op(r);
            o.rule = rule;
            o.via = q + 1 < np ? r.below(2) : V_PATHS;
            if (q + 1 == np) o.into = res.var = nvar[t];
            T.push_back(o);
          }
          ++nvar[t];
          if (r.chance(0.6)) T.push_back(mk(K_DEL, slot));
          if (r.chance(0.2)) T.push_back(mk(K_RECHECK, 0));
        }
        vals.push_back(res);
      }
      p.sched.p_yield = 0.5;
      if (r.chance(0.1)) pick_alloc_faults(g, 2, true);
      break;
    }
    case 17: {   // path objects: drawn, moved, traversed
      int nt = r.chance(0.4) ? 1 : r.range(2, 4);
      p.tasks.resize(nt);
      auto coord = [&]() -> double {
        switch (r.below(12)) {
          case 0: return 0.0;
          case 1: return -0.0;
          case 2: return r.range(-3, 3);
          case 3: return (r.unit() - 0.5) * 1e300;
          case 4: return (r.unit() - 0.5) * 1e-300;
          default: return (r.unit() - 0.5) * 200;
        }
      };
      auto drawing = [&]() {
        std::vector<Elem> e;
        int n = r.chance(0.05) ? r.range(60, 400) : r.range(0, 12);
        int bias = r.below(4);
        for (int k = 0; k < n; ++k) {
          int w = bias == 3 ? (int)r.below(3) : r.chance(0.7) ? (k ? 1 + (int)r.below(2) : 0) : bias;
          P a{coord(), coord()}, b{coord(), coord()}, c{coord(), coord()};
          if (!e.empty() && r.chance(0.1)) c = e.back().to;
          e.push_back({"mlc"[w], a, b, c});
        }
        return g.stream(e);
      };
      int shared = r.range(1, 3);
      auto draw = [&](int slot) { Op o = mk(K_DRAW, slot); o.stream = drawing(); o.op = r.below(2); return o; };
      std::function<Op(int, int, int)> walk = [&](int t, int own, int depth) {
        int slot = own && r.chance(0.6) ? 8 + t * 12 + (int)r.below(own) : (int)r.below(shared);
        Op o = mk(K_WALK, slot);
        if (r.chance(0.3)) o.rule = r.below(8);
        if (r.chance(0.2)) { o.fault = U_THROW; o.at = r.chance(0.7) ? r.range(0, 6) : r.range(0, 60); }
        if (depth < 3 && r.chance(0.25)) {
          o.subat = r.range(0, 5);
          int n = r.range(1, 3);
          for (int k = 0; k < n; ++k) {
            if (r.chance(0.5)) o.sub.push_back(walk(t, own, depth + 1));
            else if (own && r.chance(0.5)) o.sub.push_back(draw(8 + t * 12 + (int)r.below(own)));
            else o.sub.push_back(side_op(g));
          }
        }
        return o;
      };
      for (int s = 0; s < shared; ++s) { int n = r.range(1, 3); for (int k = 0; k < n; ++k) p.tasks[0].push_back(draw(s)); }
      for (int t = 1; t < nt; ++t) {
        Op a = mk(K_HAND, 0), b = mk(K_TAKE, 0);
        a.chan = b.chan = t;
        p.tasks[0].push_back(a);
        p.tasks[t].push_back(b);
      }
      for (int t = 0; t < nt; ++t) {
        int own = 0, n = r.range(2, 8);
        std::vector<Op> v;
        for (int k = 0; k < n; ++k) {
          int c = r.below(10);
          if (c < 3 && own < 5) v.push_back(draw(8 + t * 12 + own++));
          else if (c < 4 && own) v.push_back(draw(8 + t * 12 + (int)r.below(own)));
          else if (c < 5 && own) { Op o = mk(K_MOVEP, 8 + t * 12 + (int)r.below(own)); o.share = 8 + t * 12 + own; if (own < 10) { ++own; v.push_back(o); } }
          else v.push_back(walk(t, own, 0));
        }
        v.push_back(walk(t, own, 0));
        for (auto& o : v) p.tasks[t].push_back(o);
      }
      p.sched.p_yield = 0.5;
      if (r.chance(0.5)) pick_alloc_faults(g, 3, false);
      break;
    }
  }
  for (auto& st : p.streams)
    for (auto& e : st.e) if (e.k != 'c') e.p1 = e.p2 = ref::P{};
  return p;
}
