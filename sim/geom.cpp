#include "geom.h"
#include <algorithm>
#include <cfloat>

namespace ref {

P at(const Seg& s, double t) {
  double k = 1 - t;
  if (!s.cubic) return {s.a.x * k + s.d.x * t, s.a.y * k + s.d.y * t};
  double w0 = k * k * k, w1 = 3 * k * k * t, w2 = 3 * k * t * t, w3 = t * t * t;
  return {s.a.x * w0 + s.b.x * w1 + s.c.x * w2 + s.d.x * w3, s.a.y * w0 + s.b.y * w1 + s.c.y * w2 + s.d.y * w3};
}

P deriv(const Seg& s, double t) {
  if (!s.cubic) return s.d - s.a;
  double k = 1 - t;
  return (s.b - s.a) * (3 * k * k) + (s.c - s.b) * (6 * k * t) + (s.d - s.c) * (3 * t * t);
}

std::vector<Seg> segs_of(const Contour& c) {
  std::vector<Seg> r;
  if (c.e.empty()) return r;
  P org = c.e[0].to, cur = org;
  for (size_t i = 1; i < c.e.size(); ++i) {
    const Elem& e = c.e[i];
    if (e.k == 'l') r.push_back({false, cur, cur, e.to, e.to});
    else if (e.k == 'c') r.push_back({true, cur, e.p1, e.p2, e.to});
    cur = e.to;
  }
  if (cur != org) r.push_back({false, cur, cur, org, org});
  return r;
}

// parameters of the y extrema of a cubic, ascending, in (0,1)
static int y_extrema(const Seg& s, double* t) {
  if (!s.cubic) return 0;
  double d0 = s.b.y - s.a.y, d1 = s.c.y - s.b.y, d2 = s.d.y - s.c.y;
  double a = d0 - 2 * d1 + d2, b = 2 * (d1 - d0), c = d0;
  double r[2];
  int n = 0;
  double m = std::max({std::fabs(d0), std::fabs(d1), std::fabs(d2)});
  if (std::fabs(a) < 1e-14 * m) {
    if (b != 0) r[n++] = -c / b;
  } else {
    double D = b * b - 4 * a * c;
    if (D > 0) {
      double q = -0.5 * (b + (b >= 0 ? std::sqrt(D) : -std::sqrt(D)));
      r[n++] = q / a;
      if (q != 0) r[n++] = c / q;
    }
  }
  int k = 0;
  for (int i = 0; i < n; ++i)
    if (r[i] > 0 && r[i] < 1) t[k++] = r[i];
  if (k == 2 && t[0] > t[1]) std::swap(t[0], t[1]);
  return k;
}

void crossings(const std::vector<Seg>& v, double y, std::vector<Crossing>& out) {
  out.clear();
  for (const Seg& s : v) {
    if (!s.cubic) {
      if ((s.a.y < y) != (s.d.y < y)) {
        double t = (y - s.a.y) / (s.d.y - s.a.y);
        out.push_back({s.a.x + (s.d.x - s.a.x) * t, s.d.y > s.a.y ? 1 : -1});
      }
      continue;
    }
    double lo = std::min({s.a.y, s.b.y, s.c.y, s.d.y}), hi = std::max({s.a.y, s.b.y, s.c.y, s.d.y});
    if (y < lo || y > hi) continue;
    double ts[4];
    ts[0] = 0;
    int n = y_extrema(s, ts + 1);
    ts[n + 1] = 1;
    for (int i = 0; i <= n; ++i) {
      double t0 = ts[i], t1 = ts[i + 1];
      double y0 = at(s, t0).y, y1 = at(s, t1).y;
      if ((y0 < y) == (y1 < y)) continue;
      bool up = y1 > y0;
      for (int k = 0; k < 52; ++k) {
        double m = 0.5 * (t0 + t1);
        if ((at(s, m).y < y) == up) t0 = m; else t1 = m;
      }
      out.push_back({at(s, 0.5 * (t0 + t1)).x, up ? 1 : -1});
    }
  }
  std::sort(out.begin(), out.end(), [](const Crossing& a, const Crossing& b) { return a.x < b.x; });
}

bool filled(int w, int rule) {
  switch (rule) {
    case EVEN_ODD: return (w & 1) != 0;
    case NON_ZERO: return w != 0;
    case POSITIVE: return w > 0;
    default: return w < 0;
  }
}

static void collect_events(const std::vector<Seg>& v, std::vector<double>& ys) {
  for (const Seg& s : v) {
    ys.push_back(s.a.y);
    ys.push_back(s.d.y);
    double t[2];
    int n = y_extrema(s, t);
    for (int i = 0; i < n; ++i) ys.push_back(at(s, t[i]).y);
  }
}

static std::vector<double> pick_lines(std::vector<double> ys, uint64_t seed, int max_lines, double scale) {
  std::vector<double> r;
  std::sort(ys.begin(), ys.end());
  for (size_t i = 1; i < ys.size(); ++i)
    if (ys[i] - ys[i - 1] > 2e-4 * scale) r.push_back(0.5 * (ys[i] + ys[i - 1]));
  Rng g(seed);
  while ((int)r.size() > max_lines) {
    size_t i = g.below((uint32_t)r.size());
    r[i] = r.back();
    r.pop_back();
  }
  return r;
}

struct Ev { double x; int who, dir; };

// winding of the output must be 1 inside (-1 under fill rule negative) and 0
// outside, and no edge may have the same on both sides: the contours then
// describe exactly the region when they are read again under the same rule.
RegionDiff compare_region(const std::vector<Seg>& subj, const std::vector<Seg>& clip, int op, int rule,
                          const std::vector<Seg>& out, uint64_t seed, int max_lines, double scale) {
  RegionDiff rd;
  std::vector<double> ys;
  collect_events(subj, ys);
  collect_events(clip, ys);
  collect_events(out, ys);
  for (double v : ys)
    if (!std::isfinite(v)) { rd.ok = false; rd.what = "non-finite coordinate in output"; return rd; }
  const double tol = 2e-5 * scale;
  std::vector<Crossing> c[3];
  for (double y : pick_lines(ys, seed, max_lines, scale)) {
    crossings(subj, y, c[0]);
    crossings(clip, y, c[1]);
    crossings(out, y, c[2]);
    std::vector<Ev> ev;
    for (int k = 0; k < 3; ++k)
      for (auto& q : c[k]) ev.push_back({q.x, k, q.dir});
    std::sort(ev.begin(), ev.end(), [](const Ev& a, const Ev& b) { return a.x < b.x; });
    int w[3] = {0, 0, 0};
    double diff = 0, multi = 0, plus = 0, minus = 0;
    for (size_t i = 1; i < c[2].size(); ++i)
      if (c[2][i].x - c[2][i - 1].x <= 1e-12 * scale && c[2][i].dir != c[2][i - 1].dir) {
        rd.ok = false; rd.y = y; rd.what = "output has an edge with both sides outside or both inside";
        return rd;
      }
    for (size_t i = 0; i < ev.size(); ++i) {
      w[ev[i].who] -= ev[i].dir;   // left to right: a downward edge enters a CCW contour
      if (i + 1 == ev.size()) break;
      double len = ev[i + 1].x - ev[i].x;
      if (len <= 0) continue;
      bool a = filled(w[0], rule), b = filled(w[1], rule), e = false;
      switch (op) {
        case OP_INTERSECTION: e = a && b; break;
        case OP_UNION: e = a || b; break;
        case OP_DIFFERENCE: e = a && !b; break;
        case OP_XOR: e = a != b; break;
        default: e = false;
      }
      bool o = w[2] != 0;
      if (e != o) diff += len;
      if (w[2] > 0) plus += len;
      if (w[2] < 0) minus += len;
      if (w[2] > 1 || w[2] < -1) multi += len;
    }
    if (w[2] != 0) { rd.ok = false; rd.y = y; rd.what = "output contours are not closed"; return rd; }
    if (diff > tol) {
      rd.ok = false; rd.y = y; rd.len = diff; rd.what = "region differs from the boolean of the inputs";
      return rd;
    }
    // the inside of a result is wound once, in the direction the fill rule calls inside
    double wrong = rule == NEGATIVE ? plus : minus;
    if (wrong > tol) {
      rd.ok = false; rd.y = y; rd.len = wrong; rd.what = "output contours wind in the wrong direction";
      return rd;
    }
    if (multi > tol) {
      rd.ok = false; rd.y = y; rd.len = multi; rd.what = "output contours overlap one another";
      return rd;
    }
  }
  return rd;
}

RegionDiff compare_outputs(const std::vector<Seg>& a, const std::vector<Seg>& b, uint64_t seed, int max_lines,
                           double scale) {
  RegionDiff rd;
  std::vector<double> ys;
  collect_events(a, ys);
  collect_events(b, ys);
  for (double v : ys)
    if (!std::isfinite(v)) { rd.ok = false; rd.what = "non-finite coordinate in output"; return rd; }
  const double tol = 2e-5 * scale;
  std::vector<Crossing> c[2];
  for (double y : pick_lines(ys, seed, max_lines, scale)) {
    crossings(a, y, c[0]);
    crossings(b, y, c[1]);
    std::vector<Ev> ev;
    for (int k = 0; k < 2; ++k)
      for (auto& q : c[k]) ev.push_back({q.x, k, q.dir});
    std::sort(ev.begin(), ev.end(), [](const Ev& x, const Ev& z) { return x.x < z.x; });
    int w[2] = {0, 0};
    double diff = 0;
    for (size_t i = 0; i + 1 < ev.size(); ++i) {
      w[ev[i].who] -= ev[i].dir;   // left to right: a downward edge enters a CCW contour
      double len = ev[i + 1].x - ev[i].x;
      if (len > 0 && (w[0] != 0) != (w[1] != 0)) diff += len;
    }
    if (diff > tol) { rd.ok = false; rd.y = y; rd.len = diff; rd.what = "the two outputs are different regions"; return rd; }
  }
  return rd;
}

// ---------------------------------------------------------------------------
// General position with a margin, for the whole set of contours.  The test is
// monotone: every subset of an accepted set is accepted.
namespace {
struct Piece { P a, b; int seg, idx; };
double cross(P a, P b) { return a.x * b.y - a.y * b.x; }
double dot(P a, P b) { return a.x * b.x + a.y * b.y; }
double len(P a) { return std::sqrt(dot(a, a)); }
double dist_ps(P p, P a, P b) {
  P d = b - a;
  double l = dot(d, d), t = l > 0 ? dot(p - a, d) / l : 0;
  t = t < 0 ? 0 : t > 1 ? 1 : t;
  return len(p - (a + d * t));
}
struct CSeg { Seg s; int contour, prev, next; };
}  // namespace

bool general_position(const std::vector<Contour>& cs, double scale, std::string* why) {
  auto no = [&](const char* w) { if (why) *why = w; return false; };
  const double eps = 5e-5 * scale;      // distance margin
  const double sin_min = 0.01;         // crossing angle margin
  std::vector<CSeg> sg;
  for (size_t ci = 0; ci < cs.size(); ++ci) {
    auto v = segs_of(cs[ci]);
    if (v.size() < 2) return no("too few segments");
    int base = (int)sg.size(), n = (int)v.size();
    for (int i = 0; i < n; ++i) sg.push_back({v[i], (int)ci, base + (i + n - 1) % n, base + (i + 1) % n});
  }
  std::vector<Piece> pc;
  std::vector<std::pair<P, int>> crit;  // critical points with the segment they start on
  for (int i = 0; i < (int)sg.size(); ++i) {
    const Seg& s = sg[i].s;
    int n = s.cubic ? 40 : 1;
    if (len(s.d - s.a) < 20 * eps && !s.cubic) return no("short line");
    P p = s.a;
    double total = 0;
    for (int k = 1; k <= n; ++k) {
      P q = k == n ? s.d : at(s, double(k) / n);
      pc.push_back({p, q, i, k - 1});
      total += len(q - p);
      p = q;
    }
    if (s.cubic) {
      if (total < 40 * eps) return no("short curve");
      double t[2];
      int m = y_extrema(s, t);
      for (int k = 0; k < m; ++k)
        if (t[k] > 0.02 && t[k] < 0.98) crit.push_back({at(s, t[k]), i});
    }
    // joint with the next segment: the two directions must not fold back
    const Seg& nx = sg[sg[i].next].s;
    P u = deriv(s, 1) * -1.0, v = deriv(nx, 0);
    double lu = len(u), lv = len(v);
    if (lu < 10 * eps || lv < 10 * eps) return no("degenerate tangent");
    if (dot(u, v) > 0 && std::fabs(cross(u, v)) < 0.1 * lu * lv) return no("fold");
    crit.push_back({s.d, i});
  }
  // pieces against pieces
  struct X { P p; int s1, s2; };
  std::vector<X> xs;
  std::vector<int> ord(pc.size());
  for (size_t i = 0; i < ord.size(); ++i) ord[i] = (int)i;
  std::sort(ord.begin(), ord.end(), [&](int l, int r) {
    double a = std::min(pc[l].a.x, pc[l].b.x), b = std::min(pc[r].a.x, pc[r].b.x);
    return a != b ? a < b : l < r;
  });
  for (size_t ii = 0; ii < ord.size(); ++ii) {
    const Piece& A = pc[ord[ii]];
    double ahi = std::max(A.a.x, A.b.x), aylo = std::min(A.a.y, A.b.y), ayhi = std::max(A.a.y, A.b.y);
    for (size_t jj = ii + 1; jj < ord.size(); ++jj) {
      const Piece& B = pc[ord[jj]];
      if (std::min(B.a.x, B.b.x) > ahi) break;
      if (std::min(B.a.y, B.b.y) > ayhi || std::max(B.a.y, B.b.y) < aylo) continue;
      if (A.seg == B.seg && std::abs(A.idx - B.idx) <= 1) continue;
      P da = A.b - A.a, db = B.b - B.a;
      double den = cross(da, db);
      if (den == 0) continue;
      double ta = cross(B.a - A.a, db) / den, tb = cross(B.a - A.a, da) / den;
      if (ta < -1e-9 || ta > 1 + 1e-9 || tb < -1e-9 || tb > 1 + 1e-9) continue;
      P x = A.a + da * ta;
      // the shared vertex of neighbours is not a crossing
      bool nbr = A.seg != B.seg && (sg[A.seg].next == B.seg || sg[A.seg].prev == B.seg);
      if (nbr) {
        P sh = sg[A.seg].next == B.seg ? sg[A.seg].s.d : sg[A.seg].s.a;
        P sh2 = sg[A.seg].prev == B.seg ? sg[A.seg].s.a : sg[A.seg].s.d;
        if (len(x - sh) < 1e-9 * scale || len(x - sh2) < 1e-9 * scale) continue;
      }
      if (std::fabs(den) < sin_min * len(da) * len(db)) return no("shallow crossing");
      xs.push_back({x, A.seg, B.seg});
    }
  }
  // bounding boxes of segments for the distance tests
  auto near = [&](P p, int skip1, int skip2, double e) {
    for (const Piece& q : pc) {
      if (q.seg == skip1 || q.seg == skip2) continue;
      if (p.x < std::min(q.a.x, q.b.x) - e || p.x > std::max(q.a.x, q.b.x) + e) continue;
      if (p.y < std::min(q.a.y, q.b.y) - e || p.y > std::max(q.a.y, q.b.y) + e) continue;
      if (dist_ps(p, q.a, q.b) < e) return true;
    }
    return false;
  };
  for (auto& c : crit) {
    bool endpoint = c.first == sg[c.second].s.d;
    if (near(c.first, c.second, endpoint ? sg[c.second].next : -1, 3 * eps)) return no("point near segment");
  }
  for (size_t i = 0; i < xs.size(); ++i) {
    if (near(xs[i].p, xs[i].s1, xs[i].s2, 3 * eps)) return no("triple point");
    for (size_t j = 0; j < i; ++j)
      if (len(xs[i].p - xs[j].p) < 6 * eps) return no("close crossings");
    for (auto& c : crit)
      if (len(xs[i].p - c.first) < 6 * eps) return no("crossing near vertex");
  }
  return true;
}

// ---------------------------------------------------------------------------
bool family_has_curves(int f) { return f == F_CUBIC || f == F_MIX || f == F_RING || f == F_BLEND || f == F_LENS || f == F_BENT || f == F_QUAD; }

static Contour make_contour(Rng& r, int family, double S) {
  Contour c;
  c.kind = r.below(2) ? CLIP : SUBJECT;
  auto pt = [&]() -> P { return {r.unit() * S, r.unit() * S}; };
  auto mv = [&](P p) { c.e.push_back({'m', {}, {}, p}); };
  auto ln = [&](P p) { c.e.push_back({'l', {}, {}, p}); };
  auto cb = [&](P a, P b, P p) { c.e.push_back({'c', a, b, p}); };
  switch (family) {
    case F_POLY: {
      mv(pt());
      int n = r.range(2, 7);
      for (int i = 0; i < n; ++i) ln(pt());
      break;
    }
    case F_CUBIC:
    case F_MIX: {
      // edges bent off their chord; the bend stays below the chord length, so
      // that the curve neither loops nor comes near a cusp
      std::vector<P> v;
      int n = r.range(3, family == F_CUBIC ? 4 : 6);
      for (int i = 0; i < n; ++i) v.push_back(pt());
      mv(v[0]);
      for (int i = 0; i < n; ++i) {
        P a = v[i], b = v[(i + 1) % n], d = b - a, q{-d.y, d.x};
        if (family == F_MIX && r.below(2)) { if (i + 1 < n || r.below(2)) ln(b); continue; }
        double b1 = (r.unit() - 0.5) * 0.9, b2 = r.chance(0.7) ? b1 * (0.5 + r.unit()) : -b1 * (0.5 + r.unit());
        cb(a + d * (0.25 + 0.16 * r.unit()) + q * b1, a + d * (0.59 + 0.16 * r.unit()) + q * b2, b);
      }
      break;
    }
    case F_RECT: {
      // rectangles and staircases: horizontal and vertical edges
      double x0 = r.unit() * S * 0.7, y0 = r.unit() * S * 0.7;
      int n = r.range(0, 3);
      std::vector<P> v;
      if (n == 0) {
        double w = (0.1 + 0.5 * r.unit()) * S, h = (0.1 + 0.5 * r.unit()) * S;
        v = {{x0, y0}, {x0 + w, y0}, {x0 + w, y0 + h}, {x0, y0 + h}};
      } else {
        double x = x0, y = y0;
        v.push_back({x0, y0});
        std::vector<P> back;
        for (int i = 0; i < n; ++i) {
          double nx = x + (0.08 + 0.2 * r.unit()) * S, ny = y + (0.08 + 0.2 * r.unit()) * S;
          v.push_back({nx, y});
          v.push_back({nx, ny});
          x = nx; y = ny;
        }
        v.push_back({x0, y});
      }
      if (r.below(2)) std::reverse(v.begin(), v.end());
      size_t st = r.below((uint32_t)v.size());
      mv(v[st]);
      for (size_t i = 1; i < v.size(); ++i) ln(v[(st + i) % v.size()]);
      if (r.below(2)) ln(v[st]);   // explicit closing element
      break;
    }
    case F_RING: {
      // ellipse of four cubic arcs, either direction
      P o{(0.25 + 0.5 * r.unit()) * S, (0.25 + 0.5 * r.unit()) * S};
      double rx = (0.05 + 0.4 * r.unit()) * S, ry = (0.05 + 0.4 * r.unit()) * S, k = 0.55228475;
      double th = r.unit() * 6.283185307179586;
      double cs = std::cos(th), sn = std::sin(th);
      auto R = [&](double x, double y) -> P { return {o.x + x * rx * cs - y * ry * sn, o.y + x * rx * sn + y * ry * cs}; };
      bool rev = r.below(2);
      double q[12][2] = {{1, k}, {k, 1}, {0, 1}, {-k, 1}, {-1, k}, {-1, 0}, {-1, -k}, {-k, -1}, {0, -1}, {k, -1}, {1, -k}, {1, 0}};
      P f[13];
      f[0] = R(1, 0);
      for (int i = 0; i < 12; ++i) f[i + 1] = R(q[i][0], q[i][1]);
      f[12] = f[0];
      if (rev) std::reverse(f, f + 13);
      mv(f[0]);
      for (int i = 0; i < 4; ++i) cb(f[3 * i + 1], f[3 * i + 2], f[3 * i + 3]);
      break;
    }
    case F_STAR: {
      P o{(0.3 + 0.4 * r.unit()) * S, (0.3 + 0.4 * r.unit()) * S};
      int n = r.range(5, 16), step = r.range(1, 3);
      double rad = (0.1 + 0.4 * r.unit()) * S, ph = r.unit() * 6.283185307179586;
      std::vector<P> v;
      for (int i = 0; i < n; ++i) {
        double a = ph + 6.283185307179586 * ((i * step) % n) / n;
        double q = rad * (0.8 + 0.2 * r.unit());
        P p{o.x + q * std::cos(a), o.y + q * std::sin(a)};
        v.push_back(p);
      }
      if (r.below(2)) std::reverse(v.begin(), v.end());
      mv(v[0]);
      for (size_t i = 1; i < v.size(); ++i) ln(v[i]);
      break;
    }
    case F_LENS: {
      // contours of one or two elements: a curve closed by its chord, a lens, a
      // moon; upright ones have no extremum and stay at two edges
      P a = pt(), b = r.chance(0.5) ? pt() : P{a.x + (r.unit() - 0.5) * 0.3 * S, r.unit() * S}, d = b - a, q{-d.y, d.x};
      auto bend = [&](P a, P b, P d, P q) {
        double b1 = (r.unit() - 0.5) * 0.9, b2 = r.chance(0.7) ? b1 * (0.5 + r.unit()) : -b1 * (0.5 + r.unit());
        cb(a + d * (0.25 + 0.16 * r.unit()) + q * b1, a + d * (0.59 + 0.16 * r.unit()) + q * b2, b);
      };
      mv(a);
      switch (r.below(4)) {
        case 0: bend(a, b, d, q); break;
        case 1: bend(a, b, d, q); ln(a); break;
        case 2: ln(b); bend(b, a, d * -1.0, q * -1.0); break;
        default: bend(a, b, d, q); bend(b, a, d * -1.0, q * -1.0);
      }
      break;
    }
    case F_BENT: {
      // control points anywhere: S shapes, loops
      mv(pt());
      int n = r.range(1, 3);
      for (int i = 0; i < n; ++i) { P a = pt(), b = pt(); cb(a, b, i + 1 == n && r.below(2) ? c.e[0].to : pt()); }
      break;
    }
    case F_QUAD: {
      // quadratic curves and straight lines written as cubics
      std::vector<P> v;
      int n = r.range(2, 5);
      for (int i = 0; i < n; ++i) v.push_back(pt());
      bool dyadic = r.below(2);   // thirds that are exact
      if (dyadic) for (auto& q : v) q = {double(3 * r.below(64)) * S / 64, double(3 * r.below(64)) * S / 64};
      mv(v[0]);
      for (int i = 0; i < n; ++i) {
        P a = v[i], b = v[(i + 1) % n], d = b - a, q{-d.y, d.x};
        int k = n == 2 && i ? 0 : r.below(8);
        if (k == 6) { if (i + 1 < n || r.below(2)) ln(b); continue; }
        if (k == 7) { cb(a + d * (1.0 / 3), a + d * (2.0 / 3), b); continue; }
        P m = a + d * (0.3 + 0.4 * r.unit()) + q * ((r.unit() - 0.5) * 1.4);
        if (dyadic) m = {3 * std::floor(m.x / S * 64 / 3) * S / 64, 3 * std::floor(m.y / S * 64 / 3) * S / 64};
        cb({(a.x + 2 * m.x) / 3, (a.y + 2 * m.y) / 3}, {(b.x + 2 * m.x) / 3, (b.y + 2 * m.y) / 3}, b);
      }
      break;
    }
    case F_LONG: {
      // a contour of very many edges, or a bar that crosses very many
      P o{(0.4 + 0.2 * r.unit()) * S, (0.4 + 0.2 * r.unit()) * S};
      if (r.chance(0.4)) {
        double a = r.unit() * 6.283185307179586, w = (0.02 + 0.1 * r.unit()) * S, l = (0.3 + 0.2 * r.unit()) * S;
        P u{std::cos(a), std::sin(a)}, q{-u.y, u.x};
        mv(o + u * l + q * w); ln(o - u * l + q * w); ln(o - u * l - q * w); ln(o + u * l - q * w);
      } else {
        int n = r.range(20, 150);
        double ph = r.unit() * 6.283185307179586, lo = 0.1 + 0.2 * r.unit(), hi = lo + 0.05 + 0.15 * r.unit();
        std::vector<P> v;
        for (int i = 0; i < n; ++i) {
          double a = ph + 6.283185307179586 * i / n, q = ((i & 1 ? lo : hi) + 0.02 * r.unit()) * S;
          v.push_back({o.x + q * std::cos(a), o.y + q * std::sin(a)});
        }
        if (r.below(2)) std::reverse(v.begin(), v.end());
        mv(v[0]);
        for (size_t i = 1; i < v.size(); ++i) ln(v[i]);
      }
      break;
    }
    default: {  // F_GRID: integer coordinates
      auto gp = [&]() -> P { return {double(r.below(64)) * S / 64, double(r.below(64)) * S / 64}; };
      mv(gp());
      int n = r.range(2, 6);
      for (int i = 0; i < n; ++i) ln(gp());
      break;
    }
  }
  return c;
}

static void map_contour(Contour& c, double k, P off) {
  for (auto& e : c.e) {
    e.p1 = e.p1 * k + off;
    e.p2 = e.p2 * k + off;
    e.to = e.to * k + off;
  }
}

std::vector<Contour> make_scene(Rng& r, int family, int n, double* scale_out) {
  static const double scales[] = {1, 10, 100, 100, 100, 1000};
  double S = family == F_GRID ? 64 : scales[r.below(6)];
  if (scale_out) *scale_out = S;
  P off{0, 0};
  if (r.chance(0.3)) {
    static const double o[] = {-0.5, -1, 0.25, -0.25};
    off = {o[r.below(4)] * S, o[r.below(4)] * S};
  }
  std::vector<Contour> cs;
  int guard = 0, limit = 400;
  if (family == F_MANY) limit = 4 * n;
  if (family == F_LONG) limit = 12;
  while ((int)cs.size() < n && guard++ < limit) {
    int f = family;
    double k = 1;
    P at = off;
    if (f == F_BLEND) { static const int g[] = {F_POLY, F_CUBIC, F_MIX, F_RECT, F_RING, F_STAR, F_LENS, F_BENT, F_QUAD}; f = g[r.below(9)]; }
    if (f == F_BLEND_LINES) { static const int g[] = {F_POLY, F_RECT, F_STAR, F_RECT}; f = g[r.below(4)]; }
    if (f == F_MANY) {
      static const int g[] = {F_POLY, F_RECT, F_STAR, F_RECT};
      f = g[r.below(4)];
      k = 0.1 + 0.2 * r.unit();
      at = off + P{r.unit() * (1 - k) * S, r.unit() * (1 - k) * S};
    }
    Contour c = make_contour(r, f, S);
    if (k != 1 || at != P{0, 0}) map_contour(c, k, at);
    cs.push_back(c);
    if (!general_position(cs, S)) cs.pop_back();
  }
  if (cs.empty()) {  // always something: a triangle
    Contour c;
    c.e = {{'m', {}, {}, {0.1 * S, 0.1 * S}}, {'l', {}, {}, {0.9 * S, 0.2 * S}}, {'l', {}, {}, {0.4 * S, 0.8 * S}}};
    cs.push_back(c);
  }
  return cs;
}

}  // namespace ref
