// C13: develop build.  What the viewer is sent, whatever becomes of it.
#include <QByteArray>
#include <QDataStream>
#include <QIODevice>
#include <QLineF>
#include <QPen>
#include <unistd.h>
#include "curl_stub.h"

namespace {

struct Shown { bool cubic; ref::P a, b, c, d; QPen pen; };

Shown decode(const Post& q, const std::string& at) {
  Shown s{};
  QByteArray body(q.body.data(), (qsizetype)q.body.size());
  QDataStream in(&body, QIODevice::ReadOnly);
  auto P = [](const QPointF& p) { return ref::P{p.x(), p.y()}; };
  if (q.url == 1) { QLineF l; in >> l; s.a = P(l.p1()); s.d = P(l.p2()); }
  else if (q.url == 2) { QPointF p[4]; in >> p[0] >> p[1] >> p[2] >> p[3]; s.cubic = true; s.a = P(p[0]); s.b = P(p[1]); s.c = P(p[2]); s.d = P(p[3]); }
  else bad("viewer", "transfer to an unknown address in " + at);
  in >> s.pen;
  if (in.status() != QDataStream::Ok || !in.atEnd()) bad("viewer", "the viewer cannot decode a transfer of " + at);
  return s;
}

bool near_p(ref::P a, ref::P b, double tol) { return std::fabs(a.x - b.x) <= tol && std::fabs(a.y - b.y) <= tol; }

struct Feed {
  const std::vector<const Post*>& q;
  size_t i = 0;
  std::string at;
  double tol;
  bool lost(size_t k) const { return q[k]->outcome == N_NOHANDLE || q[k]->outcome == N_NOMIME; }   // body not observable
};

// the pieces shown for one input segment
void take_segment(Feed& f, const Seg& s, const QColor& col) {
  if (f.i >= f.q.size()) bad("viewer", "a segment was not shown in " + f.at);
  int n = 0;
  ref::P cur = s.a;
  for (;;) {
    if (f.i >= f.q.size()) bad("viewer", "a segment was shown only in part in " + f.at);
    Shown x = decode(*f.q[f.i], f.at);
    if (x.pen.color() != col) bad("viewer", "a segment was shown in the wrong colour in " + f.at);
    if (x.cubic != s.cubic) bad("viewer", "a segment was shown as another kind in " + f.at);
    if (!near_p(x.a, cur, 0)) bad("viewer", "a segment was shown at another place in " + f.at);
    ++f.i;
    ++n;
    if (!s.cubic) { if (!near_p(x.d, s.d, 0)) bad("viewer", "a line was shown with another end in " + f.at); return; }
    // a piece of the curve: its middle lies on it
    ref::P m = (x.a + x.b * 3 + x.c * 3 + x.d) * 0.125;
    double best = 1e300;
    for (int k = 0; k <= 400; ++k) {
      double t = k / 400.0, u = 1 - t;
      ref::P z = s.a * (u * u * u) + s.b * (3 * u * u * t) + s.c * (3 * u * t * t) + s.d * (t * t * t);
      best = std::min(best, std::hypot(z.x - m.x, z.y - m.y));
    }
    if (best > f.tol) bad("viewer", "a curve was shown in another shape in " + f.at);
    if (near_p(x.d, s.d, 0)) return;
    if (n >= 3) bad("viewer", "a curve was shown with another end in " + f.at);
    cur = x.d;
  }
}

// what there is to show of a contour: lines of no length are not drawn, a level cubic is a line
std::vector<Seg> shown_segs(const Contour& c) {
  std::vector<Seg> r;
  for (auto s : segs_of(c)) {
    if (s.cubic && s.a.y == s.b.y && s.b.y == s.c.y && s.c.y == s.d.y) s.cubic = false;
    if (!s.cubic && s.a == s.d) continue;
    r.push_back(s);
  }
  return r;
}

// Qt creates some of its statics on first use: do that once, before any run
void warm_up() {
  static bool done = false;
  if (done) return;
  done = true;
  for (int k = 0; k < 2; ++k) {
    QByteArray buf;
    QDataStream out(&buf, QIODeviceBase::WriteOnly);
    QPen a, b;
    b.setColor(Qt::blue);
    out << QLineF(QPointF(1, 2), QPointF(3, 4)) << a << QPointF(1, 2) << b << QPen(Qt::red);
    Post q{1, std::string(buf.data(), (size_t)buf.size()), 0, 0, 0};
    QByteArray body(q.body.data(), (qsizetype)q.body.size());
    QDataStream in(&body, QIODevice::ReadOnly);
    QLineF l;
    QPointF pt;
    in >> l >> a >> pt >> b;
  }
}

void prop_c13(const Plan& p, Verdict& v) {
  warm_up();
  RunRes R = main_run(v, p);
  check_status(p, R);
  for (auto& q : R.posts) v.count[std::string("transfers: ") + net_names[q.outcome >= 0 && q.outcome < N_COUNT ? q.outcome : 0]]++;
  // the same plan in the shipped configuration
  const char* normal = getenv("SIM_NORMAL");
  if (!normal) { fprintf(stderr, "sim: SIM_NORMAL is not set\n"); exit(3); }
  Plan q = p;
  q.net.clear();
  q.sched = rt::Sched();
  q.sched.strat = rt::ST_EXPLICIT;
  char name[] = "/tmp/simdevXXXXXX";
  int fd = mkstemp(name);
  if (fd < 0) { perror("mkstemp"); exit(3); }
  std::string txt = to_text(q), got;
  if (write(fd, txt.data(), txt.size()) != (ssize_t)txt.size()) exit(3);
  close(fd);
  FILE* f = popen((std::string(normal) + " digest < " + name).c_str(), "r");
  if (!f) { perror("popen"); exit(3); }
  char buf[4096];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0) got.append(buf, n);
  int rc = pclose(f);
  unlink(name);
  if (rc != 0) { fprintf(stderr, "sim: digest of the normal build failed\n"); exit(3); }
  std::string mine = digest_of(R);
  if (got != mine) bad("differs", "the develop build gives other results than the normal build");
  v.hash = Rng::mix(v.hash ^ std::hash<std::string>()(got));
  // what was shown
  double tol = 0.02 * p.scale;
  size_t shown = 0;
  for (size_t t = 0; t < p.tasks.size(); ++t) {
    auto num = numbered(p, (int)t);
    for (size_t o = 0; o < num.size(); ++o) {
      const Op& op = *num[o];
      std::vector<const Post*> mine;
      for (auto& x : R.posts) if (x.task == (int)t && x.op == (int)o) mine.push_back(&x);
      Feed fd{mine, 0, where(p, (int)t, (int)o), tol};
      const OpRes& r = R.ops[t][o];
      shown += mine.size();
      if (op.k == K_ADD && (r.status == R_FINE || r.status == R_USER)) {
        auto e = delivered(p, op);
        if (op.via == V_READER && op.fault && op.at < (int)e.size()) e.resize(op.at);
        auto cs = contours_of({e}, op.kind);
        if (r.status == R_USER && !cs.empty()) cs.pop_back();
        QPen pen;
        if (op.kind) pen.setColor(Qt::blue);
        bool blind = false;    // bodies of refused transfers cannot be seen
        for (size_t i = 0; i < mine.size(); ++i) blind = blind || fd.lost(i);
        if (blind) {
          size_t lo = 0, hi = 0;
          bool odd = op.flags != 0;
          for (auto& c : cs) {
            auto sg = shown_segs(c);
            odd = odd || sg.size() < 2;
            for (auto& s : sg) { ++lo; hi += s.cubic ? 3 : 1; }
          }
          if (!odd && (mine.size() < lo || mine.size() > hi)) bad("viewer", "a wrong number of segments was shown in " + fd.at);
          for (size_t i = 0; i < mine.size(); ++i)
            if (!fd.lost(i) && decode(*mine[i], fd.at).pen.color() != pen.color()) bad("viewer", "a segment was shown in the wrong colour in " + fd.at);
          cs.clear();
          fd.i = mine.size();
        }
        for (auto& c : cs) {
          auto sg = shown_segs(c);
          if (sg.size() < 2 || op.flags) { fd.i = mine.size(); break; }
          for (auto& s : sg) take_segment(fd, s, pen.color());
        }
        if (fd.i < mine.size()) bad("viewer", "more was shown than was added in " + fd.at);
      } else if (op.k == K_PROC && (r.status == R_FINE || r.status == R_USER)) {
        ref::P cur{};
        for (auto& x : r.out) {
          if (x.k != 'm') {
            if (fd.i >= mine.size()) bad("viewer", "a segment of the result was not shown in " + fd.at);
            if (!fd.lost(fd.i)) {
              Shown s = decode(*mine[fd.i], fd.at);
              if (s.pen.color() != QColor(Qt::red)) bad("viewer", "a result was shown in the wrong colour in " + fd.at);
              if (s.cubic != (x.k == 'c') || !near_p(s.a, cur, 0) || !near_p(s.d, x.to, 0) ||
                  (s.cubic && (!near_p(s.b, x.p1, 0) || !near_p(s.c, x.p2, 0))))
                bad("viewer", "the result shown is not the result delivered in " + fd.at);
            }
            ++fd.i;
          }
          cur = x.to;
        }
        if (r.status == R_FINE && fd.i < mine.size()) bad("viewer", "more was shown than was delivered in " + fd.at);
      } else if (!mine.empty()) bad("viewer", "something was shown by " + fd.at);
    }
  }
  if (R.handles > 2 || R.parts > 2) bad("viewer", "transfer handles or bodies are not released");
  v.nontrivial = shown > 0;
}
}  // namespace
