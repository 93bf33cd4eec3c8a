#include "plan.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>

const char* const op_names[K_COUNT] = {"new", "del", "add", "proc", "parse", "math", "path", "yield", "send", "recvadd", "hand", "take", "recheck", "feed", "pipe", "draw", "walk", "movep"};

static std::string dbl(double d) { char b[48]; snprintf(b, sizeof b, "%a", d); return b; }
static std::string esc(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c > 32 && c < 127 && c != '"' && c != '\\') r += (char)c;
    else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
  }
  return r + "\"";
}
static std::string unesc(const std::string& s) {
  std::string r;
  for (size_t i = 1; i + 1 < s.size(); ++i)
    if (s[i] == '\\' && i + 3 < s.size()) { r += (char)strtol(s.substr(i + 2, 2).c_str(), nullptr, 16); i += 3; }
    else r += s[i];
  return r;
}

static void put_ops(std::ostringstream& o, const std::vector<Op>& v, int depth) {
  for (auto& p : v) {
    o << "op " << depth << " " << op_names[p.k] << " slot=" << p.slot << " kind=" << p.kind << " stream=" << p.stream << " via=" << p.via
      << " op=" << p.op << " rule=" << p.rule << " fault=" << p.fault << " at=" << p.at << " chan=" << p.chan << " share=" << p.share
      << " into=" << p.into << " subat=" << p.subat << " flags=" << p.flags << " cond=" << p.cond << " text=" << esc(p.text) << "\n";
    put_ops(o, p.sub, depth + 1);
  }
}

std::string to_text(const Plan& p) {
  std::ostringstream o;
  o << "plan 1\nprop " << p.prop << "\nseed " << p.seed << "\nprofile " << p.profile << "\nrounds " << p.rounds << "\nscale " << dbl(p.scale)
    << "\ncurves " << p.curves << "\nx " << p.x0 << " " << p.x1 << "\n";
  o << "mem " << p.mem.place << " " << p.mem.fill << " " << p.mem.freefill << " " << p.mem.stackfill << " " << p.mem.seed << "\n";
  auto& s = p.sched;
  o << "sched " << s.strat << " " << s.seed << " " << s.mean << " " << s.depth << " " << s.length << " " << dbl(s.p_global) << " "
    << dbl(s.p_shared) << " " << dbl(s.p_yield) << " " << s.stall << "\n";
  for (auto& w : s.list) o << "switch " << w.task << " " << w.step << " " << w.to << " " << w.why << "\n";
  for (auto& f : p.faults) o << "allocfault " << f.task << " " << f.op << " " << f.k << " " << f.burst << " " << f.min_size << "\n";
  for (int n : p.net) o << "net " << n << "\n";
  for (auto& st : p.streams) {
    o << "stream\n";
    for (auto& e : st.e) {
      o << "e " << e.k;
      if (e.k == 'c') o << " " << dbl(e.p1.x) << " " << dbl(e.p1.y) << " " << dbl(e.p2.x) << " " << dbl(e.p2.y);
      o << " " << dbl(e.to.x) << " " << dbl(e.to.y) << "\n";
    }
  }
  for (auto& t : p.tasks) { o << "task\n"; put_ops(o, t, 0); }
  o << "end\n";
  return o.str();
}

bool from_text(const std::string& txt, Plan& p, std::string* err) {
  p = Plan();
  std::istringstream in(txt);
  std::string line;
  bool head = false;
  auto fail = [&](const char* m) { if (err) *err = std::string(m) + ": " + line; return false; };
  auto rd = [](std::istringstream& l) { std::string w; l >> w; return strtod(w.c_str(), nullptr); };
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line);
    std::string k;
    l >> k;
    if (k == "plan") head = true;
    else if (k == "prop") l >> p.prop;
    else if (k == "seed") l >> p.seed;
    else if (k == "profile") l >> p.profile;
    else if (k == "rounds") l >> p.rounds;
    else if (k == "scale") p.scale = rd(l);
    else if (k == "curves") l >> p.curves;
    else if (k == "x") l >> p.x0 >> p.x1;
    else if (k == "mem") l >> p.mem.place >> p.mem.fill >> p.mem.freefill >> p.mem.stackfill >> p.mem.seed;
    else if (k == "sched") {
      auto& s = p.sched;
      l >> s.strat >> s.seed >> s.mean >> s.depth >> s.length;
      s.p_global = rd(l); s.p_shared = rd(l); s.p_yield = rd(l);
      l >> s.stall;
    } else if (k == "switch") { rt::Switch w; l >> w.task >> w.step >> w.to >> w.why; p.sched.list.push_back(w); }
    else if (k == "allocfault") { rt::AllocFault f; l >> f.task >> f.op >> f.k >> f.burst >> f.min_size; p.faults.push_back(f); }
    else if (k == "net") { int n; l >> n; p.net.push_back(n); }
    else if (k == "stream") p.streams.push_back({});
    else if (k == "e") {
      if (p.streams.empty()) return fail("element without stream");
      ref::Elem e;
      l >> e.k;
      if (e.k == 'c') { e.p1.x = rd(l); e.p1.y = rd(l); e.p2.x = rd(l); e.p2.y = rd(l); }
      e.to.x = rd(l); e.to.y = rd(l);
      p.streams.back().e.push_back(e);
    } else if (k == "task") p.tasks.push_back({});
    else if (k == "op") {
      if (p.tasks.empty()) return fail("op without task");
      int depth; std::string name;
      l >> depth >> name;
      Op o;
      o.k = -1;
      for (int i = 0; i < K_COUNT; ++i) if (name == op_names[i]) o.k = i;
      if (o.k < 0) return fail("unknown op");
      std::string f;
      while (l >> f) {
        size_t q = f.find('=');
        if (q == std::string::npos) return fail("bad field");
        std::string n = f.substr(0, q), v = f.substr(q + 1);
        int i = atoi(v.c_str());
        if (n == "slot") o.slot = i; else if (n == "kind") o.kind = i; else if (n == "stream") o.stream = i; else if (n == "via") o.via = i;
        else if (n == "op") o.op = i; else if (n == "rule") o.rule = i; else if (n == "fault") o.fault = i; else if (n == "at") o.at = i;
        else if (n == "chan") o.chan = i; else if (n == "share") o.share = i; else if (n == "into") o.into = i; else if (n == "subat") o.subat = i;
        else if (n == "flags") o.flags = i; else if (n == "cond") o.cond = i; else if (n == "text") o.text = unesc(v); else return fail("unknown field");
      }
      std::vector<Op>* dst = &p.tasks.back();
      for (int d = 0; d < depth; ++d) { if (dst->empty()) return fail("bad nesting"); dst = &dst->back().sub; }
      dst->push_back(o);
    } else if (k == "end") return head;
    else return fail("unknown line");
  }
  return fail("no end");
}

void number_ops(const std::vector<Op>& v, std::vector<const Op*>& out) {
  for (auto& o : v) { out.push_back(&o); number_ops(o.sub, out); }
}

size_t count_ops(const Plan& p) {
  std::vector<const Op*> v;
  for (auto& t : p.tasks) number_ops(t, v);
  return v.size();
}

std::vector<ref::Contour> contours_of(const Stream& s, int kind) {
  std::vector<ref::Contour> r;
  ref::P last{0, 0};
  for (auto& e : s.e) {
    if (e.k == 'm' || r.empty()) {
      ref::Contour c;
      c.kind = kind;
      if (e.k != 'm') c.e.push_back({'m', {}, {}, last});   // drawing starts where the pen is
      r.push_back(c);
    }
    r.back().e.push_back(e);
    last = e.to;
  }
  return r;
}
