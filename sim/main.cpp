#include "props.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <iterator>
#include <sstream>
#include <unordered_set>

// sim search  PROP first-seed count stride tier seconds outfile   -> JSON
// sim replay  FILE                                                  evaluates a plan
// sim gen     PROP seed tier                                        prints a plan
// sim hash    PROP first count tier                                 event-log hash per seed
// sim survey  PROP base first last tier                              verdict per seed
// sim digest                                                       plan on stdin

static std::string read_all(std::istream& in) { return std::string(std::istreambuf_iterator<char>(in), {}); }
static std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}

static uint64_t seed_of(uint64_t base, uint64_t i) { return base * 1000000ull + i; }

static int search(int argc, char** argv) {
  if (argc < 9) return 3;
  std::string prop = argv[2];
  uint64_t base = strtoull(argv[3], nullptr, 10), first = strtoull(argv[4], nullptr, 10), count = strtoull(argv[5], nullptr, 10), stride = strtoull(argv[6], nullptr, 10);
  bool thorough = !strcmp(argv[7], "thorough");
  double secs = atof(argv[8]);
  const char* out = argc > 9 ? argv[9] : nullptr;
  auto t0 = std::chrono::steady_clock::now();
  auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  uint64_t runs = 0, nontrivial = 0;
  std::unordered_set<uint64_t> sigs;
  std::map<std::string, uint64_t> count_all;
  std::ostringstream o;
  std::string sample;
  Plan badplan;
  Verdict badv;
  uint64_t badseed = 0;
  uint64_t chain = 0;
  for (uint64_t i = first; i < count; i += stride) {
    if (el() > secs) break;
    Plan p = generate(prop, seed_of(base, i), thorough);
    Verdict v = evaluate(p);
    ++runs;
    chain = ref::Rng::mix(chain ^ v.hash);
    for (auto& c : v.count) {
      if (c.first.find("(max)") != std::string::npos) count_all[c.first] = std::max(count_all[c.first], c.second);
      else count_all[c.first] += c.second;
    }
    if (v.bad) {
      // the same plan twice in this process
      Verdict w = evaluate(p);
      if (!w.bad || w.cls != v.cls || w.hash != v.hash) {
        fprintf(stderr, "sim: seed %llu is not reproducible (%s / %s)\n", (unsigned long long)p.seed, v.msg.c_str(), w.msg.c_str());
        return 3;
      }
      badplan = p;
      badv = v;
      badseed = p.seed;
      break;
    }
    if (v.nontrivial) { ++nontrivial; sigs.insert(v.sig); if (sample.empty()) sample = to_text(p); }
  }
  int evals = 0;
  Plan mini;
  Verdict mv;
  if (badv.bad) {
    mini = minimise(badplan, badv, 1500, 60, &evals);
    mv = evaluate(mini);
    if (!mv.bad) { mini = badplan; mv = badv; }
  }
  o << "{\"runs\":" << runs << ",\"execs\":" << g_execs << ",\"nontrivial\":" << nontrivial << ",\"distinct\":[";
  bool f = true;
  for (auto s : sigs) { o << (f ? "" : ",") << "\"" << std::hex << s << std::dec << "\""; f = false; }
  o << "],\"wall\":" << el() << ",\"chain\":\"" << std::hex << chain << std::dec << "\",\"steps\":" << g_total_stat[rt::S_STEPS]
    << ",\"allocs\":" << g_total_stat[rt::S_ALLOC] << ",\"switches\":" << g_total_stat[rt::S_SWITCH] << ",\"global_writes\":" << g_total_stat[rt::S_GLOBALWR]
    << ",\"locks\":" << g_total_stat[rt::S_LOCK] << ",\"clock_reads\":" << g_total_stat[rt::S_CLOCK] << ",\"rand_reads\":" << g_total_stat[rt::S_RAND]
    << ",\"counts\":{";
  f = true;
  for (auto& c : count_all) { o << (f ? "" : ",") << jstr(c.first) << ":" << c.second; f = false; }
  o << "},\"sample\":" << jstr(sample);
  if (badv.bad)
    o << ",\"violation\":{\"seed\":" << badseed << ",\"class\":" << jstr(mv.cls) << ",\"message\":" << jstr(mv.msg) << ",\"hash\":\"" << std::hex << mv.hash
      << std::dec << "\",\"ops\":" << count_ops(mini) << ",\"ops_before\":" << count_ops(badplan) << ",\"evaluations\":" << evals << ",\"plan\":" << jstr(to_text(mini)) << "}";
  o << "}\n";
  if (out) { std::ofstream w(out); w << o.str(); } else std::cout << o.str();
  return badv.bad ? 1 : 0;
}

int main(int argc, char** argv) {
  if (argc < 2) return 3;
  std::string cmd = argv[1];
  exec_init();
  if (cmd == "search") return search(argc, argv);
  if (cmd == "replay" && argc > 2) {
    std::ifstream in(argv[2]);
    Plan p;
    std::string err;
    if (!in || !from_text(read_all(in), p, &err)) { fprintf(stderr, "sim: cannot read plan: %s\n", err.c_str()); return 3; }
    Verdict v = evaluate(p);
    printf("%s class=%s hash=%llx %s\n", v.bad ? "FAIL" : "PASS", v.cls.c_str(), (unsigned long long)v.hash, v.msg.c_str());
    return v.bad ? 1 : 0;
  }
  if (cmd == "gen" && argc > 4) { std::cout << to_text(generate(argv[2], strtoull(argv[3], nullptr, 10), !strcmp(argv[4], "thorough"))); return 0; }
  if (cmd == "hash" && argc > 6) {
    uint64_t base = strtoull(argv[3], nullptr, 10), first = strtoull(argv[4], nullptr, 10), n = strtoull(argv[5], nullptr, 10);
    for (uint64_t i = first; i < n; ++i) {
      Plan p = generate(argv[2], seed_of(base, i), !strcmp(argv[6], "thorough"));
      Plan q;
      std::string err;
      if (!from_text(to_text(p), q, &err) || to_text(q) != to_text(p)) { fprintf(stderr, "sim: plan text does not round-trip: %s\n", err.c_str()); return 3; }
      Verdict v = evaluate(q);
      printf("%llu %016llx %d\n", (unsigned long long)p.seed, (unsigned long long)v.hash, v.bad);
    }
    return 0;
  }
  if (cmd == "survey" && argc > 6) {
    uint64_t base = strtoull(argv[3], nullptr, 10), first = strtoull(argv[4], nullptr, 10), n = strtoull(argv[5], nullptr, 10);
    for (uint64_t i = first; i < n; ++i) {
      Plan p = generate(argv[2], seed_of(base, i), !strcmp(argv[6], "thorough"));
      Verdict v = evaluate(p);
      printf("%llu %s %s\n", (unsigned long long)p.seed, v.bad ? v.cls.c_str() : "ok", v.bad ? v.msg.c_str() : "");
      fflush(stdout);
    }
    return 0;
  }
  if (cmd == "digest") {
    Plan p;
    std::string err;
    if (!from_text(read_all(std::cin), p, &err)) { fprintf(stderr, "sim: %s\n", err.c_str()); return 3; }
    std::cout << digest(p);
    return 0;
  }
  return 3;
}
