// Driver: search (batch), single run, replay.
#include "work.h"
#include <dlfcn.h>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <ctime>
#include <sstream>
#include <fstream>
#include <iostream>
#include <unistd.h>
#include <csignal>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <set>
#include <algorithm>

std::vector<Workload> &workloads() { static std::vector<Workload> w; return w; }
namespace sim {
void globals_init();
void run_workload() {
  for (auto &w : workloads()) if (spec->workload == w.name) { w.run(); return; }
  stop_run("skip: unknown workload");
}
}
static volatile sig_atomic_t stop_flag = 0;
static void on_term(int) { stop_flag = 1; }
static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

// a violation counts for property P if it is P's own, or if the operations P speaks about
// did not come to their end
static bool fatal_class(const std::string &c) {
  static const std::set<std::string> f = {"crash", "hang", "fatal", "deadlock", "steps", "collmismatch", "truncate", "badarg"};
  return f.count(c) != 0;
}
static bool counts(const std::string &prop, const Violation &v) {
  if (v.prop == prop) return true;
  if (prop == "C22") return true;                  // whatever holds in the default build holds in the marker-enabled one
  if (prop == "C11" || prop == "C24") return false;
  if (prop == "C13") return v.cls == "crash";
  return fatal_class(v.cls);
}
static std::string js(const std::string &s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if ((unsigned char)c < 32) r += ' ';
    else if ((unsigned char)c >= 127) r += '?';
    else r += c;
  }
  return r + "\"";
}
static std::string params_json(const Params &p) {
  std::string s = "{"; bool first = true;
  for (auto &x : p.m) { s += (first ? "" : ",") + js(x.first) + ":" + std::to_string(x.second); first = false; }
  return s + "}";
}
static RunSpec gen_spec(const std::string &prop, uint64_t seed, bool thorough) {
  RunSpec rs;
  rs.prop = prop; rs.seed = seed;
  Rng g(mix(seed * 31 + 7) ^ mix(std::hash<std::string>()(prop)));
  int tot = 0;
  for (auto &u : uses) if (prop == u.prop) tot += u.weight;
  if (!tot) { fprintf(stderr, "no workload for %s\n", prop.c_str()); exit(3); }
  int x = (int)g.range(0, tot - 1);
  for (auto &u : uses) if (prop == u.prop) { if (x < u.weight) { rs.workload = u.workload; break; } x -= u.weight; }
  std::string as = prop;                           // whose emphasis to draw parameters with
  if (prop == "C22" || prop == "C24") { std::vector<std::string> o; for (auto &u : uses) if (rs.workload == u.workload && u.prop != prop && std::string(u.prop) < "C21") o.push_back(u.prop); as = o[(size_t)g.range(0, (long)o.size() - 1)]; }
  for (auto &w : workloads()) if (rs.workload == w.name) w.gen(g, rs.p, as, thorough);
  static const std::set<std::string> par = {"dist", "weave", "hist", "collapse", "exo"};
  if (prop == "C24" || (par.count(rs.workload) && prop != "C11" && g.chance(7))) {
    rs.p.set("grp", g.chance(15) ? 1 : g.range(2, 4)); rs.p.set("grpseed", g.chance(25) ? 0 : g.range(1, 100000));
    rs.p.set("grpmode", g.range(0, 3)); rs.p.set("grpmsg", g.chance(70));
    rs.p.set("grpown", g.chance(40)); if (rs.p.get("grpown") && g.chance(30)) rs.p.set("grp", 0);
    if (rs.p.get("grpown") && g.chance(50)) rs.p.set("grpown", 2);
  }
  return rs;
}
static std::string first_viol(const std::string &prop, const Outcome &o, int *idx = nullptr) {
  for (size_t i = 0; i < o.viols.size(); i++) if (counts(prop, o.viols[i])) { if (idx) *idx = (int)i; return (o.viols[i].prop.empty() ? prop : o.viols[i].prop) + "/" + o.viols[i].cls; }
  return "";
}
static std::string outcome_json(const RunSpec &rs, const Outcome &o, bool decs) {
  std::ostringstream s;
  s << "{\"seed\":" << rs.seed << ",\"workload\":" << js(rs.workload) << ",\"params\":" << params_json(rs.p) << ",\"ended\":" << js(o.ended) << ",\"report\":" << js(o.report)
    << ",\"trace\":\"" << o.trace_hash << "\",\"result\":\"" << o.result_hash << "\",\"sim_ns\":" << o.sim_ns << ",\"steps\":" << o.steps;
  s << ",\"sig\":" << js(first_viol(rs.prop, o));
  s << ",\"viols\":[";
  for (size_t i = 0; i < o.viols.size(); i++) s << (i ? "," : "") << "{\"prop\":" << js(o.viols[i].prop) << ",\"cls\":" << js(o.viols[i].cls) << ",\"text\":" << js(o.viols[i].text) << ",\"counts\":" << (counts(rs.prop, o.viols[i]) ? "true" : "false") << "}";
  s << "]";
  if (decs) { s << ",\"decisions\":{"; for (size_t i = 0; i < o.decisions.size(); i++) s << (i ? "," : "") << js(o.decisions[i].first) << ":" << o.decisions[i].second; s << "}"; }
  s << ",\"counts\":{"; bool f = true; for (auto &c : o.counts) { s << (f ? "" : ",") << js(c.first) << ":" << c.second; f = false; } s << "}";
  s << "}";
  return s.str();
}

// extra check over several executions of the same workload, for C11
static Outcome run_c11(const RunSpec &rs) {
  RunSpec base = rs;
  base.replay = true;                // all decisions benign
  base.decisions.clear();
  for (const char *k : {"heapfill", "stkfill", "rgarb", "heapseed"}) base.p.set(k, 0);
  if (rs.p.get("base_garbage")) { base.p.set("heapfill", 3); base.p.set("heapseed", 777); base.p.set("stkfill", 3); base.p.set("rgarb", 3); }
  Outcome a = run_spec(base), b = run_spec(rs);
  auto cls = [](const Outcome &o) { std::string c = o.ended; for (auto &v : o.viols) if (fatal_class(v.cls)) c += "|" + v.cls; return c; };
  if (a.ended.compare(0, 4, "skip") == 0 && b.ended.compare(0, 4, "skip") == 0) return b;
  if (cls(a) != cls(b)) b.viols.push_back({"C11", "outcome", "the same input ends with '" + cls(b) + "' under this schedule and memory contents, with '" + cls(a) + "' under the benign ones" + (b.viols.empty() ? "" : ": " + b.viols[0].text)});
  else if (a.ended == "ok" && a.result_hash != b.result_hash) b.viols.push_back({"C11", "result", "the same input gives other meshes, IDs or values under this schedule and memory contents than under the benign ones"});
  b.counts["c11.pairs"]++;
  return b;
}
// the workload alone, with benign decisions, and among other processes, for C24
static Outcome run_c24(const RunSpec &rs) {
  RunSpec base = rs;
  base.replay = true;
  base.decisions.clear();
  base.p.set("grp", 0); base.p.set("grpown", 0);
  Outcome a = run_spec(base), b;
  bool bad = a.ended != "ok";
  for (auto &v : a.viols) bad |= fatal_class(v.cls);
  if (bad) { a.viols.clear(); a.ended = "skip: not as required when alone"; return a; }
  b = run_spec(rs);
  for (auto &v : b.viols) if (fatal_class(v.cls) || v.cls == "leftover") { b.viols.push_back({"C24", "outcome", "which ends well when its processes are alone does not among others: " + v.text}); b.counts["c24.pairs"]++; return b; }
  if (b.ended == "ok" && a.result_hash != b.result_hash) b.viols.push_back({"C24", "result", "the result differs from that when the processes are alone" + (b.viols.empty() ? std::string() : ": " + b.viols[0].text)});
  else if (b.ended != "ok") b.viols.push_back({"C24", "outcome", "ends with '" + b.ended + "' among others, with 'ok' alone"});
  b.counts["c24.pairs"]++;
  return b;
}
static Outcome execute(const RunSpec &rs) { return rs.prop == "C11" ? run_c11(rs) : rs.prop == "C24" ? run_c24(rs) : run_spec(rs); }

static bool read_spec(const char *file, RunSpec &rs) {
  // lines: key value ; param k v ; dec k v
  std::ifstream f(file);
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream s(line);
    std::string k; s >> k;
    if (k == "prop") s >> rs.prop;
    else if (k == "workload") s >> rs.workload;
    else if (k == "seed") s >> rs.seed;
    else if (k == "mode") { std::string m; s >> m; rs.replay = m == "replay"; }
    else if (k == "param") { std::string n; long v; s >> n >> v; rs.p.set(n, v); }
    else if (k == "dec") { std::string n; int64_t v; s >> n >> v; rs.decisions[n] = v; }
    else if (k == "end") return true;
  }
  return !rs.workload.empty();
}

int main(int argc, char **argv) {
  // fixed addresses everywhere, so that a seed means the same run in every process
  int pers = personality(0xffffffff);
  if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOREEXEC")) {
    if (personality(pers | ADDR_NO_RANDOMIZE) >= 0) { setenv("SIM_NOREEXEC", "1", 1); execv("/proc/self/exe", argv); }
  }
  std::string cmd = argc > 1 ? argv[1] : "";
  auto arg = [&](const char *n, const char *d) -> std::string { for (int i = 2; i + 1 < argc; i++) if (!strcmp(argv[i], n)) return argv[i + 1]; return d; };
  auto flag = [&](const char *n) { for (int i = 2; i < argc; i++) if (!strcmp(argv[i], n)) return true; return false; };
  heap_init();
  globals_init();
  extern void io_init();
  io_init();
  if (auto f = (int (*)())dlsym(RTLD_DEFAULT, "nc_initialize")) f();   // once, not in every run
  if (cmd == "list") { for (auto &u : uses) printf("%s %s %d\n", u.prop, u.workload, u.weight); return 0; }
  if (cmd == "run") {                // one run from a spec file, or from a seed
    RunSpec rs;
    if (arg("--file", "") != "") { if (!read_spec(arg("--file", "").c_str(), rs)) return 3; }
    else {
      rs = gen_spec(arg("--prop", "C01"), strtoull(arg("--seed", "1").c_str(), 0, 10), flag("--thorough"));
      if (arg("--workload", "") != "") { rs.workload = arg("--workload", ""); }
    }
    for (int i = 2; i + 1 < argc; i++) if (!strcmp(argv[i], "--set")) { std::string a = argv[i + 1]; size_t e = a.find('='); rs.p.set(a.substr(0, e), atol(a.c_str() + e + 1)); }
    rs.verbose = flag("-v");
    Outcome o = execute(rs);
    if (rs.verbose) { std::string l = o.log; size_t i; while ((i = l.find("\\n")) != std::string::npos) l.replace(i, 2, "\n"); fputs(l.c_str(), stderr); }
    printf("%s\n", outcome_json(rs, o, !flag("--nodec")).c_str());
    return 0;
  }
  if (cmd == "serve") {              // specs on stdin (terminated by "end"), outcomes on stdout
    for (;;) {
      RunSpec rs; std::string line; bool got = false;
      while (std::getline(std::cin, line)) {
        std::istringstream s(line);
        std::string k; s >> k; got = true;
        if (k == "prop") s >> rs.prop; else if (k == "workload") s >> rs.workload; else if (k == "seed") s >> rs.seed;
        else if (k == "mode") { std::string m; s >> m; rs.replay = m == "replay"; }
        else if (k == "param") { std::string n; long v; s >> n >> v; rs.p.set(n, v); }
        else if (k == "dec") { std::string n; int64_t v; s >> n >> v; rs.decisions[n] = v; }
        else if (k == "end") break;
      }
      if (!got) return 0;
      Outcome o = execute(rs);
      printf("%s\n", outcome_json(rs, o, true).c_str());
      fflush(stdout);
    }
  }
  if (cmd == "batch") {
    std::string prop = arg("--prop", "C01");
    uint64_t seed0 = strtoull(arg("--seed", "1").c_str(), 0, 10);
    long w = atol(arg("--worker", "0").c_str()), nw = atol(arg("--nworkers", "1").c_str());
    double secs = atof(arg("--seconds", "10").c_str());
    long maxruns = atol(arg("--runs", "1000000000").c_str());
    bool th = flag("--thorough");
    int maxfail = atoi(arg("--maxfail", "5").c_str());
    double t0 = wall();
    std::map<std::string, long> cnt; std::map<std::string, long> ended, wl, other;
    std::set<uint64_t> traces, results; std::set<std::string> probes;
    long runs = 0, nontriv = 0, steps = 0, samples = 0; int64_t simns = 0;
    std::map<std::string, int> sigs;
    signal(SIGTERM, on_term);
    for (long i = w; i < maxruns; i += nw) {
      if (stop_flag || wall() - t0 > secs) break;
      RunSpec rs = gen_spec(prop, mix(seed0 * 1000003ULL + (uint64_t)i) >> 8, th);
      Outcome o = execute(rs);
      if (stop_flag) break;
      if (flag("--hashes")) printf("HASH %llu %llu %llu %s %zu\n", (unsigned long long)rs.seed, (unsigned long long)o.trace_hash, (unsigned long long)o.result_hash, o.ended.c_str(), o.decisions.size());
      runs++;
      wl[rs.workload]++;
      ended[o.ended.substr(0, 40)]++;
      for (auto &c : o.counts) cnt[c.first] += c.second;
      simns += o.sim_ns; steps += o.steps;
      for (auto &p : o.probes) if (probes.size() < 20000) probes.insert(p);
      if (o.ended.compare(0, 4, "skip") != 0) {
        if (traces.size() < 3000000 && traces.insert(o.trace_hash ^ mix(o.result_hash)).second) nontriv++;
        results.insert(o.result_hash);
      }
      std::string sig = first_viol(prop, o);
      for (auto &v : o.viols) if (!counts(prop, v)) other[v.prop + "/" + v.cls]++;
      if (samples < 3 && o.ended == "ok") { samples++; printf("SAMPLE %s\n", outcome_json(rs, o, false).c_str()); }
      if (!sig.empty()) {
        if (sigs[sig]++ < maxfail) printf("FAIL %s\n", outcome_json(rs, o, true).c_str());
        fflush(stdout);
      }
    }
    std::ostringstream s;
    s << "{\"runs\":" << runs << ",\"distinct\":" << nontriv << ",\"results\":" << results.size() << ",\"steps\":" << steps << ",\"sim_ns\":" << simns << ",\"wall\":" << wall() - t0;
    auto put = [&](const char *n, const std::map<std::string, long> &m) { s << ",\"" << n << "\":{"; bool f = true; for (auto &x : m) { s << (f ? "" : ",") << js(x.first) << ":" << x.second; f = false; } s << "}"; };
    put("counts", cnt); put("ended", ended); put("workloads", wl); put("other", other);
    s << ",\"probes\":["; bool f = true; for (auto &p : probes) { s << (f ? "" : ",") << js(p); f = false; } s << "]";
    s << ",\"sigs\":{"; f = true; for (auto &p : sigs) { s << (f ? "" : ",") << js(p.first) << ":" << p.second; f = false; } s << "}}";
    printf("DONE %s\n", s.str().c_str());
    return 0;
  }
  fprintf(stderr, "usage: mstksim run|batch|serve|list ...\n");
  return 2;
}
