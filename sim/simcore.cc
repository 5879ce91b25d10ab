#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <queue>
#include <set>
#include <unordered_set>
#include <sstream>
#include <unistd.h>
#include <fcntl.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <cerrno>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>

namespace sim {

const char *kind_name[K_NKINDS] = {"", "lat", "rdv", "xfer", "yield", "collearly", "collskew", "start", "io", "iolen", "crash", "preempt"};
RunSpec *spec = nullptr;
static Outcome *out = nullptr;
Outcome &outcome() { return *out; }

uint64_t mix(uint64_t x) {
  x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL;
  x ^= x >> 27; x *= 0x94d049bb133111ebULL;
  x ^= x >> 31; return x;
}

// ---------------------------------------------------------------- decisions
static std::map<uint64_t, unsigned> dcount;
int64_t decide(Kind k, unsigned a, unsigned b, const std::function<int64_t(uint64_t)> &f) {
  uint64_t base = ((uint64_t)k << 40) | ((uint64_t)(a & 0xfffff) << 20) | (b & 0xfffff);
  unsigned n = dcount[base]++;
  char key[64];
  if (spec->replay) {
    snprintf(key, sizeof key, "%s/%u/%u/%u", kind_name[k], a, b, n);
    auto it = spec->decisions.find(key);
    return it == spec->decisions.end() ? 0 : it->second;
  }
  uint64_t rnd = mix(mix(spec->seed * 0x9e3779b97f4a7c15ULL + base) + n * 0xd1342543de82ef95ULL);
  int64_t v = f(rnd);
  if (v) {
    snprintf(key, sizeof key, "%s/%u/%u/%u", kind_name[k], a, b, n);
    if (out->decisions.size() < 200000) out->decisions.emplace_back(key, v);
  }
  return v;
}

// ---------------------------------------------------------------- outcome
static char *shm = nullptr;
static const size_t SHM = 48u << 20;
static volatile bool result_written = false;

static std::string esc(const std::string &s) {
  std::string r;
  for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\t') r += ' '; else r += c; }
  return r;
}
static void write_result() {
  if (result_written) return;
  result_written = true;
  std::ostringstream o;
  o << "ended\t" << esc(out->ended) << "\n";
  o << "report\t" << esc(out->report) << "\n";
  o << "trace\t" << out->trace_hash << "\nresult\t" << out->result_hash << "\n";
  o << "simns\t" << out->sim_ns << "\nsteps\t" << out->steps << "\n";
  for (auto &v : out->viols) o << "viol\t" << v.prop << "\t" << v.cls << "\t" << esc(v.text) << "\n";
  for (auto &c : out->counts) o << "count\t" << c.first << "\t" << c.second << "\n";
  for (auto &c : out->probes) o << "probe\t" << esc(c) << "\n";
  for (auto &d : out->decisions) o << "dec\t" << d.first << "\t" << d.second << "\n";
  if (spec->verbose) o << "log\t" << esc(out->log) << "\n";
  std::string s = o.str();
  if (s.size() > SHM - 16) { s.resize(SHM - 16); }
  uint64_t n = s.size();
  memcpy(shm + 8, s.data(), n);
  memcpy(shm, &n, 8);
}

void stop_run(const char *why) {
  out->ended = why;
  write_result();
  _exit(0);
}
static int cur = -1;
static std::vector<std::string> wherev;
static std::string base_where = "setup";
const char *where() { return cur >= 0 && cur < (int)wherev.size() ? wherev[cur].c_str() : base_where.c_str(); }
void set_where(const char *s) { if (cur >= 0) wherev[cur] = s; else base_where = s; }

static void vviolate(const char *prop, const char *cls, const char *fmt, va_list ap) {
  char buf[2048];
  vsnprintf(buf, sizeof buf, fmt, ap);
  int same = 0;
  for (auto &v : out->viols) if (v.prop == prop && v.cls == cls) same++;
  if (same >= 3) return;
  std::ostringstream o;
  o << "[" << where() << "] ";
  if (cur >= 0) o << "rank " << cur << ": ";
  o << buf;
  out->viols.push_back({prop, cls, o.str()});
}
void violate(const char *prop, const char *cls, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); vviolate(prop, cls, fmt, ap); va_end(ap);
}
void die(const char *prop, const char *cls, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); vviolate(prop, cls, fmt, ap); va_end(ap);
  stop_run(cls);
}
void count(const char *name, long n) { out->counts[name] += n; }
static std::set<std::string> probeset;
void probe(const std::string &n) { if (probeset.size() < 400) if (probeset.insert(n).second) out->probes.push_back(n); }
void mix_result(uint64_t v) { out->result_hash = mix(out->result_hash * 0x100000001b3ULL + v + 0x9e37); }
void note(const char *fmt, ...) {
  if (!spec->verbose) return;
  char buf[4096];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (out->log.size() < (8u << 20)) { if (cur >= 0) out->log += "r" + std::to_string(cur) + " "; out->log += buf; out->log += "\n"; }
}

// ---------------------------------------------------------------- per-rank globals
struct Region { char *p; size_t n; };
static std::vector<Region> regions;
static std::vector<char> pristine;
static size_t regtotal = 0;
static int phdr_cb(struct dl_phdr_info *i, size_t, void *) {
  const char *nm = i->dlpi_name ? i->dlpi_name : "";
  if (!strstr(nm, "libmstksim") && !strstr(nm, "libtrilinos_zoltan")) return 0;
  uintptr_t rs = 0, re = 0;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto &h = i->dlpi_phdr[k];
    if (h.p_type == PT_GNU_RELRO) { rs = i->dlpi_addr + h.p_vaddr; re = rs + h.p_memsz; }
  }
  re = (re + 4095) & ~(uintptr_t)4095;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto &h = i->dlpi_phdr[k];
    if (h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue;
    uintptr_t s = i->dlpi_addr + h.p_vaddr, e = s + h.p_memsz;
    if (rs && s < re && re > s) { if (e <= re) continue; if (s < re) s = re; }
    regions.push_back({(char *)s, e - s});
  }
  return 0;
}
// .got.plt may sit in the swapped part (lazy binding): harmless, all copies are valid
void globals_init() {
  dl_iterate_phdr(phdr_cb, nullptr);
  for (auto &r : regions) regtotal += r.n;
  pristine.resize(regtotal);
  size_t o = 0;
  for (auto &r : regions) { memcpy(&pristine[o], r.p, r.n); o += r.n; }
}
static void globals_save(std::vector<char> &d) { size_t o = 0; for (auto &r : regions) { memcpy(&d[o], r.p, r.n); o += r.n; } }
static void globals_load(const std::vector<char> &d) { size_t o = 0; for (auto &r : regions) { memcpy(r.p, &d[o], r.n); o += r.n; } }

// ---------------------------------------------------------------- fibers
extern "C" void sim_switch(void **save, void *to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

static const size_t STK = 2u << 20;
static char *const STKBASE = (char *)0x310000000000ULL;
enum St { RUN, READY, BLOCKED, ATSYNC, DONE };
struct Fiber {
  bool aside = false;
  void *sp = nullptr;
  St st = READY;
  bool queued = false;
  std::string why;
  std::vector<char> glob;
  char *stack = nullptr;
};
static std::vector<Fiber> fib;
static void *sched_sp = nullptr;
static const std::function<void(int)> *fbody = nullptr;
static const std::function<void()> *sync_once = nullptr;

struct Ev {
  int64_t at; uint64_t seq; int rank; std::function<void()> fn; uint64_t tag;
};
struct EvCmp { bool operator()(const Ev *a, const Ev *b) const { return a->at != b->at ? a->at > b->at : a->seq > b->seq; } };
static std::priority_queue<Ev *, std::vector<Ev *>, EvCmp> evq;
static int64_t clockns = 0;
static uint64_t evseq = 0;
static long maxsteps = 3000000;

static int nmain;
static std::vector<int> locv;                      // rank in the workload's group, or -1 - rank in the other
int nranks() { return nmain; }
int world_size() { return (int)fib.size(); }
int lrank() { return cur < 0 ? -1 : locv[cur]; }
bool groups_on() { return nmain < (int)fib.size(); }
bool aside() { return cur >= 0 && (locv[cur] < 0 || fib[cur].aside); }
bool in_main_group() { return cur < 0 || locv[cur] >= 0; }
void (*group_other)(int, int, int) = nullptr;
void (*group_around)(bool) = nullptr;
int rank() { return cur; }
int64_t now_ns() { return clockns; }
void post_event(int64_t at, const std::function<void()> &fn, uint64_t tag) {
  evq.push(new Ev{at < clockns ? clockns : at, evseq++, -1, fn, tag});
}
void wake(int r, int64_t delay) {
  if (fib[r].queued || fib[r].st == DONE || fib[r].st == ATSYNC) return;
  fib[r].queued = true;
  evq.push(new Ev{clockns + delay, evseq++, r, nullptr, 0});
}
bool is_blocked(int r) { return fib[r].st == BLOCKED; }
std::string blocked_reason(int r) { return fib[r].why; }

uint64_t stack_fill_pattern() {
  switch (P("stkfill", 0) % 4) {
    case 0: return 0;
    case 1: return 0xffffffffffffffffULL;
    case 2: return 0x0000000100000001ULL;
    default: return mix(P("stkfill") * 77 + 5);
  }
}
static __attribute__((noinline)) void fill_stack_below(size_t bytes) {
  char mark;
  uintptr_t sp = (uintptr_t)&mark - 4096;
  uintptr_t lo = (uintptr_t)fib[cur].stack + 65536;
  uintptr_t s = sp - bytes < lo ? lo : sp - bytes;
  s &= ~(uintptr_t)7;
  uint64_t pat = stack_fill_pattern();
  for (uintptr_t a = s; a + 8 < sp; a += 8) *(volatile uint64_t *)a = pat;
}
static void to_sched() {
  int me = cur;
  sim_switch(&fib[me].sp, sched_sp);
}
void block_current(const char *why) {
  fib[cur].st = BLOCKED;
  fib[cur].why = why;
  to_sched();
}
void yield_point() {
  wake(cur, 0);
  fib[cur].st = READY;
  to_sched();
}
// entry of every MPI call: computing may have taken long, other ranks go on
void mpi_call_entry(const char *) {
  int64_t y = decide(K_YIELD, cur, 0, [](uint64_t r) -> int64_t {
    int p = (int)P("yield_p", 0);
    if (cur == P("slow_rank", -1)) { p = (int)P("slow_p", 60); }
    if ((int)(r % 100) >= p) return 0;
    int64_t s = 1 + (int64_t)((r >> 16) % (uint64_t)P("yield_us", 10));
    if (cur == P("slow_rank", -1)) s *= 1 + P("slow_factor", 20);
    return s; });
  if (!y) return;
  count(y > 200 ? "fault.stall" : "fault.slow_step");
  wake(cur, y * 1000);
  fib[cur].st = READY;
  to_sched();
}

static std::vector<std::vector<int>> asidev;       // groups the workload's processes form for work of another kind; empty: as usual
static void own_job() {                            // a mesh of another kind handled in between
  std::string w = wherev[cur];
  fib[cur].aside = true;
  if (asidev.empty()) group_other(lrank(), nmain, 1);
  else for (size_t i = 0; i < asidev.size(); i++) for (size_t k = 0; k < asidev[i].size(); k++) if (asidev[i][k] == cur) group_other((int)k, (int)asidev[i].size(), 2 + (int)i);
  fib[cur].aside = false;
  wherev[cur] = w;
}
static void finish_fiber() {
  heap_check_all("end of rank");
  fib[cur].st = DONE;
  to_sched();
  abort();
}
extern "C" void sim_fiber_entry() {
  fill_stack_below(160 << 10);
  if (!groups_on()) { if (P("grpown") == 2 && !threads_on) own_job(); (*fbody)(cur); }
  else {
    group_around(false);
    if (locv[cur] >= 0) { if (P("grpown") == 2) own_job(); (*fbody)(locv[cur]); }
    else group_other(-1 - locv[cur], (int)fib.size() - nmain, 0);
    group_around(true);
    while (locv[cur] < 0) {                        // idle; another job after a harness barrier
      fib[cur].st = ATSYNC;
      to_sched();
      if (locv[cur] < 0) group_other(-1 - locv[cur], (int)fib.size() - nmain, 0);
    }
  }
  finish_fiber();
}
static void start_fiber(int r) {
  Fiber &f = fib[r];
  f.stack = STKBASE + (size_t)r * (STK + 65536);
  void *m = mmap(f.stack, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) { perror("mmap"); _exit(70); }
  mprotect(f.stack, 4096, PROT_NONE);
  void **sp = (void **)(f.stack + STK - 64);
  *--sp = nullptr;                      // alignment / fake return
  *--sp = (void *)sim_fiber_entry;      // ret target
  for (int i = 0; i < 6; i++) *--sp = nullptr;
  f.sp = sp;
  f.glob = pristine;
  f.st = READY;
}
bool threads_on = false;
static void enter(int r) {
  cur = r;
  fib[r].st = RUN;
  fib[r].queued = false;
  if (!threads_on) globals_load(fib[r].glob);      // threads share the globals, ranks do not
  sim_switch(&sched_sp, fib[r].sp);
  if (!threads_on) globals_save(fib[r].glob);
  cur = -1;
}
static std::string state_dump() {
  std::ostringstream o;
  for (int r = 0; r < (int)fib.size(); r++) {
    o << " rank " << r << " ";
    switch (fib[r].st) {
      case DONE: o << "finished"; break;
      case ATSYNC: o << "returned"; break;
      case BLOCKED: o << "in " << wherev[r] << " waits in " << fib[r].why; break;
      default: o << "runnable";
    }
    o << ";";
  }
  return o.str();
}
void run_ranks(int n, const std::function<void(int)> &body) {
  int extra = threads_on ? 0 : (int)P("grp", 0);
  nmain = n;
  int total = n + extra, rounds = 0;
  fib.clear();
  fib.resize(total);
  wherev.assign(total, base_where);
  mpi_reset(total);
  std::vector<int> perm(total);
  for (int i = 0; i < total; i++) perm[i] = i;
  if (extra && P("grpseed")) { Rng g((uint64_t)P("grpseed") * 17 + 3); for (int i = total - 1; i > 0; i--) std::swap(perm[i], perm[g.range(0, i)]); }
  locv.assign(total, 0);
  for (int i = 0; i < total; i++) locv[perm[i]] = i < n ? i : -1 - (i - n);
  if (extra) mpi_groups(std::vector<int>(perm.begin(), perm.begin() + n), std::vector<int>(perm.begin() + n, perm.end()));
  asidev.clear();
  if (!threads_on && P("grpown") == 2) {
    Rng g((uint64_t)P("grpseed") * 31 + 5);
    std::vector<int> a(perm.begin(), perm.begin() + n);
    for (int i = n - 1; i > 0; i--) std::swap(a[i], a[g.range(0, i)]);
    int cut = n > 3 && g.chance(40) ? (int)g.range(2, n - 2) : n;
    asidev.push_back(std::vector<int>(a.begin(), a.begin() + cut));
    if (cut < n) asidev.push_back(std::vector<int>(a.begin() + cut, a.end()));
    mpi_aside(asidev);
  }
  fbody = &body;
  for (int r = 0; r < total; r++) {
    start_fiber(r);
    int64_t s = decide(K_START, r, 0, [](uint64_t x) -> int64_t {
      return (int)(x % 100) < P("start_p", 0) ? 1 + (int64_t)((x >> 20) % 200) : 0; });
    wake(r, s * 1000);
  }
  maxsteps = P("maxsteps", 3000000);
  for (;;) {
    if (evq.empty()) {
      int done = 0, atsync = 0, idle = 0;
      for (int r = 0; r < total; r++) { if (locv[r] < 0) idle += fib[r].st == ATSYNC; else { done += fib[r].st == DONE; atsync += fib[r].st == ATSYNC; } }
      if (done == n && idle == extra) break;
      if (atsync == n && idle == extra) {
        mpi_leftovers(wherev[perm[0]].c_str());
        if (sync_once && *sync_once) (*sync_once)();
        bool again = rounds++ < 2;
        for (int r = 0; r < total; r++) {
          if (locv[r] < 0 && !again) continue;
          fib[r].st = READY;
          wake(r, 0);
        }
        continue;
      }
      die("C12", "deadlock", "no process can go on:%s", state_dump().c_str());
    }
    Ev *e = evq.top(); evq.pop();
    clockns = e->at;
    out->sim_ns = clockns;
    if (++out->steps > maxsteps) die("C12", "steps", "no completion within %ld steps:%s", maxsteps, state_dump().c_str());
    out->trace_hash = mix(out->trace_hash ^ ((uint64_t)(e->rank + 2) << 48) ^ e->tag);
    if (e->rank >= 0) enter(e->rank); else e->fn();
    delete e;
  }
  mpi_leftovers("end");
  globals_load(pristine);
  cur = -1;
}
void sync(const std::function<void()> &once) {
  heap_check_all("sync");
  if (P("grpown") && in_main_group() && !threads_on) {   // a mesh of another kind handled in between
    static int times[64];
    if (times[cur]++ < 3) own_job();
  }
  sync_once = &once;
  fib[cur].st = ATSYNC;
  to_sched();
  fill_stack_below(96 << 10);
}

// ---------------------------------------------------------------- run in a child
static char *sigstk = nullptr;
static void on_signal(int sig, siginfo_t *si, void *) {
  if (sig == SIGVTALRM || sig == SIGALRM) {
    out->ended = "hang";
    char b[512];
    snprintf(b, sizeof b, "[%s] rank %d: computes without end", where(), cur);
    out->viols.push_back({"", "hang", b});
  } else {
    out->ended = "crash";
    char b[512];
    snprintf(b, sizeof b, "[%s] rank %d: %s at address %s", where(), cur,
             sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : "signal",
             sig == SIGSEGV ? ((uintptr_t)si->si_addr < 65536 ? "near null" : "wild") : "-");
    out->viols.push_back({"", "crash", b});
  }
  write_result();
  _exit(0);
}

Outcome run_spec(const RunSpec &rs, int cpu) {
  Outcome o;
  if (!shm) {
    shm = (char *)mmap(nullptr, SHM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  uint64_t zero = 0;
  memcpy(shm, &zero, 8);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    signal(SIGTERM, SIG_DFL);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    static RunSpec my;
    my = rs;
    spec = &my;
    static Outcome oo;
    out = &oo;
    struct rlimit rl = {(rlim_t)cpu + 5, (rlim_t)cpu + 5};
    setrlimit(RLIMIT_CPU, &rl);
    rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    stack_t ss; memset(&ss, 0, sizeof ss);
    sigstk = (char *)malloc(256 << 10);
    ss.ss_sp = sigstk; ss.ss_size = 256 << 10; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal; sa.sa_flags = SA_ONSTACK | SA_SIGINFO | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGVTALRM, SIGALRM}) sigaction(s, &sa, nullptr);
    struct itimerval it; memset(&it, 0, sizeof it);
    it.it_value.tv_sec = cpu; setitimer(ITIMER_VIRTUAL, &it, nullptr);
    alarm(cpu * 20);
    if (!getenv("SIM_STDERR")) {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 1); dup2(fd, 2); close(fd);
    }
    extern void run_workload();
    heap_configure();
    run_workload();
    stop_run("ok");
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  uint64_t n;
  memcpy(&n, shm, 8);
  if (!n) {
    o.ended = "lost";
    char b[100];
    snprintf(b, sizeof b, "the process of the run ended without a result, status %x", st);
    o.viols.push_back({"", WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU ? "hang" : "crash", b});
    return o;
  }
  std::string s(shm + 8, n);
  size_t i = 0;
  while (i < s.size()) {
    size_t e = s.find('\n', i);
    if (e == std::string::npos) e = s.size();
    std::vector<std::string> f;
    size_t a = i;
    while (a <= e) {
      size_t t = s.find('\t', a);
      if (t == std::string::npos || t > e) t = e;
      f.push_back(s.substr(a, t - a));
      a = t + 1;
    }
    i = e + 1;
    if (f[0] == "ended") o.ended = f[1];
    else if (f[0] == "report") o.report = f[1];
    else if (f[0] == "trace") o.trace_hash = strtoull(f[1].c_str(), 0, 10);
    else if (f[0] == "result") o.result_hash = strtoull(f[1].c_str(), 0, 10);
    else if (f[0] == "simns") o.sim_ns = atoll(f[1].c_str());
    else if (f[0] == "steps") o.steps = atol(f[1].c_str());
    else if (f[0] == "viol") o.viols.push_back({f[1], f[2], f[3]});
    else if (f[0] == "count") o.counts[f[1]] = atol(f[2].c_str());
    else if (f[0] == "probe") o.probes.push_back(f[1]);
    else if (f[0] == "dec") o.decisions.emplace_back(f[1], atoll(f[2].c_str()));
    else if (f[0] == "log") o.log = f[1];
  }
  return o;
}
}  // namespace sim

namespace sim { std::function<bool(int)> exit_filter; }
// the library's exit() ends the run as a fatal end of this rank
extern "C" void sim_exit(int code) {
  using namespace sim;
  if (exit_filter && exit_filter(code)) stop_run("reported");
  outcome().ended = "fatal";
  die("", "fatal", "exit(%d): %s", code, outcome().report.c_str());
}
