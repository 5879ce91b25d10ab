// Deterministic simulator core: decisions, fibers, event queue, heap, outcome of a run.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace sim {

// ---------------------------------------------------------------- parameters
// A run is completely described by its parameters plus its decisions.
struct Params {
  std::map<std::string, long> m;
  long get(const std::string &k, long def = 0) const {
    auto it = m.find(k);
    return it == m.end() ? def : it->second;
  }
  void set(const std::string &k, long v) { m[k] = v; }
};

// ---------------------------------------------------------------- randomness
uint64_t mix(uint64_t x);
struct Rng {                       // for generating workloads (not schedules)
  uint64_t s;
  explicit Rng(uint64_t seed) : s(mix(seed + 0x9e3779b97f4a7c15ULL)) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
  long range(long lo, long hi) { return hi <= lo ? lo : lo + (long)(next() % (uint64_t)(hi - lo + 1)); }
  bool chance(int pct) { return (long)(next() % 100) < pct; }
  double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
};

// ---------------------------------------------------------------- decisions
// Every nondeterministic outcome is one decision, keyed by what it is about so
// that a key means the same thing when other decisions are removed. 0 is the
// benign outcome. In search mode the value comes from the seed, in replay mode
// from the list in the replay file (absent: 0).
enum Kind { K_LAT = 1, K_RDV, K_XFER, K_YIELD, K_COLLEARLY, K_COLLSKEW, K_START, K_IO, K_IOLEN, K_CRASH, K_PREEMPT, K_NKINDS };
extern const char *kind_name[K_NKINDS];
int64_t decide(Kind k, unsigned a, unsigned b, const std::function<int64_t(uint64_t)> &f);

// ---------------------------------------------------------------- outcome
// cls: class of what happened; prop: property it belongs to ("" = the property of
// whatever workload is running, e.g. a crash)
void violate(const char *prop, const char *cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
[[noreturn]] void stop_run(const char *why);       // end the run now
extern std::function<bool(int)> exit_filter;       // true: ending the program is an expected way to report a failure here
[[noreturn]] void die(const char *prop, const char *cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
void count(const char *name, long n = 1);          // statistics of the run
void probe(const std::string &name);                // distinct situations reached
void mix_result(uint64_t v);                       // into the result hash
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // into the run's log (verbose mode)

struct Violation { std::string prop, cls, text; };
struct Outcome {
  std::vector<Violation> viols;
  std::string ended;              // "ok" or why it ended early
  std::string report;             // last MSTK_Report message of a FATAL
  uint64_t trace_hash = 0, result_hash = 0;
  std::map<std::string, long> counts;
  std::vector<std::string> probes;
  int64_t sim_ns = 0;
  long steps = 0;
  std::vector<std::pair<std::string, int64_t>> decisions; // non-default ones
  std::string log;
};
Outcome &outcome();

struct RunSpec {
  std::string prop, workload;
  uint64_t seed = 0;
  Params p;
  bool replay = false;                         // decisions below instead of seed
  std::map<std::string, int64_t> decisions;
  bool verbose = false;
};
extern RunSpec *spec;
inline long P(const char *k, long def = 0) { return spec->p.get(k, def); }

// Run the spec in a forked child; the outcome is what the child left behind.
Outcome run_spec(const RunSpec &rs, int cpu_limit_s = 20);

// ---------------------------------------------------------------- ranks
int nranks();
int rank();                                        // current fiber, -1 outside
// Run body on n ranks under the simulated MPI to completion (may be called more
// than once per run: epochs). Ends the run on deadlock etc.
void run_ranks(int n, const std::function<void(int)> &body);
// Groups: with parameter grp > 0, run_ranks starts grp more processes than the workload asks for; the workload's
// ranks are those of a communicator of its own, in an order drawn from grpseed; the others form another group.
bool in_main_group();
bool aside();                                      // doing something else than the workload
int lrank();                                       // rank in the workload's group
bool groups_on();
int world_size();
extern void (*group_other)(int idx, int n, int which);         // what the processes of the other group do
extern void (*group_around)(bool end);             // before and after the work of every process
// Barrier of the harness itself (no MPI, no simulated time): all ranks arrive,
// checks that nothing is left over, `once` runs once, all continue.
void sync(const std::function<void()> &once = nullptr);
const char *where();                               // label of current operation
void set_where(const char *s);                     // on current rank
int64_t now_ns();
void yield_point();                                // simulated threads: may switch here
extern bool threads_on;                            // the fibers are threads of one process
void block_current(const char *why);
void wake(int r, int64_t delay);

// ---------------------------------------------------------------- heap
void heap_init();
void *heap_alloc(size_t n, bool zero);
void heap_free(void *p);
void *heap_realloc(void *p, size_t n);
bool heap_range_ok(const void *p, size_t n, std::string *why); // within one live block (or not in arena)
void heap_check_all(const char *when);
long heap_bytes();
void heap_configure();
extern bool heap_fail_armed;

// in-flight buffers, kept by the MPI layer
void mpi_buffer_freed(const void *p, size_t n);
void mpi_reset(int n);
void mpi_aside(const std::vector<std::vector<int>> &);
void mpi_groups(const std::vector<int> &main, const std::vector<int> &other);
void mpi_leftovers(const char *when);
void mpi_fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
extern int in_mpi_fiber;

// scheduler interface for the MPI layer
void post_event(int64_t at, const std::function<void()> &fn, uint64_t tag);
void mpi_call_entry(const char *name);
bool is_blocked(int r);
std::string blocked_reason(int r);
uint64_t stack_fill_pattern();

}  // namespace sim
