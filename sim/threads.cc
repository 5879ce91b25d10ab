// Simulated threads: fibers that share the library's globals. Every memory access of the
// instrumented library code (-fsanitize=thread hooks) may be followed by a switch.
#include "sim.h"
#include <map>
#include <cstring>
using namespace sim;
namespace sim {
static long gap[64];
static void draw() {
  // 0: go on for a while; otherwise switch after that many accesses
  int64_t v = decide(K_PREEMPT, rank(), 0, [](uint64_t r) -> int64_t {
    if ((int)(r % 100) >= P("preempt_p", 50)) return 0;
    int64_t m = 1 + (int64_t)((r >> 8) % 10);
    return 1 + (int64_t)((r >> 16) % (uint64_t)(m * m * m)); });
  gap[rank()] = v ? v : -2000;
}
void threads_begin() { for (auto &g : gap) g = 1; threads_on = true; }  // every run is a process of its own
void threads_end() { threads_on = false; }
static void access() {
  int r = rank();
  if (r < 0) return;
  long &g = gap[r];
  if (g < 0) { if (++g == 0) g = 1; return; }
  if (--g > 0) return;
  count("fault.preempt");
  wake(r, 1 + (int64_t)(mix((uint64_t)now_ns() * 31 + r) % 40));
  block_current("(preempted)");
  draw();
}
struct Mtx { int owner = -1; std::vector<int> wait; };
static std::map<void *, Mtx> mtx;
}
extern "C" {
int sim_pthread_mutex_lock(void *m) {
  if (!threads_on) return 0;
  access();
  Mtx &x = mtx[m];
  while (x.owner >= 0) { if (x.owner == rank()) die("C21", "deadlock", "a thread locks a lock it holds"); count("lock.waits"); x.wait.push_back(rank()); block_current("a lock"); }
  x.owner = rank();
  return 0;
}
int sim_pthread_mutex_unlock(void *m) {
  if (!threads_on) return 0;
  Mtx &x = mtx[m];
  if (x.owner != rank()) { violate("C21", "lock", "a thread unlocks a lock it does not hold"); return 1; }
  x.owner = -1;
  for (int r : x.wait) wake(r, 1);
  x.wait.clear();
  access();
  return 0;
}
#define A(n) void __tsan_##n(void *) { if (threads_on) access(); }
A(read1) A(read2) A(read4) A(read8) A(read16) A(write1) A(write2) A(write4) A(write8) A(write16)
A(unaligned_read2) A(unaligned_read4) A(unaligned_read8) A(unaligned_read16) A(unaligned_write2) A(unaligned_write4) A(unaligned_write8) A(unaligned_write16)
A(volatile_read1) A(volatile_read2) A(volatile_read4) A(volatile_read8) A(volatile_write1) A(volatile_write2) A(volatile_write4) A(volatile_write8)
void __tsan_read_range(void *, unsigned long) { if (threads_on) access(); }
void __tsan_write_range(void *, unsigned long) { if (threads_on) access(); }
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_init() {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
}
