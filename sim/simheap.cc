// Heap of the simulated ranks: one arena per rank at a fixed address, never reused
// memory (or LIFO reuse with stale contents), seeded garbage, red zones, poison.
#include "sim.h"
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <vector>
#include <algorithm>
#include <sys/mman.h>

namespace sim {
static char *const BASE = (char *)0x200000000000ULL;
static const size_t SPAN = 1ULL << 30;      // per rank
static const int MAXR = 33;                 // last: outside fibers
static const uint64_t MAGIC = 0x51A10C51A10C51A1ULL, FREED = 0xDEADF4EEDEADF4EEULL;
static const int RZ = 16;
struct Hdr { uint64_t magic; uint64_t size; uint32_t seq; uint32_t pad; uint64_t check; };
struct Arena { char *next; std::vector<Hdr *> blocks; std::vector<Hdr *> freelist[64]; size_t bytes; };
static Arena ar[MAXR];
static int fillmode = 0, always_move = 1;
static uint64_t fillseed = 0;
bool heap_fail_armed = false;

void heap_init() {
  void *m = mmap(BASE, SPAN * MAXR, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) { perror("arena"); exit(70); }
  for (int i = 0; i < MAXR; i++) { ar[i].next = BASE + SPAN * i; ar[i].bytes = 0; }
}
void heap_configure() {
  fillmode = (int)P("heapfill", 0);
  always_move = (int)P("heapmove", 1);
  fillseed = (uint64_t)P("heapseed", 1);
}
static int arena_of(const void *p) {
  if ((char *)p < BASE || (char *)p >= BASE + SPAN * MAXR) return -1;
  return (int)(((char *)p - BASE) / SPAN);
}
static inline char *user(Hdr *h) { return (char *)(h + 1); }
static void fill(char *p, size_t n, uint32_t seq, int r) {
  switch (fillmode) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xff, n); break;
    case 2: { uint32_t *q = (uint32_t *)p; for (size_t i = 0; i < n / 4; i++) q[i] = 1 + (uint32_t)((seq + i) % 5); memset(p + n / 4 * 4, 1, n % 4); break; }
    case 3: { uint64_t s = mix(fillseed * 131 + seq * 7 + r); size_t i = 0; for (; i + 8 <= n; i += 8) { s = mix(s + 0x9e37); memcpy(p + i, &s, 8); } for (; i < n; i++) p[i] = (char)(s >> (8 * (i & 7))); break; }
    default: break;     // 4: stale contents (recycled block)
  }
}
static int cls(size_t n) { return (int)std::min<size_t>(63, (n + 31) / 32); }

static void report(const char *c, const char *what, Hdr *h) {
  violate("C13", c, "%s (block of %zu bytes)", what, h ? (size_t)h->size : 0);
  if (spec->prop == "C13") stop_run(c);
}
static bool check_block(Hdr *h) {
  if (h->magic != MAGIC && h->magic != FREED) return false;
  if (h->check != (h->size ^ h->seq ^ 0xabcdefULL)) return false;
  unsigned char *t = (unsigned char *)user(h) + h->size;
  for (int i = 0; i < RZ; i++) if (t[i] != (unsigned char)(0xC3 + i)) return false;
  return true;
}
void *heap_alloc(size_t n, bool zero) {
  int r = rank() < 0 ? MAXR - 1 : rank();
  Arena &A = ar[r];
  if (n > (256u << 20)) { count("heap.hugealloc"); return nullptr; }
  if (fillmode == 4) {
    auto &fl = A.freelist[cls(n)];
    if (n && cls(n) < 63 && !fl.empty()) {
      Hdr *h = fl.back(); fl.pop_back();
      size_t old = h->size;
      // the block's span is fixed by its class: keep contents (stale), new size
      (void)old;
      h->size = n; h->magic = MAGIC; h->check = (h->size ^ h->seq ^ 0xabcdefULL);
      char *p = user(h);
      for (int i = 0; i < RZ; i++) p[n + i] = (char)(0xC3 + i);
      if (zero) memset(p, 0, n);
      return p;
    }
  }
  size_t span = fillmode == 4 && cls(n) < 63 ? (size_t)cls(n) * 32 : n;
  size_t tot = (sizeof(Hdr) + span + RZ + 31) & ~(size_t)31;
  if (A.bytes + tot > SPAN - 4096 || A.bytes + tot > (400u << 20)) {
    die("", "hang", "allocated more than 400 MB for a small mesh");
  }
  Hdr *h = (Hdr *)A.next;
  A.next += tot; A.bytes += tot;
  h->magic = MAGIC; h->size = n; h->seq = (uint32_t)A.blocks.size(); h->check = (h->size ^ h->seq ^ 0xabcdefULL);
  A.blocks.push_back(h);
  char *p = user(h);
  if (zero) { /* fresh pages */ } else if (fillmode == 4) fill(p, 0, 0, 0); else fill(p, n, h->seq, r);
  if (fillmode == 4 && !zero) { for (size_t i = 0; i < n; i++) p[i] = (char)(i * 37 + h->seq); }
  for (int i = 0; i < RZ; i++) p[n + i] = (char)(0xC3 + i);
  return p;
}
void heap_free(void *p) {
  if (!p) return;
  int a = arena_of(p);
  if (a < 0) { free(p); return; }   // memory from another library
  Hdr *h = (Hdr *)p - 1;
  if (h->magic == FREED) { report("doublefree", "freed twice", h); return; }
  if (h->magic != MAGIC) { report("badfree", "free of something that is not the start of a block, or its header was overwritten", nullptr); return; }
  if (!check_block(h)) report("overrun", "written past its end (seen when freed)", h);
  mpi_buffer_freed(p, h->size);
  h->magic = FREED;
  if (fillmode == 4) {
    if (h->size && cls(h->size) < 63) { ar[a].freelist[cls(h->size)].push_back(h); }
  } else memset(p, 0xDB, h->size);
}
void *heap_realloc(void *p, size_t n) {
  if (!p) return heap_alloc(n, false);
  int a = arena_of(p);
  if (a < 0) return realloc(p, n);
  Hdr *h = (Hdr *)p - 1;
  if (h->magic != MAGIC) { report(h->magic == FREED ? "uaf" : "badfree", "realloc of a freed block or of something that is not a block", nullptr); return heap_alloc(n, false); }
  void *q = heap_alloc(n, false);
  if (!q) return nullptr;
  memcpy(q, p, std::min<size_t>(n, h->size));
  heap_free(p);
  return q;
}
bool heap_range_ok(const void *p, size_t n, std::string *why) {
  int a = arena_of(p);
  if (a < 0 || n == 0) return true;
  auto &b = ar[a].blocks;
  auto it = std::upper_bound(b.begin(), b.end(), (Hdr *)p, [](const Hdr *x, const Hdr *y) { return x < y; });
  if (it == b.begin()) { *why = "outside every block"; return false; }
  Hdr *h = *--it;
  char buf[200];
  if (h->magic != MAGIC) { *why = "in a freed block"; return false; }
  if ((char *)p < user(h)) { *why = "between blocks"; return false; }
  if ((const char *)p + n > user(h) + h->size) {
    snprintf(buf, sizeof buf, "%zu bytes at offset %zu of a block of %zu bytes", n, (size_t)((char *)p - user(h)), (size_t)h->size);
    *why = buf;
    return false;
  }
  return true;
}
void heap_check_all(const char *when) {
  int r = rank() < 0 ? MAXR - 1 : rank();
  static size_t done[MAXR];
  auto &b = ar[r].blocks;
  for (size_t i = 0; i < b.size(); i++) {
    Hdr *h = b[i];
    if (!check_block(h)) {
      report("overrun", when, h);
      h->size = 0; break;
    }
    if (h->magic == FREED && fillmode != 4 && i >= done[r]) {
      for (size_t k = 0; k < h->size; k++) if ((unsigned char)user(h)[k] != 0xDB) { report("writeafterfree", "written after it was freed", h); memset(user(h), 0xDB, h->size); break; }
    }
  }
}
long heap_bytes() { long s = 0; for (auto &a : ar) s += (long)a.bytes; return s; }
}  // namespace sim

extern "C" {
void *sim_malloc(size_t n) { return sim::heap_alloc(n, false); }
void *sim_calloc(size_t a, size_t b) { return sim::heap_alloc(a * b, true); }
void *sim_realloc(void *p, size_t n) { return sim::heap_realloc(p, n); }
void sim_free(void *p) { sim::heap_free(p); }
}
