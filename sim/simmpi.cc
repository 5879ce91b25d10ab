// Simulated MPI: message layer and collectives of N ranks in one process, driven by the
// event queue. Everything MPI leaves open (buffering, timing, when a rank leaves a
// collective, when data is copied) is a seeded decision. Everything MPI forbids is a violation.
#include "sim.h"
#include <mpi.h>
#include <link.h>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cmath>
#include <deque>
#include <list>
#include <set>
#include <algorithm>
#include <memory>

using namespace sim;
typedef long long ll;

namespace {
enum BK { B_NONE, B_CHAR, B_UCHAR, B_BYTE, B_SHORT, B_USHORT, B_INT, B_UINT, B_LONG, B_ULONG, B_LL, B_ULL, B_FLOAT, B_DOUBLE, B_2INT, B_FLOATINT, B_DOUBLEINT, B_BOOL, B_DERIVED };
struct Dtype { BK k; size_t size; size_t extent; std::vector<std::pair<size_t, size_t>> blk; const char *name; };

Dtype *mk(BK k, size_t s, const char *n) { return new Dtype{k, s, s, {{0, s}}, n}; }
Dtype *basic(MPI_Datatype t) {
  static std::vector<std::pair<MPI_Datatype, Dtype *>> tab = {
      {MPI_CHAR, mk(B_CHAR, 1, "char")}, {MPI_SIGNED_CHAR, mk(B_CHAR, 1, "schar")}, {MPI_UNSIGNED_CHAR, mk(B_UCHAR, 1, "uchar")},
      {MPI_BYTE, mk(B_BYTE, 1, "byte")}, {MPI_SHORT, mk(B_SHORT, 2, "short")}, {MPI_UNSIGNED_SHORT, mk(B_USHORT, 2, "ushort")},
      {MPI_INT, mk(B_INT, 4, "int")}, {MPI_UNSIGNED, mk(B_UINT, 4, "unsigned")}, {MPI_LONG, mk(B_LONG, 8, "long")},
      {MPI_UNSIGNED_LONG, mk(B_ULONG, 8, "ulong")}, {MPI_LONG_LONG_INT, mk(B_LL, 8, "longlong")}, {MPI_UNSIGNED_LONG_LONG, mk(B_ULL, 8, "ulonglong")},
      {MPI_FLOAT, mk(B_FLOAT, 4, "float")}, {MPI_DOUBLE, mk(B_DOUBLE, 8, "double")}, {MPI_2INT, mk(B_2INT, 8, "2int")},
      {MPI_FLOAT_INT, mk(B_FLOATINT, 8, "float_int")}, {MPI_DOUBLE_INT, new Dtype{B_DOUBLEINT, 12, 16, {{0, 8}, {8, 4}}, "double_int"}},
      {MPI_C_BOOL, mk(B_BOOL, 1, "bool")}, {MPI_UINT64_T, mk(B_ULL, 8, "uint64")}, {MPI_INT64_T, mk(B_LL, 8, "int64")},
      {MPI_INT32_T, mk(B_INT, 4, "int32")}, {MPI_UINT32_T, mk(B_UINT, 4, "uint32")}};
  for (auto &p : tab) if (p.first == t) return p.second;
  return nullptr;
}
std::set<void *> derived;
Dtype *dt(MPI_Datatype t) {
  Dtype *d = basic(t);
  if (d) return d;
  if (derived.count((void *)t)) return (Dtype *)t;
  mpi_fail("badarg", "invalid datatype");
  static Dtype z{B_BYTE, 1, 1, {{0, 1}}, "?"};
  return &z;
}
bool contiguous(const Dtype *d) { return d->blk.size() == 1 && d->blk[0].first == 0 && d->size == d->extent; }
void pack(const void *buf, int count, const Dtype *d, std::vector<char> &o) {
  size_t base = o.size();
  o.resize(base + d->size * count);
  char *q = o.data() + base;
  if (contiguous(d)) { if (count) memcpy(q, buf, d->size * count); return; }
  for (int i = 0; i < count; i++) for (auto &b : d->blk) { memcpy(q, (const char *)buf + i * d->extent + b.first, b.second); q += b.second; }
}
void unpack(void *buf, size_t nbytes, const Dtype *d, const char *q) {
  if (contiguous(d)) { if (nbytes) memcpy(buf, q, nbytes); return; }
  size_t done = 0;
  for (int i = 0; done < nbytes; i++)
    for (auto &b : d->blk) {
      size_t n = std::min(b.second, nbytes - done);
      memcpy((char *)buf + i * d->extent + b.first, q, n);
      q += n; done += n;
      if (done >= nbytes) break;
    }
}

struct Group { std::vector<int> r; };
struct CommObj { int id; std::vector<int> ranks; std::vector<int> collseq; bool freed = false;
  int local(int world) const { for (size_t i = 0; i < ranks.size(); i++) if (ranks[i] == world) return (int)i; return -1; } };
std::vector<std::unique_ptr<CommObj>> comms;
std::vector<CommObj *> selfs;
CommObj *worldc;
std::set<void *> commset;
int nextcomm;
CommObj *comm(MPI_Comm c) {
  if (c == MPI_COMM_WORLD) return worldc;
  if (c == MPI_COMM_SELF) return selfs[rank()];
  if (commset.count((void *)c)) return (CommObj *)c;
  die("C12", "badarg", "invalid communicator");
}
CommObj *newcomm(const std::vector<int> &r) {
  comms.emplace_back(new CommObj{nextcomm++, r, std::vector<int>(r.size(), 0)});
  commset.insert(comms.back().get());
  return comms.back().get();
}

struct Req;
struct Msg {
  int src, dst, tag, comm;      // world ranks
  int srclocal;
  bool rdv; bool arrived = false, matched = false;
  std::vector<char> data;       // eager copy
  const void *sbuf = nullptr; int scount = 0; Dtype *sdt = nullptr;
  size_t bytes = 0;
  Req *sreq = nullptr;
  BK bk;
  long no;
};
struct Req {
  int owner; bool isend; bool done = false; bool waiting = false;
  void *buf; int count; Dtype *d;
  int src, tag, comm;           // recv: wanted (world src or ANY)
  MPI_Comm ch;
  MPI_Status st;
  uint64_t sum = 0; bool sumset = false;
  std::vector<char> orig;       // recv: previous contents (restored beyond a short message)
  std::string where;
  bool nonblocking = false;
  Msg *m = nullptr;
};
struct RankSt {
  std::list<Req *> posted;
  std::list<Msg *> unexpected;  // arrived, unmatched
  std::set<Req *> active;       // nonblocking requests not yet completed by the user
};
std::vector<RankSt> rk;
std::map<std::pair<int, int>, int64_t> chan_last;
std::map<std::pair<int, int>, long> chan_no;
long inflight_msgs;
std::list<Msg *> allmsgs;

struct Coll {
  std::string op; int root; BK bk; size_t bytes; MPI_Op mop; int comm, seq;
  int n, entered = 0, left = 0;
  std::vector<char> in; // entered flags
  std::vector<std::vector<char>> contrib;
  std::vector<int> aux; // split colors, keys
  std::vector<int> waiters; // local ranks blocked
  std::vector<CommObj *> made;
  std::vector<std::vector<int>> vaux;
};
std::map<std::pair<int, int>, Coll *> colls;

uint64_t checksum(const void *p, int count, Dtype *d) {
  uint64_t h = 1469598103934665603ULL;
  for (int i = 0; i < count; i++)
    for (auto &b : d->blk) { const unsigned char *q = (const unsigned char *)p + i * d->extent + b.first; for (size_t k = 0; k < b.second; k++) h = (h ^ q[k]) * 1099511628211ULL; }
  return h;
}
struct Op { MPI_User_function *f; bool commute; };
std::set<void *> userops;

void bufcheck(const void *p, size_t n, const char *call) {
  std::string why;
  if (!heap_range_ok(p, n, &why)) {
    violate("C13", "buffer", "%s: the buffer is %s", call, why.c_str());
    if (spec->prop == "C13") stop_run("buffer");
  }
}
size_t span(int count, Dtype *d) { return count <= 0 ? 0 : (size_t)(count - 1) * d->extent + d->blk.back().first + d->blk.back().second; }

int64_t latency(Msg *m) {
  int64_t v = decide(K_LAT, m->src * 64 + m->dst, 0, [](uint64_t r) -> int64_t {
    if ((int)(r % 100) >= P("lat_p", 0)) return 0;
    return 1 + (int64_t)((r >> 20) % (uint64_t)P("lat_us", 50)); });
  if (v) count("fault.msg_delay");
  return 1000 + v * 1000;
}
bool match(const Req *r, const Msg *m) {
  return r->comm == m->comm && (r->src == MPI_ANY_SOURCE || r->src == m->src) && (r->tag == MPI_ANY_TAG || r->tag == m->tag);
}

void fill_garbage(void *p, size_t n, uint64_t salt) {
  switch (P("rgarb", 0) % 4) {
    case 1: memset(p, 0xff, n); break;
    case 2: { int *q = (int *)p; for (size_t i = 0; i < n / 4; i++) q[i] = 1 + (int)((i + salt) % 7); break; }
    case 3: { uint64_t s = mix(salt * 977 + 3); for (size_t i = 0; i < n; i++) { if ((i & 7) == 0) s = mix(s + 1); ((char *)p)[i] = (char)(s >> (8 * (i & 7))); } break; }
    default: memset(p, 0, n);
  }
}
const char *req_name(Req *r) {
  static char b[200];
  snprintf(b, sizeof b, "%s %s %d tag %d", r->where.c_str(), r->isend ? "to" : "from", r->src, r->tag);
  return b;
}
void req_done(Req *r) {
  r->done = true;
  if (r->waiting) wake(r->owner, 0);
}
void complete_recv(Req *r, Msg *m, const char *data) {
  size_t cap = r->d->size * (size_t)r->count;
  size_t n = m->bytes;
  if (n > cap) {
    die("C13", "truncate", "rank %d %s: message of %zu bytes from rank %d (tag %d) into a buffer of %zu bytes", r->owner, r->where.c_str(), n, m->src, m->tag, cap);
  }
  if (m->bk != r->d->k && m->bk != B_DERIVED && r->d->k != B_DERIVED && m->bk != B_BYTE && r->d->k != B_BYTE && n) {
    violate("C13", "datatype", "rank %d %s: received as %s what rank %d sent with another datatype (tag %d)", r->owner, r->where.c_str(), r->d->name, m->src, m->tag);
  }
  std::string why;
  if (!heap_range_ok(r->buf, n, &why)) {
    die("C13", "buffer", "rank %d %s: data arrives in a buffer that is %s", r->owner, r->where.c_str(), why.c_str());
  }
  unpack(r->buf, n, r->d, data);
  if (!r->orig.empty() && n < r->orig.size()) memcpy((char *)r->buf + n, r->orig.data() + n, r->orig.size() - n);
  r->orig.clear();
  r->st.MPI_SOURCE = m->srclocal; r->st.MPI_TAG = m->tag; r->st.MPI_ERROR = MPI_SUCCESS;
  r->st._ucount = n; r->st._cancelled = 0;
  note("deliver %d->%d tag %d bytes %zu%s", m->src, m->dst, m->tag, n, m->rdv ? " rdv" : "");
  inflight_msgs--;
  req_done(r);
}
void transfer(Req *r, Msg *m) {       // matched
  if (!m->rdv) { complete_recv(r, m, m->data.data()); allmsgs.remove(m); delete m; return; }
  int64_t v = decide(K_XFER, m->src * 64 + m->dst, 0, [](uint64_t x) -> int64_t {
    if ((int)(x % 100) >= P("xfer_p", P("lat_p", 0))) return 0;
    return 1 + (int64_t)((x >> 20) % (uint64_t)P("lat_us", 50)); });
  post_event(now_ns() + 500 + v * 1000, [r, m]() {
    std::string why;
    if (!heap_range_ok(m->sbuf, span(m->scount, m->sdt), &why))
      violate("C13", "buffer", "rank %d: message to rank %d (tag %d) is read from a buffer that is %s", m->src, m->dst, m->tag, why.c_str());
    std::vector<char> d;
    pack(m->sbuf, m->scount, m->sdt, d);
    if (m->sreq) req_done(m->sreq);
    complete_recv(r, m, d.data());
    allmsgs.remove(m);
    delete m;
  }, 0x7000000000000000ULL | (uint64_t)(m->src * 64 + m->dst));
}
void arrive(Msg *m) {
  m->arrived = true;
  RankSt &R = rk[m->dst];
  for (auto it = R.posted.begin(); it != R.posted.end(); ++it)
    if (match(*it, m)) { Req *r = *it; R.posted.erase(it); transfer(r, m); return; }
  R.unexpected.push_back(m);
  count("mpi.unexpected");
  if (is_blocked(m->dst) && blocked_reason(m->dst).compare(0, 9, "MPI_Probe") == 0) wake(m->dst, 0);
}
// Zoltan (real, third party) sends before receiving in places and so itself needs a buffering
// MPI; its own messages are always buffered, the library's are not.
static uintptr_t zt_lo = 0, zt_hi = 0;
static bool third_party_sender = false;
static int zt_cb(struct dl_phdr_info *i, size_t, void *) {
  if (i->dlpi_name && strstr(i->dlpi_name, "libtrilinos_zoltan"))
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) { zt_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; zt_hi = zt_lo + i->dlpi_phdr[k].p_memsz; }
  return 0;
}
static bool in_zoltan(void *ra) {
  if (!zt_lo) dl_iterate_phdr(zt_cb, nullptr);
  return (uintptr_t)ra >= zt_lo && (uintptr_t)ra < zt_hi;
}
Req *do_isend(const void *buf, int n, MPI_Datatype t, int dest, int tag, MPI_Comm c, const char *name, bool nonblock, bool syncm) {
  CommObj *C = comm(c);
  Req *r = new Req;
  r->owner = rank(); r->isend = true; r->buf = (void *)buf; r->count = n; r->d = dt(t); r->tag = tag; r->comm = C->id; r->where = name; r->nonblocking = nonblock; r->src = dest;
  memset(&r->st, 0, sizeof r->st);
  if (dest == MPI_PROC_NULL) { r->done = true; return r; }
  if (n < 0 || dest < 0 || dest >= (int)C->ranks.size() || tag < 0)
    die("C12", "badarg", "%s: invalid count %d, destination %d or tag %d", name, n, dest, tag);
  bufcheck(buf, span(n, r->d), name);
  Msg *m = new Msg;
  m->src = rank(); m->srclocal = C->local(rank()); m->dst = C->ranks[dest]; m->tag = tag; m->comm = C->id; m->bytes = r->d->size * (size_t)n; m->bk = r->d->k;
  int rdv = syncm ? 1 : third_party_sender ? 0 : (int)decide(K_RDV, m->src * 64 + m->dst, 0, [](uint64_t x) -> int64_t { return (int)(x % 100) < P("rdv_p", 0); });
  m->rdv = rdv;
  count(rdv ? "fault.unbuffered_send" : "mpi.eager");
  count("mpi.msgs");
  count("mpi.bytes", (long)m->bytes);
  if (rdv) { m->sbuf = buf; m->scount = n; m->sdt = r->d; m->sreq = r; }
  else { pack(buf, n, r->d, m->data); r->done = true; }
  if (nonblock) { r->sum = checksum(buf, n, r->d); r->sumset = true; }
  auto ch = std::make_pair(m->src, m->dst);
  int64_t at = std::max(chan_last[ch], now_ns() + latency(m));
  chan_last[ch] = at;
  m->no = chan_no[ch]++;
  inflight_msgs++;
  allmsgs.push_back(m);
  note("%s to %d tag %d bytes %zu%s", name, m->dst, tag, m->bytes, rdv ? " rdv" : "");
  post_event(at, [m]() { arrive(m); }, 0x6000000000000000ULL | (uint64_t)(m->src * 64 + m->dst));
  return r;
}
Req *do_irecv(void *buf, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, const char *name, bool nonblock) {
  CommObj *C = comm(c);
  Req *r = new Req;
  r->owner = rank(); r->isend = false; r->buf = buf; r->count = n; r->d = dt(t); r->tag = tag; r->comm = C->id; r->where = name; r->nonblocking = nonblock; r->src = src;
  memset(&r->st, 0, sizeof r->st);
  if (src == MPI_PROC_NULL) { r->done = true; r->st.MPI_SOURCE = MPI_PROC_NULL; r->st.MPI_TAG = MPI_ANY_TAG; return r; }
  if (n < 0 || (src != MPI_ANY_SOURCE && (src < 0 || src >= (int)C->ranks.size())) || (tag < 0 && tag != MPI_ANY_TAG))
    die("C12", "badarg", "%s: invalid count %d, source %d or tag %d", name, n, src, tag);
  if (src != MPI_ANY_SOURCE) r->src = C->ranks[src];
  size_t len = span(n, r->d);
  bufcheck(buf, len, name);
  if (len && contiguous(r->d) && P("rgarb", 0)) {
    std::string why;
    if (heap_range_ok(buf, len, &why)) {
      r->orig.assign((char *)buf, (char *)buf + len);
      fill_garbage(buf, len, (uint64_t)tag + len);
      count("fault.recv_buffer_scrambled");
    }
  }
  note("%s from %d tag %d cap %zu", name, r->src, tag, len);
  RankSt &R = rk[rank()];
  for (auto it = R.unexpected.begin(); it != R.unexpected.end(); ++it)
    if (match(r, *it)) { Msg *m = *it; R.unexpected.erase(it); transfer(r, m); return r; }
  R.posted.push_back(r);
  return r;
}
void wait_done(Req *r) {
  while (!r->done) { r->waiting = true; block_current(req_name(r)); }
  r->waiting = false;
}
void user_complete(Req *r, MPI_Status *st) {
  if (r->isend && r->sumset && r->count > 0) {
    std::string why;
    if (heap_range_ok(r->buf, span(r->count, r->d), &why) && checksum(r->buf, r->count, r->d) != r->sum) {
      violate("C13", "modified", "%s: the send buffer was changed before the send completed", req_name(r));
      if (spec->prop == "C13") stop_run("modified");
    }
  }
  if (st != MPI_STATUS_IGNORE) *st = r->st;
  rk[r->owner].active.erase(r);
  delete r;
}
Req *asreq(MPI_Request q) {
  if (q == MPI_REQUEST_NULL) return nullptr;
  Req *r = (Req *)q;
  if (!rk[rank()].active.count(r)) die("C12", "badarg", "invalid request handle");
  return r;
}
void empty_status(MPI_Status *s) { if (s != MPI_STATUS_IGNORE) { s->MPI_SOURCE = MPI_ANY_SOURCE; s->MPI_TAG = MPI_ANY_TAG; s->MPI_ERROR = MPI_SUCCESS; s->_ucount = 0; s->_cancelled = 0; } }

// ------------------------------------------------------------ collectives
bool coll_ready(Coll *c, int me, bool early) {
  if (c->op == "Bcast" || c->op == "Scatter" || c->op == "Scatterv") {
    if (me == c->root) return early || c->entered == c->n;
    return c->in[c->root] && (early || c->entered == c->n);
  }
  if (c->op == "Gather" || c->op == "Gatherv" || c->op == "Reduce") {
    if (me == c->root) return c->entered == c->n;
    return early || c->entered == c->n;
  }
  if (c->op == "Scan" || c->op == "Exscan") { for (int i = 0; i <= me; i++) if (!c->in[i]) return false; return early || c->entered == c->n; }
  return c->entered == c->n;
}
Coll *coll_enter(CommObj *C, const char *op, int root, Dtype *d, size_t bytes, MPI_Op mop, bool cmpbytes, std::vector<char> &&contrib, std::vector<int> va = {}) {
  int me = C->local(rank());
  if (me < 0) die("C12", "badarg", "MPI_%s on a communicator this rank is not in", op);
  int seq = C->collseq[me]++;
  auto key = std::make_pair(C->id, seq);
  Coll *&c = colls[key];
  if (!c) {
    c = new Coll;
    c->op = op; c->root = root; c->bk = d ? d->k : B_NONE; c->bytes = bytes; c->mop = mop; c->comm = C->id; c->seq = seq; c->n = (int)C->ranks.size();
    c->in.assign(c->n, 0); c->contrib.resize(c->n); c->vaux.resize(c->n);
    c->made.assign(c->n, nullptr);
  } else {
    if (c->op != op || c->root != root || (c->mop != mop && !(userops.count((Op *)c->mop) && userops.count((Op *)mop))))
      die("C12", "collmismatch", "collective no. %d: this rank calls MPI_%s (root %d), another called MPI_%s (root %d)", seq, op, root, c->op.c_str(), c->root);
    if (cmpbytes && c->bytes != bytes)
      die("C12", "collmismatch", "MPI_%s no. %d: this rank passes %zu bytes per process, another %zu", op, seq, bytes, c->bytes);
    if (d && c->bk != d->k) violate("C13", "datatype", "MPI_%s no. %d: datatypes differ between ranks", op, seq);
  }
  if (root >= c->n || root < -1) die("C12", "badarg", "MPI_%s: invalid root %d", op, root);
  c->in[me] = 1; c->entered++;
  c->contrib[me] = std::move(contrib);
  c->vaux[me] = std::move(va);
  count("mpi.collectives");
  note("MPI_%s seq %d bytes %zu", op, seq, bytes);
  for (int w : c->waiters) wake(C->ranks[w], 0);
  c->waiters.clear();
  return c;
}
void coll_wait(CommObj *C, Coll *c) {
  int me = C->local(rank());
  bool early = false;
  const std::string &o = c->op;
  if (o == "Bcast" || o == "Scatter" || o == "Gather" || o == "Reduce" || o == "Scan" || o == "Scatterv" || o == "Gatherv" || o == "Exscan") {
    early = decide(K_COLLEARLY, rank(), 0, [](uint64_t x) -> int64_t { return (int)(x % 100) < P("early_p", 0); }) != 0;
    if (early) count("fault.early_collective_exit");
  }
  char b[100];
  snprintf(b, sizeof b, "MPI_%s (root %d, collective no. %d)", o.c_str(), c->root, c->seq);
  while (!coll_ready(c, me, early)) { c->waiters.push_back(me); block_current(b); }
  int64_t s = decide(K_COLLSKEW, rank(), 0, [](uint64_t x) -> int64_t {
    return (int)(x % 100) < P("skew_p", 0) ? 1 + (int64_t)((x >> 20) % (uint64_t)P("lat_us", 50)) : 0; });
  if (s) { count("fault.collective_skew"); wake(rank(), s * 1000); block_current("-"); }
}
void coll_leave(CommObj *C, Coll *c) {
  if (++c->left == c->n) { colls.erase(std::make_pair(C->id, c->seq)); delete c; }
}
template <class T> void red1(T *a, const T *b, size_t n, MPI_Op op) {
  for (size_t i = 0; i < n; i++) {
    if (op == MPI_SUM) a[i] = (T)(a[i] + b[i]);
    else if (op == MPI_MAX) a[i] = std::max(a[i], b[i]);
    else if (op == MPI_MIN) a[i] = std::min(a[i], b[i]);
    else if (op == MPI_PROD) a[i] = (T)(a[i] * b[i]);
    else if (op == MPI_LOR) a[i] = (T)(a[i] || b[i]);
    else if (op == MPI_LAND) a[i] = (T)(a[i] && b[i]);
    else die("C12", "badarg", "reduction operation not valid for this datatype");
  }
}
template <class T> void redi(T *a, const T *b, size_t n, MPI_Op op) {
  if (op == MPI_BOR) for (size_t i = 0; i < n; i++) a[i] = (T)(a[i] | b[i]);
  else if (op == MPI_BAND) for (size_t i = 0; i < n; i++) a[i] = (T)(a[i] & b[i]);
  else if (op == MPI_BXOR) for (size_t i = 0; i < n; i++) a[i] = (T)(a[i] ^ b[i]);
  else red1(a, b, n, op);
}
template <class T> void redloc(char *a, const char *b, size_t n, size_t ext, size_t off, MPI_Op op) {
  for (size_t i = 0; i < n; i++, a += ext, b += ext) {
    T x, y; int ix, iy;
    memcpy(&x, a, sizeof x); memcpy(&y, b, sizeof y); memcpy(&ix, a + off, 4); memcpy(&iy, b + off, 4);
    bool take = op == MPI_MAXLOC ? (y > x || (y == x && iy < ix)) : (y < x || (y == x && iy < ix));
    if (take) memcpy(a, b, off + 4);
  }
}
void reduce_into(std::vector<char> &acc, const std::vector<char> &b, Dtype *d, MPI_Datatype t, MPI_Op op, int count) {
  if (userops.count((void *)op)) {
    std::vector<char> tmp = b;
    int n = count;
    MPI_Datatype tt = t;
    ((Op *)op)->f(tmp.data(), acc.data(), &n, &tt);   // acc = tmp op acc
    return;
  }
  char *a = acc.data(); const char *q = b.data(); size_t n = (size_t)count;
  if (op == MPI_MAXLOC || op == MPI_MINLOC) {
    if (d->k == B_2INT) redloc<int>(a, q, n, 8, 4, op);
    else if (d->k == B_FLOATINT) redloc<float>(a, q, n, 8, 4, op);
    else if (d->k == B_DOUBLEINT) redloc<double>(a, q, n, 12, 8, op);
    else die("C12", "badarg", "MAXLOC/MINLOC on this datatype");
    return;
  }
  switch (d->k) {
    case B_CHAR: redi((signed char *)a, (const signed char *)q, n, op); break;
    case B_UCHAR: case B_BYTE: case B_BOOL: redi((unsigned char *)a, (const unsigned char *)q, n, op); break;
    case B_SHORT: redi((short *)a, (const short *)q, n, op); break;
    case B_USHORT: redi((unsigned short *)a, (const unsigned short *)q, n, op); break;
    case B_INT: redi((int *)a, (const int *)q, n, op); break;
    case B_UINT: redi((unsigned *)a, (const unsigned *)q, n, op); break;
    case B_LONG: case B_LL: redi((ll *)a, (const ll *)q, n, op); break;
    case B_ULONG: case B_ULL: redi((unsigned long long *)a, (const unsigned long long *)q, n, op); break;
    case B_FLOAT: red1((float *)a, (const float *)q, n, op); break;
    case B_DOUBLE: red1((double *)a, (const double *)q, n, op); break;
    default: die("C12", "badarg", "reduction on a derived datatype");
  }
}
std::vector<char> packv(const void *b, int n, Dtype *d) { std::vector<char> v; pack(b, n, d, v); return v; }
void checkn(const char *name, int n) { if (n < 0) die("C12", "badarg", "%s: negative count %d", name, n); }
void alias(const char *name, const void *a, const void *b, size_t n) {
  if (a == b && n && a != MPI_IN_PLACE) violate("C13", "buffer", "%s: send and receive buffer are the same", name);
}
}  // namespace

namespace sim {
int in_mpi_fiber = 0;
void mpi_fail(const char *cls, const char *fmt, ...) {
  char b[500];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  die("C12", cls, "%s", b);
}
static MPI_Comm gcomm[2], acomm[64];
void mpi_reset(int n) {
  rk.clear(); rk.resize(n); chan_last.clear(); chan_no.clear(); colls.clear(); selfs.clear(); comms.clear(); commset.clear(); inflight_msgs = 0;
  allmsgs.clear();
  nextcomm = 0;
  for (auto &c : acomm) c = 0;
  std::vector<int> all;
  for (int i = 0; i < n; i++) all.push_back(i);
  worldc = newcomm(all);
  for (int i = 0; i < n; i++) selfs.push_back(newcomm({i}));
}
void mpi_aside(const std::vector<std::vector<int>> &v) { for (auto &a : v) { MPI_Comm c = (MPI_Comm)newcomm(a); for (int w : a) acomm[w] = c; } }
void mpi_groups(const std::vector<int> &a, const std::vector<int> &b) { gcomm[0] = (MPI_Comm)newcomm(a); gcomm[1] = (MPI_Comm)newcomm(b); }
}
MPI_Comm group_comm() { return aside() && in_main_group() && acomm[rank()] ? acomm[rank()] : !groups_on() ? MPI_COMM_WORLD : gcomm[in_main_group() ? 0 : 1]; }
namespace sim {
void mpi_leftovers(const char *when) {
  bool own = groups_on() && strcmp(when, "end");   // messages of the programs themselves may be on their way
  for (size_t i = 0; i < rk.size(); i++) {
    for (auto m : rk[i].unexpected) if (!own || m->comm != worldc->id) violate("C12", "leftover", "after %s: message from rank %d to rank %d (tag %d, %zu bytes) was never received", when, m->src, m->dst, m->tag, m->bytes);
    for (auto r : rk[i].active) if (!own || r->comm != worldc->id) violate("C12", "leftover", "after %s: a nonblocking %s of rank %zu (%s %d, tag %d) was never completed", when, r->isend ? "send" : "receive", i, r->isend ? "to" : "from", r->src, r->tag);
  }
  for (auto &c : colls) violate("C12", "leftover", "after %s: MPI_%s entered by %d of %d ranks", when, c.second->op.c_str(), c.second->entered, c.second->n);
  // do not report the same again
  if (!own) for (auto &r : rk) { r.unexpected.clear(); }
}
void mpi_buffer_freed(const void *p, size_t n) {
  if (rank() < 0 || rank() >= (int)rk.size()) return;
  const char *lo = (const char *)p, *hi = lo + n;
  for (auto r : rk[rank()].active) {
    size_t len = span(r->count, r->d);
    const char *b = (const char *)r->buf;
    if (len && b < hi && b + len > lo) {
      violate("C13", "inflight_free", "the buffer of a pending nonblocking %s (%s %d, tag %d, %zu bytes) is freed before the request completed", r->isend ? "send" : "receive", r->isend ? "to" : "from", r->src, r->tag, len);
      if (spec->prop == "C13") stop_run("inflight_free");
      if (!r->isend) r->orig.clear();
      r->sumset = false;
    }
  }
}
}  // namespace sim

#define ENTRY(name) do { if (rank() < 0) die("C12", "badarg", name " outside a rank"); mpi_call_entry(name); } while (0)
extern "C" {
int MPI_Init(int *, char ***) { return MPI_SUCCESS; }
int MPI_Init_thread(int *, char ***, int, int *p) { if (p) *p = MPI_THREAD_SINGLE; return MPI_SUCCESS; }
int MPI_Initialized(int *f) { *f = sim::rank() >= 0; return MPI_SUCCESS; }
int MPI_Finalized(int *f) { *f = 0; return MPI_SUCCESS; }
int MPI_Finalize(void) { return MPI_SUCCESS; }
int MPI_Abort(MPI_Comm, int e) { outcome().ended = "fatal"; die("", "fatal", "MPI_Abort(%d) %s", e, outcome().report.c_str()); }
double MPI_Wtime(void) { return (double)now_ns() * 1e-9 + 1000.0; }
double MPI_Wtick(void) { return 1e-9; }
int MPI_Get_processor_name(char *n, int *l) { strcpy(n, "sim"); *l = 3; return MPI_SUCCESS; }
int MPI_Error_string(int, char *s, int *l) { strcpy(s, "error"); *l = 5; return MPI_SUCCESS; }
int MPI_Error_class(int c, int *k) { *k = c; return MPI_SUCCESS; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return MPI_SUCCESS; }
// HDF5, which netCDF initialises with itself, hooks its termination to an attribute of MPI_COMM_SELF
int MPI_Comm_create_keyval(MPI_Comm_copy_attr_function *, MPI_Comm_delete_attr_function *, int *k, void *) { *k = 100; return MPI_SUCCESS; }
int MPI_Comm_free_keyval(int *k) { *k = MPI_KEYVAL_INVALID; return MPI_SUCCESS; }
int MPI_Comm_set_attr(MPI_Comm, int, void *) { return MPI_SUCCESS; }
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return MPI_SUCCESS; }

int MPI_Comm_rank(MPI_Comm c, int *r) { *r = comm(c)->local(sim::rank()); return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm c, int *n) { *n = (int)comm(c)->ranks.size(); return MPI_SUCCESS; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) { *r = comm(a) == comm(b) ? MPI_IDENT : comm(a)->ranks == comm(b)->ranks ? MPI_CONGRUENT : MPI_UNEQUAL; return MPI_SUCCESS; }
int MPI_Comm_group(MPI_Comm c, MPI_Group *g) { *g = (MPI_Group) new Group{comm(c)->ranks}; return MPI_SUCCESS; }
int MPI_Group_incl(MPI_Group g, int n, const int *r, MPI_Group *o) { Group *x = new Group; for (int i = 0; i < n; i++) x->r.push_back(((Group *)g)->r[r[i]]); *o = (MPI_Group)x; return MPI_SUCCESS; }
int MPI_Group_excl(MPI_Group g, int n, const int *r, MPI_Group *o) {
  Group *x = new Group; std::set<int> ex(r, r + n);
  for (size_t i = 0; i < ((Group *)g)->r.size(); i++) if (!ex.count((int)i)) x->r.push_back(((Group *)g)->r[i]);
  *o = (MPI_Group)x; return MPI_SUCCESS;
}
int MPI_Group_free(MPI_Group *g) { *g = MPI_GROUP_NULL; return MPI_SUCCESS; }
int MPI_Comm_free(MPI_Comm *c) { *c = MPI_COMM_NULL; return MPI_SUCCESS; }

int MPI_Type_size(MPI_Datatype t, int *s) { *s = (int)dt(t)->size; return MPI_SUCCESS; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e) { *lb = 0; *e = (MPI_Aint)dt(t)->extent; return MPI_SUCCESS; }
int MPI_Type_commit(MPI_Datatype *) { return MPI_SUCCESS; }
int MPI_Type_free(MPI_Datatype *t) { *t = MPI_DATATYPE_NULL; return MPI_SUCCESS; }
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *o) {
  Dtype *d = dt(t);
  Dtype *x = new Dtype{B_DERIVED, d->size * n, d->extent * n, {}, "derived"};
  for (int i = 0; i < n; i++) for (auto &b : d->blk) x->blk.push_back({b.first + i * d->extent, b.second});
  if (contiguous(d)) x->blk = {{0, d->size * n}};
  derived.insert(x); *o = (MPI_Datatype)x; return MPI_SUCCESS;
}
int MPI_Type_create_struct(int n, const int *len, const MPI_Aint *disp, const MPI_Datatype *ty, MPI_Datatype *o) {
  Dtype *x = new Dtype{B_DERIVED, 0, 0, {}, "derived"};
  for (int i = 0; i < n; i++) {
    Dtype *d = dt(ty[i]);
    for (int k = 0; k < len[i]; k++) for (auto &b : d->blk) { x->blk.push_back({(size_t)disp[i] + k * d->extent + b.first, b.second}); }
    x->size += d->size * len[i];
    x->extent = std::max(x->extent, (size_t)disp[i] + d->extent * len[i]);
  }
  x->extent = (x->extent + 3) & ~(size_t)3;
  derived.insert(x); *o = (MPI_Datatype)x; return MPI_SUCCESS;
}
int MPI_Op_create(MPI_User_function *f, int c, MPI_Op *o) { Op *x = new Op{f, c != 0}; userops.insert(x); *o = (MPI_Op)x; return MPI_SUCCESS; }
int MPI_Op_free(MPI_Op *o) { *o = MPI_OP_NULL; return MPI_SUCCESS; }

static int blocking_send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, const char *name, bool s, void *ra) {
  mpi_call_entry(name);
  third_party_sender = in_zoltan(ra);
  Req *r = do_isend(b, n, t, d, tag, c, name, false, s);
  third_party_sender = false;
  wait_done(r); delete r;
  return MPI_SUCCESS;
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return blocking_send(b, n, t, d, tag, c, "MPI_Send", false, __builtin_return_address(0)); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return blocking_send(b, n, t, d, tag, c, "MPI_Ssend", true, __builtin_return_address(0)); }
int MPI_Rsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return blocking_send(b, n, t, d, tag, c, "MPI_Rsend", false, __builtin_return_address(0)); }
static int nb_send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q, const char *name, bool s, void *ra) {
  mpi_call_entry(name);
  third_party_sender = in_zoltan(ra);
  Req *r = do_isend(b, n, t, d, tag, c, name, true, s);
  third_party_sender = false;
  rk[sim::rank()].active.insert(r);
  *q = (MPI_Request)r;
  return MPI_SUCCESS;
}
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) { return nb_send(b, n, t, d, tag, c, q, "MPI_Isend", false, __builtin_return_address(0)); }
int MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) { return nb_send(b, n, t, d, tag, c, q, "MPI_Issend", true, __builtin_return_address(0)); }
int MPI_Irsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) { return nb_send(b, n, t, d, tag, c, q, "MPI_Irsend", false, __builtin_return_address(0)); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st) {
  ENTRY("MPI_Recv");
  Req *r = do_irecv(b, n, t, s, tag, c, "MPI_Recv", false);
  wait_done(r);
  if (st != MPI_STATUS_IGNORE) { MPI_Status x = r->st; x.MPI_ERROR = st->MPI_ERROR; *st = x; }
  delete r;
  return MPI_SUCCESS;
}
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *q) {
  ENTRY("MPI_Irecv");
  Req *r = do_irecv(b, n, t, s, tag, c, "MPI_Irecv", true);
  rk[sim::rank()].active.insert(r);
  *q = (MPI_Request)r;
  return MPI_SUCCESS;
}
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype st, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *stat) {
  ENTRY("MPI_Sendrecv");
  Req *r = do_irecv(rb, rn, rt, s, rtag, c, "MPI_Sendrecv", false);
  Req *q = do_isend(sb, sn, st, d, stag, c, "MPI_Sendrecv", false, false);
  wait_done(r); wait_done(q);
  if (stat != MPI_STATUS_IGNORE) *stat = r->st;
  delete r; delete q;
  return MPI_SUCCESS;
}
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status *st) {
  ENTRY("MPI_Probe");
  CommObj *C = comm(c);
  Req w; w.comm = C->id; w.src = s == MPI_ANY_SOURCE ? s : C->ranks[s]; w.tag = tag;
  for (;;) {
    for (auto m : rk[sim::rank()].unexpected) if (match(&w, m)) {
      if (st != MPI_STATUS_IGNORE) { st->MPI_SOURCE = m->srclocal; st->MPI_TAG = m->tag; st->_ucount = m->bytes; st->_cancelled = 0; }
      return MPI_SUCCESS; }
    block_current("MPI_Probe");
  }
}
int MPI_Iprobe(int s, int tag, MPI_Comm c, int *flag, MPI_Status *st) {
  ENTRY("MPI_Iprobe");
  CommObj *C = comm(c);
  Req w; w.comm = C->id; w.src = s == MPI_ANY_SOURCE ? s : C->ranks[s]; w.tag = tag;
  *flag = 0;
  for (auto m : rk[sim::rank()].unexpected) if (match(&w, m)) {
    if (st != MPI_STATUS_IGNORE) { st->MPI_SOURCE = m->srclocal; st->MPI_TAG = m->tag; st->_ucount = m->bytes; st->_cancelled = 0; }
    *flag = 1; return MPI_SUCCESS; }
  wake(sim::rank(), 1000); block_current("-");
  return MPI_SUCCESS;
}
int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n) {
  size_t s = dt(t)->size;
  if (s == 0) *n = 0; else if (st->_ucount % s) *n = MPI_UNDEFINED; else *n = (int)(st->_ucount / s);
  return MPI_SUCCESS;
}
int MPI_Wait(MPI_Request *q, MPI_Status *st) {
  ENTRY("MPI_Wait");
  Req *r = asreq(*q);
  if (!r) { empty_status(st); return MPI_SUCCESS; }
  wait_done(r);
  user_complete(r, st);
  *q = MPI_REQUEST_NULL;
  return MPI_SUCCESS;
}
int MPI_Waitall(int n, MPI_Request *q, MPI_Status *st) {
  ENTRY("MPI_Waitall");
  bufcheck(q, sizeof(MPI_Request) * (size_t)(n < 0 ? 0 : n), "MPI_Waitall requests");
  if (st != MPI_STATUSES_IGNORE) bufcheck(st, sizeof(MPI_Status) * (size_t)(n < 0 ? 0 : n), "MPI_Waitall statuses");
  for (int i = 0; i < n; i++) {
    Req *r = asreq(q[i]);
    if (!r) { if (st != MPI_STATUSES_IGNORE) empty_status(&st[i]); continue; }
    wait_done(r);
  }
  for (int i = 0; i < n; i++) {
    Req *r = asreq(q[i]);
    if (!r) continue;
    user_complete(r, st != MPI_STATUSES_IGNORE ? &st[i] : MPI_STATUS_IGNORE);
    q[i] = MPI_REQUEST_NULL;
  }
  return MPI_SUCCESS;
}
int MPI_Waitany(int n, MPI_Request *q, int *idx, MPI_Status *st) {
  ENTRY("MPI_Waitany");
  for (;;) {
    bool any = false;
    for (int i = 0; i < n; i++) {
      Req *r = asreq(q[i]);
      if (!r) continue;
      any = true;
      if (r->done) {
        for (int k = 0; k < n; k++) if (Req *z = asreq(q[k])) z->waiting = false;
        user_complete(r, st); q[i] = MPI_REQUEST_NULL; *idx = i; return MPI_SUCCESS; }
      r->waiting = true;
    }
    if (!any) { *idx = MPI_UNDEFINED; empty_status(st); return MPI_SUCCESS; }
    block_current("MPI_Waitany");
  }
}
int MPI_Waitsome(int n, MPI_Request *q, int *cnt, int *idx, MPI_Status *st) {
  ENTRY("MPI_Waitsome");
  for (;;) {
    bool any = false; int k = 0;
    for (int i = 0; i < n; i++) {
      Req *r = asreq(q[i]);
      if (!r) continue;
      any = true;
      if (r->done) { user_complete(r, st != MPI_STATUSES_IGNORE ? &st[k] : MPI_STATUS_IGNORE); q[i] = MPI_REQUEST_NULL; idx[k++] = i; }
      else r->waiting = true;
    }
    if (!any) { *cnt = MPI_UNDEFINED; return MPI_SUCCESS; }
    if (k) { *cnt = k; for (int i = 0; i < n; i++) if (Req *z = asreq(q[i])) z->waiting = false; return MPI_SUCCESS; }
    block_current("MPI_Waitsome");
  }
}
int MPI_Test(MPI_Request *q, int *flag, MPI_Status *st) {
  ENTRY("MPI_Test");
  Req *r = asreq(*q);
  if (!r) { *flag = 1; empty_status(st); return MPI_SUCCESS; }
  if (r->done) { user_complete(r, st); *q = MPI_REQUEST_NULL; *flag = 1; return MPI_SUCCESS; }
  *flag = 0;
  wake(sim::rank(), 1000); block_current("-");
  return MPI_SUCCESS;
}
int MPI_Testall(int n, MPI_Request *q, int *flag, MPI_Status *st) {
  ENTRY("MPI_Testall");
  bool all = true;
  for (int i = 0; i < n; i++) { Req *r = asreq(q[i]); if (r && !r->done) all = false; }
  *flag = all;
  if (all) return MPI_Waitall(n, q, st);
  wake(sim::rank(), 1000); block_current("-");
  return MPI_SUCCESS;
}

int MPI_Barrier(MPI_Comm c) {
  ENTRY("MPI_Barrier");
  CommObj *C = comm(c);
  Coll *k = coll_enter(C, "Barrier", -1, nullptr, 0, MPI_OP_NULL, true, {});
  coll_wait(C, k); coll_leave(C, k);
  return MPI_SUCCESS;
}
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) {
  ENTRY("MPI_Bcast");
  checkn("MPI_Bcast", n);
  CommObj *C = comm(c); Dtype *d = dt(t);
  int me = C->local(sim::rank());
  bufcheck(b, span(n, d), "MPI_Bcast");
  Coll *k = coll_enter(C, "Bcast", root, d, d->size * (size_t)n, MPI_OP_NULL, true, me == root ? packv(b, n, d) : std::vector<char>());
  coll_wait(C, k);
  if (me != root) unpack(b, k->contrib[root].size(), d, k->contrib[root].data());
  coll_leave(C, k);
  return MPI_SUCCESS;
}
static void allred(const char *name, const char *op, const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) {
  CommObj *C = comm(c); Dtype *d = dt(t);
  int me = C->local(sim::rank());
  checkn(name, n);
  const void *src = s == MPI_IN_PLACE ? r : s;
  bufcheck(src, span(n, d), name);
  bool mine = root < 0 || me == root;
  if (mine) bufcheck(r, span(n, d), name);
  if (mine) alias(name, s, r, span(n, d));
  Coll *k = coll_enter(C, op, root, d, d->size * (size_t)n, o, true, packv(src, n, d));
  coll_wait(C, k);
  if (mine) {
    int last = !strcmp(op, "Scan") ? me : k->n - 1;
    std::vector<char> acc = k->contrib[last];
    for (int i = last - 1; i >= 0; i--) reduce_into(acc, k->contrib[i], d, t, o, n);
    unpack(r, acc.size(), d, acc.data());
  }
  coll_leave(C, k);
}
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { ENTRY("MPI_Allreduce"); allred("MPI_Allreduce", "Allreduce", s, r, n, t, o, -1, c); return MPI_SUCCESS; }
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) { ENTRY("MPI_Reduce"); allred("MPI_Reduce", "Reduce", s, r, n, t, o, root, c); return MPI_SUCCESS; }
int MPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { ENTRY("MPI_Scan"); allred("MPI_Scan", "Scan", s, r, n, t, o, -1, c); return MPI_SUCCESS; }
int MPI_Exscan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) {
  ENTRY("MPI_Exscan");
  CommObj *C = comm(c); Dtype *d = dt(t);
  int me = C->local(sim::rank());
  const void *src = s == MPI_IN_PLACE ? r : s;
  Coll *k = coll_enter(C, "Exscan", -1, d, d->size * (size_t)n, o, true, packv(src, n, d));
  coll_wait(C, k);
  if (me > 0) {
    std::vector<char> acc = k->contrib[me - 1];
    for (int i = me - 2; i >= 0; i--) reduce_into(acc, k->contrib[i], d, t, o, n);
    unpack(r, acc.size(), d, acc.data());
  }
  coll_leave(C, k);
  return MPI_SUCCESS;
}
int MPI_Reduce_scatter(const void *s, void *r, const int *cnt, MPI_Datatype t, MPI_Op o, MPI_Comm c) {
  ENTRY("MPI_Reduce_scatter");
  CommObj *C = comm(c); Dtype *d = dt(t);
  int me = C->local(sim::rank()), tot = 0, off = 0;
  for (int i = 0; i < (int)C->ranks.size(); i++) { if (i < me) off += cnt[i]; tot += cnt[i]; }
  const void *src = s == MPI_IN_PLACE ? r : s;
  Coll *k = coll_enter(C, "Reduce_scatter", -1, d, d->size * (size_t)tot, o, true, packv(src, tot, d));
  coll_wait(C, k);
  std::vector<char> acc = k->contrib[k->n - 1];
  for (int i = k->n - 2; i >= 0; i--) reduce_into(acc, k->contrib[i], d, t, o, tot);
  unpack(r, d->size * (size_t)cnt[me], d, acc.data() + d->size * (size_t)off);
  coll_leave(C, k);
  return MPI_SUCCESS;
}
int MPI_Allgather(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, MPI_Comm c) {
  ENTRY("MPI_Allgather");
  CommObj *C = comm(c); Dtype *d = dt(rt);
  int me = C->local(sim::rank()), N = (int)C->ranks.size();
  checkn("MPI_Allgather", n); checkn("MPI_Allgather", rn);
  bufcheck(r, span(rn * N, d), "MPI_Allgather receive");
  std::vector<char> in;
  if (s == MPI_IN_PLACE) in = packv((char *)r + d->extent * (size_t)rn * me, rn, d);
  else {
    bufcheck(s, span(n, dt(t)), "MPI_Allgather send");
    in = packv(s, n, dt(t));
    if (in.size() != d->size * (size_t)rn) die("C12", "collmismatch", "MPI_Allgather: sends %zu bytes, expects %zu from each", in.size(), d->size * (size_t)rn);
  }
  Coll *k = coll_enter(C, "Allgather", -1, d, d->size * (size_t)rn, MPI_OP_NULL, true, std::move(in));
  coll_wait(C, k);
  for (int i = 0; i < N; i++) unpack((char *)r + d->extent * (size_t)rn * i, k->contrib[i].size(), d, k->contrib[i].data());
  coll_leave(C, k);
  return MPI_SUCCESS;
}
int MPI_Allgatherv(const void *s, int n, MPI_Datatype t, void *r, const int *rn, const int *disp, MPI_Datatype rt, MPI_Comm c) {
  ENTRY("MPI_Allgatherv");
  CommObj *C = comm(c); Dtype *d = dt(rt);
  int me = C->local(sim::rank()), N = (int)C->ranks.size();
  std::vector<char> in;
  if (s == MPI_IN_PLACE) in = packv((char *)r + d->extent * (size_t)disp[me], rn[me], d); else { bufcheck(s, span(n, dt(t)), "MPI_Allgatherv send"); in = packv(s, n, dt(t)); }
  Coll *k = coll_enter(C, "Allgatherv", -1, d, 0, MPI_OP_NULL, true, std::move(in));
  coll_wait(C, k);
  for (int i = 0; i < N; i++) {
    if (k->contrib[i].size() != d->size * (size_t)rn[i]) die("C12", "collmismatch", "MPI_Allgatherv: rank %d sends %zu bytes, this rank expects %zu", i, k->contrib[i].size(), d->size * (size_t)rn[i]);
    bufcheck((char *)r + d->extent * (size_t)disp[i], span(rn[i], d), "MPI_Allgatherv receive");
    unpack((char *)r + d->extent * (size_t)disp[i], k->contrib[i].size(), d, k->contrib[i].data());
  }
  coll_leave(C, k);
  return MPI_SUCCESS;
}
static void gath(const char *op, const void *s, int n, MPI_Datatype t, void *r, const int *rns, int rn, const int *disp, MPI_Datatype rt, int root, MPI_Comm c) {
  CommObj *C = comm(c);
  int me = C->local(sim::rank()), N = (int)C->ranks.size();
  std::vector<char> in;
  size_t each = 0;
  if (me == root && s == MPI_IN_PLACE) { Dtype *d = dt(rt); int off = disp ? disp[me] : rn * me; in = packv((char *)r + d->extent * (size_t)off, rns ? rns[me] : rn, d); }
  else { checkn(op, n); bufcheck(s, span(n, dt(t)), op); in = packv(s, n, dt(t)); }
  each = rns ? 0 : in.size();
  Coll *k = coll_enter(C, op, root, me == root && s == MPI_IN_PLACE ? dt(rt) : dt(t), each, MPI_OP_NULL, true, std::move(in));
  coll_wait(C, k);
  if (me == root) {
    Dtype *d = dt(rt);
    for (int i = 0; i < N; i++) {
      int cnt = rns ? rns[i] : rn, off = disp ? disp[i] : rn * i;
      if (k->contrib[i].size() != d->size * (size_t)cnt) die("C12", "collmismatch", "MPI_%s: rank %d sends %zu bytes, the root expects %zu", op, i, k->contrib[i].size(), d->size * (size_t)cnt);
      bufcheck((char *)r + d->extent * (size_t)off, span(cnt, d), op);
      unpack((char *)r + d->extent * (size_t)off, k->contrib[i].size(), d, k->contrib[i].data());
    }
  }
  coll_leave(C, k);
}
int MPI_Gather(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { ENTRY("MPI_Gather"); gath("Gather", s, n, t, r, nullptr, rn, nullptr, rt, root, c); return MPI_SUCCESS; }
int MPI_Gatherv(const void *s, int n, MPI_Datatype t, void *r, const int *rn, const int *disp, MPI_Datatype rt, int root, MPI_Comm c) { ENTRY("MPI_Gatherv"); static const int z = 0; gath("Gatherv", s, n, t, r, rn ? rn : &z, 0, disp ? disp : &z, rt, root, c); return MPI_SUCCESS; }
static void scat(const char *op, const void *s, const int *sns, int sn, const int *disp, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  CommObj *C = comm(c);
  int me = C->local(sim::rank()), N = (int)C->ranks.size();
  std::vector<char> in; std::vector<int> off;
  if (me == root) {
    Dtype *d = dt(t);
    for (int i = 0; i < N; i++) {
      int cnt = sns ? sns[i] : sn, o = disp ? disp[i] : sn * i;
      bufcheck((const char *)s + d->extent * (size_t)o, span(cnt, d), op);
      off.push_back((int)in.size());
      pack((const char *)s + d->extent * (size_t)o, cnt, d, in);
    }
    off.push_back((int)in.size());
  }
  Coll *k = coll_enter(C, op, root, nullptr, 0, MPI_OP_NULL, true, std::move(in), off);
  coll_wait(C, k);
  Dtype *d = r == MPI_IN_PLACE ? nullptr : dt(rt);
  if (d) {
    auto &v = k->vaux[root]; size_t n = (size_t)(v[me + 1] - v[me]);
    if (n != d->size * (size_t)rn) die("C12", "collmismatch", "MPI_%s: the root sends %zu bytes, this rank expects %zu", op, n, d->size * (size_t)rn);
    bufcheck(r, span(rn, d), op);
    unpack(r, n, d, k->contrib[root].data() + v[me]);
  }
  coll_leave(C, k);
}
int MPI_Scatter(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { ENTRY("MPI_Scatter"); scat("Scatter", s, nullptr, n, nullptr, t, r, rn, rt, root, c); return MPI_SUCCESS; }
int MPI_Scatterv(const void *s, const int *n, const int *disp, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { ENTRY("MPI_Scatterv"); static const int z = 0; scat("Scatterv", s, n ? n : &z, 0, disp ? disp : &z, t, r, rn, rt, root, c); return MPI_SUCCESS; }
static void a2a(const char *op, const void *s, const int *sn, const int *sd, int s1, MPI_Datatype t, void *r, const int *rn, const int *rd, int r1, MPI_Datatype rt, MPI_Comm c) {
  CommObj *C = comm(c); Dtype *d = dt(t), *q = dt(rt);
  int me = C->local(sim::rank()), N = (int)C->ranks.size();
  std::vector<char> in; std::vector<int> off;
  for (int i = 0; i < N; i++) {
    int cnt = sn ? sn[i] : s1, o = sd ? sd[i] : s1 * i;
    bufcheck((const char *)s + d->extent * (size_t)o, span(cnt, d), op);
    off.push_back((int)in.size());
    pack((const char *)s + d->extent * (size_t)o, cnt, d, in);
  }
  off.push_back((int)in.size());
  Coll *k = coll_enter(C, op, -1, d, 0, MPI_OP_NULL, true, std::move(in), off);
  coll_wait(C, k);
  for (int i = 0; i < N; i++) {
    auto &v = k->vaux[i]; size_t n = (size_t)(v[me + 1] - v[me]);
    int cnt = rn ? rn[i] : r1, o = rd ? rd[i] : r1 * i;
    if (n != q->size * (size_t)cnt) die("C12", "collmismatch", "MPI_%s: rank %d sends %zu bytes, this rank expects %zu", op, i, n, q->size * (size_t)cnt);
    bufcheck((char *)r + q->extent * (size_t)o, span(cnt, q), op);
    unpack((char *)r + q->extent * (size_t)o, n, q, k->contrib[i].data() + v[me]);
  }
  coll_leave(C, k);
}
int MPI_Alltoall(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, MPI_Comm c) { ENTRY("MPI_Alltoall"); a2a("Alltoall", s, 0, 0, n, t, r, 0, 0, rn, rt, c); return MPI_SUCCESS; }
int MPI_Alltoallv(const void *s, const int *sn, const int *sd, MPI_Datatype t, void *r, const int *rn, const int *rd, MPI_Datatype rt, MPI_Comm c) { ENTRY("MPI_Alltoallv"); a2a("Alltoallv", s, sn, sd, 0, t, r, rn, rd, 0, rt, c); return MPI_SUCCESS; }

static CommObj *make_comm(CommObj *C, Coll *k, const std::vector<int> &ranks) {
  // all members of a new communicator get the same object
  for (int i = 0; i < k->n; i++) if (k->made[i] && k->made[i]->ranks == ranks) return k->made[i];
  (void)C;
  return newcomm(ranks);
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) {
  ENTRY("MPI_Comm_dup");
  CommObj *C = comm(c); int me = C->local(sim::rank());
  Coll *k = coll_enter(C, "Comm_dup", -1, nullptr, 0, MPI_OP_NULL, true, {});
  coll_wait(C, k);
  k->made[me] = make_comm(C, k, C->ranks); *o = (MPI_Comm)k->made[me];
  coll_leave(C, k);
  return MPI_SUCCESS;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *o) {
  ENTRY("MPI_Comm_split");
  CommObj *C = comm(c); int me = C->local(sim::rank());
  Coll *k = coll_enter(C, "Comm_split", -1, nullptr, 0, MPI_OP_NULL, true, {}, {color, key});
  coll_wait(C, k);
  if (color == MPI_UNDEFINED) *o = MPI_COMM_NULL;
  else {
    std::vector<std::pair<int, int>> m;
    for (int i = 0; i < k->n; i++) if (k->vaux[i][0] == color) m.push_back({k->vaux[i][1], i});
    std::sort(m.begin(), m.end());
    std::vector<int> r; for (auto &x : m) r.push_back(C->ranks[x.second]);
    k->made[me] = make_comm(C, k, r); *o = (MPI_Comm)k->made[me];
  }
  coll_leave(C, k);
  return MPI_SUCCESS;
}
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *o) {
  ENTRY("MPI_Comm_create");
  CommObj *C = comm(c); int me = C->local(sim::rank());
  Coll *k = coll_enter(C, "Comm_create", -1, nullptr, 0, MPI_OP_NULL, true, {});
  coll_wait(C, k);
  Group *G = (Group *)g;
  if (std::find(G->r.begin(), G->r.end(), sim::rank()) == G->r.end()) *o = MPI_COMM_NULL;
  else { k->made[me] = make_comm(C, k, G->r); *o = (MPI_Comm)k->made[me]; }
  coll_leave(C, k);
  return MPI_SUCCESS;
}
}
