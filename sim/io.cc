// Files of the run: in memory, per run, with faults. The library's fopen arrives here by a
// renamed symbol; Exodus/netCDF reach open/read/write/... of this executable because it
// comes first in symbol lookup.
#include "io.h"
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <cstring>
#include <cerrno>
#include <memory>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/syscall.h>
using namespace sim;
namespace sim {
struct File { std::string data; };
static std::map<std::string, std::shared_ptr<File>> files;
struct Open { std::shared_ptr<File> f; std::string name; size_t pos = 0; bool rd = false, wr = false, app = false; size_t written = 0; int rank = -1; };
static std::map<int, Open> fds;               // simulated descriptors, numbers from FD0
static const int FD0 = 100000;
static IoPlan plans[34];
static IoStat stats[34];
int io_open_fds = 0, io_open_files = 0;
IoPlan &io_plan() { return plans[rank() + 1]; }
IoStat &io_stat() { return stats[rank() + 1]; }
IoStat &io_stat(int r) { return stats[r + 1]; }
void io_reset_stat() { io_stat() = IoStat(); }
std::map<std::string, std::string> io_files() { std::map<std::string, std::string> r; for (auto &f : files) r[f.first] = f.second->data; return r; }
bool io_exists(const std::string &n) { return files.count(n) != 0; }
std::string io_get(const std::string &n) { auto it = files.find(n); return it == files.end() ? "" : it->second->data; }
void io_put(const std::string &n, const std::string &d) { auto f = std::make_shared<File>(); f->data = d; files[n] = f; }
void io_remove(const std::string &n) { files.erase(n); }
void io_remove_all() { files.clear(); }

static bool mine(const char *p) {
  if (!p) return false;
  if (!strncmp(p, "./", 2)) p += 2;
  return !strncmp(p, "simfs_", 6) || !strncmp(p, "mat.", 4);    // the X3D exporter chooses mat.*.Reg itself
}
static std::string norm(const char *p) { if (!strncmp(p, "./", 2)) p += 2; return p; }
static void tr(uint64_t kind, uint64_t a, uint64_t b) { uint64_t &h = outcome().trace_hash; h = mix(h ^ mix(kind * 1000003 + a) ^ mix(b + 77)); }
static void fault(const char *what) { tr(9, (uint64_t)strlen(what), (uint64_t)(unsigned char)what[0]); io_stat().faults++; count((std::string("fault.") + what).c_str()); note("io fault: %s", what); }

static int do_open(const char *path, int flags) {
  std::string n = norm(path);
  IoPlan &p = io_plan(); IoStat &s = io_stat();
  long k = s.opens++;
  count("io.open");
  if (k == p.open_fail) { fault("open_fails"); errno = (flags & O_CREAT) ? ENOSPC : EACCES; return -1; }
  auto it = files.find(n);
  if (it == files.end()) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    it = files.emplace(n, std::make_shared<File>()).first;
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  if (flags & O_TRUNC) it->second->data.clear();
  int fd = FD0;
  while (fds.count(fd)) fd++;
  Open o;
  o.f = it->second; o.name = n; o.rank = rank();
  int acc = flags & O_ACCMODE;
  o.rd = acc == O_RDONLY || acc == O_RDWR; o.wr = acc == O_WRONLY || acc == O_RDWR; o.app = flags & O_APPEND;
  fds[fd] = o; io_open_fds++;
  return fd;
}
static ssize_t do_write(int fd, const void *buf, size_t n, bool at, size_t off) {
  auto it = fds.find(fd);
  if (it == fds.end() || !it->second.wr) { errno = EBADF; return -1; }
  Open &o = it->second;
  IoPlan &p = io_plan(); IoStat &s = io_stat();
  long k = s.wr_ops++;
  count("io.write");
  if (p.wr_fail >= 0 && (k == p.wr_fail || (p.sticky && k > p.wr_fail))) { fault("write_eio"); errno = EIO; return -1; }
  if (p.eintr && decide(K_IO, (unsigned)(rank() + 1), (unsigned)k, [&](uint64_t r) { return (int)(r % 100) < p.eintr ? 1 : 0; })) { fault("write_eintr"); errno = EINTR; return -1; }
  size_t m = n;
  if (p.shortw && n > 1) {
    int64_t c = decide(K_IOLEN, (unsigned)(rank() + 1), (unsigned)k, [&](uint64_t r) -> int64_t { return (int)(r % 100) < p.shortw ? 1 + (int64_t)((r >> 20) % (n - 1)) : 0; });
    if (c > 0 && (size_t)c < n) { m = (size_t)c; s.partial++; count("fault.short_write"); }
  }
  if (p.enospc_at >= 0) {
    long left = p.enospc_at - s.wr_bytes;
    if (left <= 0 && n > 0) { fault("disk_full"); errno = ENOSPC; return -1; }
    if ((long)m > left) { m = (size_t)left; s.partial++; }
  }
  size_t pos = at ? off : o.app ? o.f->data.size() : o.pos;
  if (o.f->data.size() < pos + m) o.f->data.resize(pos + m, '\0');
  memcpy(&o.f->data[pos], buf, m);
  tr(1, (uint64_t)(rank() + 1), m * 1000003 + pos);
  if (!at) o.pos = pos + m;
  o.written += m; s.wr_bytes += (long)m;
  return (ssize_t)m;
}
static ssize_t do_read(int fd, void *buf, size_t n, bool at, size_t off) {
  auto it = fds.find(fd);
  if (it == fds.end() || !it->second.rd) { errno = EBADF; return -1; }
  Open &o = it->second;
  IoPlan &p = io_plan(); IoStat &s = io_stat();
  long k = s.rd_ops++;
  count("io.read");
  if (p.rd_fail >= 0 && (k == p.rd_fail || (p.sticky && k > p.rd_fail))) { fault("read_eio"); errno = EIO; return -1; }
  if (p.eintr && decide(K_IO, 64 + (unsigned)(rank() + 1), (unsigned)k, [&](uint64_t r) { return (int)(r % 100) < p.eintr ? 1 : 0; })) { fault("read_eintr"); errno = EINTR; return -1; }
  size_t pos = at ? off : o.pos, size = o.f->data.size();
  size_t m = pos >= size ? 0 : std::min(n, size - pos);
  if (p.shortr && m > 1) {
    int64_t c = decide(K_IOLEN, 64 + (unsigned)(rank() + 1), (unsigned)k, [&](uint64_t r) -> int64_t { return (int)(r % 100) < p.shortr ? 1 + (int64_t)((r >> 20) % (m - 1)) : 0; });
    if (c > 0 && (size_t)c < m) { m = (size_t)c; s.partial++; count("fault.short_read"); }
  }
  memcpy(buf, o.f->data.data() + pos, m);
  tr(2, (uint64_t)(rank() + 1), m * 1000003 + pos);
  if (!at) o.pos = pos + m;
  s.rd_bytes += (long)m;
  return (ssize_t)m;
}
static off64_t do_seek(int fd, off64_t off, int wh) {
  auto it = fds.find(fd);
  if (it == fds.end()) { errno = EBADF; return -1; }
  Open &o = it->second;
  off64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t)o.pos : (off64_t)o.f->data.size();
  if (b + off < 0) { errno = EINVAL; return -1; }
  o.pos = (size_t)(b + off);
  return (off64_t)o.pos;
}
static int do_close(int fd) {
  auto it = fds.find(fd);
  if (it == fds.end()) { errno = EBADF; return -1; }
  Open &o = it->second;
  int rc = 0;
  if (o.wr) {
    IoPlan &p = io_plan(); IoStat &s = io_stat();
    long k = s.closes++;
    count("io.close");
    if (k == p.close_fail) {
      fault("close_fails");
      size_t l = std::min(std::min((size_t)std::max(1L, p.lost), o.written), o.f->data.size());
      o.f->data.resize(o.f->data.size() - l);       // what had not reached the disk yet is lost
      errno = EIO; rc = -1;
    }
  }
  fds.erase(it); io_open_fds--;
  return rc;
}
static int do_stat(const std::string &n, std::shared_ptr<File> f, struct stat *b) {
  memset(b, 0, sizeof *b);
  b->st_mode = S_IFREG | 0644; b->st_nlink = 1; b->st_blksize = 4096;
  b->st_size = (off_t)f->data.size(); b->st_blocks = (b->st_size + 511) / 512;
  b->st_dev = 77; b->st_ino = 1 + (ino_t)(mix(std::hash<std::string>()(n)) >> 8);
  return 0;
}
// stdio on top of it
struct Cookie { int fd; FILE *fp; };
static std::map<FILE *, int> fpfd;
static ssize_t ck_read(void *c, char *b, size_t n) { return do_read(((Cookie *)c)->fd, b, n, false, 0); }
static ssize_t ck_write(void *c, const char *b, size_t n) {      // stdio goes on after a short write, stops at an error
  size_t done = 0;
  while (done < n) { ssize_t r = do_write(((Cookie *)c)->fd, b + done, n - done, false, 0); if (r < 0) break; done += (size_t)r; }
  return (ssize_t)done;
}
static int ck_seek(void *c, off64_t *o, int w) { off64_t r = do_seek(((Cookie *)c)->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { Cookie *k = (Cookie *)c; int r = do_close(k->fd); io_open_files--; fpfd.erase(k->fp); delete k; return r; }
static FILE *do_fopen(const char *path, const char *mode) {
  int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
  if (strchr(mode, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
  int fd = do_open(path, fl);
  if (fd < 0) return nullptr;
  Cookie *c = new Cookie{fd, nullptr};
  cookie_io_functions_t fn = {ck_read, ck_write, ck_seek, ck_close};
  FILE *f = fopencookie(c, mode, fn);
  if (!f) { do_close(fd); delete c; return nullptr; }
  io_open_files++; c->fp = f; fpfd[f] = fd;
  long bs = io_plan().bufsz;
  if (bs > 0) setvbuf(f, (char *)malloc((size_t)bs), _IOFBF, (size_t)bs);
  return f;
}
}  // namespace sim
void io_init() {}

template <class F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" {
FILE *sim_fopen(const char *p, const char *m) {
  if (mine(p)) { mpi_call_entry("fopen"); return do_fopen(p, m); }
  // anything else the library opens is outside the simulated disk: nothing is there and
  // nothing may be written there
  errno = ENOENT; count("io.foreign_path"); return nullptr;
}
time_t sim_time(time_t *t) { time_t v = 1600000000 + sim::now_ns() / 1000000000; if (t) *t = v; return v; }

FILE *fopen(const char *p, const char *m) { static auto f = real<FILE *(*)(const char *, const char *)>("fopen"); return mine(p) ? do_fopen(p, m) : f(p, m); }
FILE *fopen64(const char *p, const char *m) { static auto f = real<FILE *(*)(const char *, const char *)>("fopen64"); return mine(p) ? do_fopen(p, m) : f(p, m); }
int fileno(FILE *f) noexcept { auto it = fpfd.find(f); if (it != fpfd.end()) return it->second; static auto r = real<int (*)(FILE *)>("fileno"); return r(f); }
static int open_any(const char *p, int fl, mode_t mo) { return mine(p) ? do_open(p, fl) : (int)syscall(SYS_openat, AT_FDCWD, p, fl, mo); }
int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t mo = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap); return open_any(p, fl, mo); }
int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t mo = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap); return open_any(p, fl | O_LARGEFILE, mo); }
int creat(const char *p, mode_t mo) { return open_any(p, O_CREAT | O_WRONLY | O_TRUNC, mo); }
ssize_t read(int fd, void *b, size_t n) { return fd >= FD0 ? do_read(fd, b, n, false, 0) : (ssize_t)syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { return fd >= FD0 ? do_write(fd, b, n, false, 0) : (ssize_t)syscall(SYS_write, fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return fd >= FD0 ? do_read(fd, b, n, true, (size_t)o) : (ssize_t)syscall(SYS_pread64, fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return fd >= FD0 ? do_write(fd, b, n, true, (size_t)o) : (ssize_t)syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { return fd >= FD0 ? do_seek(fd, o, w) : (off64_t)syscall(SYS_lseek, fd, o, w); }
off_t lseek(int fd, off_t o, int w) noexcept { return lseek64(fd, o, w); }
int close(int fd) { return fd >= FD0 ? do_close(fd) : (int)syscall(SYS_close, fd); }
int ftruncate(int fd, off_t n) noexcept { if (fd < FD0) return (int)syscall(SYS_ftruncate, fd, n); auto it = fds.find(fd); if (it == fds.end()) { errno = EBADF; return -1; } it->second.f->data.resize((size_t)n); return 0; }
int ftruncate64(int fd, off64_t n) noexcept { return ftruncate(fd, n); }
int fsync(int fd) { return fd >= FD0 ? 0 : (int)syscall(SYS_fsync, fd); }
int fstat(int fd, struct stat *b) noexcept { if (fd < FD0) { static auto f = real<int (*)(int, struct stat *)>("fstat"); return f(fd, b); } auto it = fds.find(fd); if (it == fds.end()) { errno = EBADF; return -1; } return do_stat(it->second.name, it->second.f, b); }
int fstat64(int fd, struct stat64 *b) noexcept { return fstat(fd, (struct stat *)b); }
int stat(const char *p, struct stat *b) noexcept { if (!mine(p)) { static auto f = real<int (*)(const char *, struct stat *)>("stat"); return f(p, b); } auto it = files.find(norm(p)); if (it == files.end()) { errno = ENOENT; return -1; } return do_stat(it->first, it->second, b); }
int stat64(const char *p, struct stat64 *b) noexcept { return stat(p, (struct stat *)b); }
int access(const char *p, int m) noexcept { if (!mine(p)) return (int)syscall(SYS_access, p, m); if (files.count(norm(p))) return 0; errno = ENOENT; return -1; }
int unlink(const char *p) noexcept { if (!mine(p)) return (int)syscall(SYS_unlink, p); if (files.erase(norm(p))) return 0; errno = ENOENT; return -1; }
int remove(const char *p) noexcept { if (!mine(p)) { static auto f = real<int (*)(const char *)>("remove"); return f(p); } return unlink(p); }
}
