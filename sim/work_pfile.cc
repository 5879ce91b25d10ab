// Workload "pfile": every process of a distributed mesh writes its own file (native, GMV, X3D), in some
// of them something fails; the native files are read back one by one.
#include "work.h"
#include "io.h"
#include <cstdio>
#include <cstring>
#include <algorithm>
#include <functional>
enum { Q_MSTK, Q_GMV, Q_X3D };
static const char *fname[] = {"mstk", "gmv", "x3d"};
void gen_dist(Rng &g, Params &p, const std::string &prop, bool thorough);
static void gen_pfile(Rng &g, Params &p, const std::string &prop, bool thorough) {
  do gen_dist(g, p, "C04", thorough); while (p.get("n") > 8);
  p.set("fromfile", 0); p.set("mixsets", 0);
  p.set("with_attr", 1); p.set("nospace", 1);
  p.set("fmt", prop == "C16" ? Q_MSTK : g.range(0, 2));
  p.set("mode", prop == "C16" ? 0 : g.chance(80));
  if (p.get("fmt") != Q_MSTK && p.get("mode") == 0) p.set("mode", 1);
  p.set("fault", g.range(0, 5)); p.set("who", g.chance(50) ? g.range(0, p.get("n") - 1) : -1 - g.range(1, (1L << p.get("n")) - 1));
  p.set("at_ppm", g.chance(25) ? (g.chance(50) ? 0 : 999999) : g.range(0, 999999));
  p.set("lost", g.chance(50) ? 1 : g.range(1, 5000)); p.set("sticky", g.range(0, 1));
  if (g.chance(40)) p.set("shortw", g.range(5, 100));
  if (g.chance(40)) p.set("shortr", g.range(5, 100));
  if (g.chance(50)) p.set("bufsz", g.range(1, 5000));
}
static std::string own_name(const std::string &base, int f, int n, int r) {
  if (n == 1) return base;
  char b[64];
  if (f == Q_MSTK) { int nd = 0; for (int q = n; q; q /= 10) nd++; snprintf(b, sizeof b, ".%d.%0*d", n, nd, r); }
  else snprintf(b, sizeof b, ".%05d", r + (f == Q_X3D));
  return base + b;
}
// the files of one process: the main one and, for X3D, those of materials and sets
static std::map<std::string, std::string> own_files(const std::map<std::string, std::string> &all, const std::string &base, int f, int n, int r) {
  std::string sfx = own_name("", f, n, r);
  std::map<std::string, std::string> o;
  for (auto &x : all) if (x.first.size() >= sfx.size() && x.first.compare(x.first.size() - sfx.size(), sfx.size(), sfx) == 0) o.insert(x);
  return o;
}
static int write_own(Mesh_ptr mesh, const std::string &file, int f) {
  set_where(fname[f]);
  count("op.write");
  return MESH_ExportToFile(mesh, file.c_str(), fname[f], 0, nullptr, nullptr, group_comm());
}
static void run_pfile() {
  RefMesh m = ref_from_params();
  int n = (int)P("n", 2), f = (int)P("fmt");
  if (m.ncells() < n) stop_run("skip: fewer cells than processes");
  std::string file = std::string("simfs_p.") + fname[f];
  const char *pr = P("mode") ? "C17" : "C16";
  std::vector<Snap> s((size_t)n);
  std::vector<uint64_t> h0((size_t)n);
  std::vector<std::map<std::string, std::string>> full((size_t)n);
  std::vector<int> ret((size_t)n);
  std::vector<long> faults((size_t)n);
  long anyfault = 0;
  run_ranks(n, [&](int r) {
    Mesh_ptr mine = do_distribute(m, r);
    s[r] = snapshot(mine, m, SN_ATT | SN_UP);
    h0[r] = snap_hash(s[r]);
    int na = MESH_Num_Attribs(mine), ns = MESH_Num_MSets(mine);
    auto unchanged = [&](const char *what) {
      if (MESH_Num_Attribs(mine) != na || MESH_Num_MSets(mine) != ns) violate("C17", "mesh_changed", "process %d: after %s of %s the mesh has %d attributes and %d sets, before %d and %d", r, what, fname[f], MESH_Num_Attribs(mine), MESH_Num_MSets(mine), na, ns);
      else if (snap_hash(snapshot(mine, m, SN_ATT | SN_UP)) != h0[r]) violate("C17", "mesh_changed", "process %d: %s of %s changes the mesh", r, what, fname[f]);
    };
    auto own = own_name(file, f, n, r);
    IoPlan none; none.bufsz = P("bufsz");
    io_plan() = none; io_plan().shortw = (int)P("shortw"); io_reset_stat();
    ret[r] = write_own(mine, file, f);
    IoStat st = io_stat();
    io_plan() = none;
    unchanged("a write");
    sync([&]() {
      if (io_open_fds) violate("C17", "left_open", "%d files are still open after writing %s", io_open_fds, fname[f]);
      auto all = io_files();
      size_t nfiles = 0;
      for (int q = 0; q < n; q++) {
        if (ret[q] != 1) die(pr, "write_failed", "process %d: writing %s returns %d although nothing failed", q, fname[f], ret[q]);
        if (!all.count(own_name(file, f, n, q))) die(pr, "no_file", "process %d wrote no file %s", q, own_name(file, f, n, q).c_str());
        full[q] = own_files(all, file, f, n, q);
        nfiles += full[q].size();
        for (auto &x : full[q]) mix_result(std::hash<std::string>()(x.second));
      }
      if (all.size() != nfiles) violate(pr, "files", "%zu files were written, %zu with names of one of the %d processes", all.size(), nfiles, n);
      if (P("mode")) io_remove_all();
    });
    if (P("mode") == 0) {                       // each reads its own file
      set_where("read");
      io_plan().shortr = (int)P("shortr");
      Mesh_ptr b = MESH_New(P("at_ppm") % 2 ? UNKNOWN_REP : P("rep") ? F4 : F1);
      int ok = MESH_ImportFromFile(b, own.c_str(), "mstk", nullptr, group_comm());
      io_plan() = none;
      if (ok != 1) die("C16", "read_failed", "process %d: reading the file just written returns %d although nothing failed", r, ok);
      count("op.read");
      Snap t = snapshot(b, m, SN_ATT | SN_UP);
      for (auto &e : t.errs) violate("C16", "garbled", "process %d: %s", r, e.c_str());
      if (!t.up_err.empty()) violate("C16", "garbled", "process %d: %s", r, t.up_err.c_str());
      for (int k = 0; k <= m.dim; k++) {
        if (t.e[k].size() != s[r].e[k].size()) { violate("C16", "entities", "process %d reads %zu entities of kind %s, it wrote %zu", r, t.e[k].size(), kname(k), s[r].e[k].size()); continue; }
        for (auto &e : s[r].e[k]) {
          auto *q = t.byref(k, e.ref);
          if (!q) { violate("C16", "entities", "process %d does not read %s, which it wrote", r, ent_name(k, e.ref, m).c_str()); break; }
          if (q->gdim != e.gdim || q->gent != e.gent) violate("C16", "classification", "process %d: %s is read with classification %d/%d, written with %d/%d", r, ent_name(k, e.ref, m).c_str(), q->gdim, q->gent, e.gdim, e.gent);
          if (k == 2 ? !same_cycle(q->conn, e.conn) : k == 1 && q->conn != e.conn) violate("C16", "orientation", "process %d: %s is read with other orientation", r, ent_name(k, e.ref, m).c_str());
          if (k == 3) {
            std::map<int, int> a, c; for (size_t i = 0; i < e.conn.size(); i++) a[e.conn[i]] = e.dirs[i]; for (size_t i = 0; i < q->conn.size(); i++) c[q->conn[i]] = q->dirs[i];
            if (a != c) violate("C16", "orientation", "process %d: %s is read with other faces or directions", r, ent_name(k, e.ref, m).c_str());
          }
        }
      }
      check_file_atts(m, t, "C16", 1);
      mix_result(snap_hash(t));
      MESH_Delete(b);
      sync([&]() { if (io_open_fds) violate("C17", "left_open", "%d files are still open after reading", io_open_fds); });
    } else {
      long at = P("at_ppm"), who = P("who");
      bool hit = who >= 0 ? who == r : ((-1 - who) >> r) & 1;
      auto pos = [&](long k) { return k <= 0 ? 0 : (long)((double)k * (double)at / 1e6); };
      IoPlan q = none;
      if (hit) switch (P("fault")) {
        case 0: case 1: q.enospc_at = pos(st.wr_bytes); break;
        case 2: q.wr_fail = pos(st.wr_ops); q.sticky = P("sticky"); break;
        case 3: q.open_fail = pos(st.opens); break;
        case 4: q.close_fail = pos(st.closes); q.lost = P("lost", 1); break;
        default: q.enospc_at = std::max(0L, st.wr_bytes - 1 - (at % 40)); break;
      }
      io_plan() = q; io_reset_stat();
      exit_filter = [&](int c) { return c != 0 && io_stat().faults > 0; };
      ret[r] = write_own(mine, file, f);
      faults[r] = io_stat().faults;
      io_plan() = none; io_reset_stat();
      unchanged("a write with failures");
      sync([&]() {
        exit_filter = nullptr;
        if (io_open_fds) violate("C17", "left_open", "%d files are still open after a write of %s with failures", io_open_fds, fname[f]);
        auto all = io_files();
        for (int p = 0; p < n; p++) anyfault += faults[p];
        for (int p = 0; p < n; p++) {
          auto it = all.find(own_name(file, f, n, p));
          if (ret[p] == 1 && own_files(all, file, f, n, p) != full[p]) violate("C17", "silent", "process %d: writing %s reports success, but its file is %s", p, fname[f], it == all.end() ? "not there" : "not complete");
          if (ret[p] != 1 && !anyfault) violate("C17", "write_failed", "process %d: writing %s again returns %d although nothing failed", p, fname[f], ret[p]);
        }
      });
      ret[r] = write_own(mine, file, f);
      unchanged("a second write");
      sync([&]() {
        auto all = io_files();
        for (int p = 0; p < n; p++) {
          if (ret[p] != 1) violate("C17", "rewrite", "process %d: after a failed write, writing %s again without faults returns %d", p, fname[f], ret[p]);
          else if (own_files(all, file, f, n, p) != full[p]) violate("C17", "rewrite", "process %d: after a failed write, writing %s again leaves another file", p, fname[f]);
        }
        mix_result((uint64_t)anyfault);
      });
    }
    if (r == 0) { char b[160]; snprintf(b, sizeof b, "pfile %s mode%ld dim%d n%d ring%ld fault%ld pos%ld", fname[f], P("mode"), m.dim, n, P("ring"), P("fault"), P("at_ppm") / 200000); probe(b); }
  });
}
static Reg reg({"pfile", gen_pfile, run_pfile});
