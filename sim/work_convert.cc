// Workload "convert": the program meshconvert runs on one or several processes, from a file or
// from the files of the processes to other ones, while storing or reading them may fail.
#include "work.h"
#include "io.h"
#include <cstdio>
#include <cstring>
#include <cmath>
#include <algorithm>
extern "C" int meshconvert_main(int, char **);
bool check_written(const char *prop, const RefMesh &m, const std::vector<Snap> &s, const std::string &file, const char *fmt, const std::set<std::string> &atts);   // work_export.cc
static const char *PR = "C27";
enum { V_MSTK, V_GMV, V_EXO, V_OFF, V_STL, V_X3D };
static const char *ext[] = {"mstk", "gmv", "exo", "off", "stl", "x3d"}, *impfmt[] = {"mstk", "gmv", "exodusii", "", "", ""};
static void gen_convert(Rng &g, Params &p, const std::string &prop, bool thorough) {
  int n = g.chance(50) ? 1 : (int)(g.chance(15) ? g.range(5, 11) : g.range(2, 4));
  p.set("n", n);
  gen_mesh_params(g, p, thorough ? 50 : 24);
  while (p.get("nx") * p.get("ny") * std::max(1L, p.get("nz")) < 2 * n + 2) p.set("nx", p.get("nx") + 1);
  p.set("rep", 0);
  p.set("infmt", g.range(0, 2)); p.set("outfmt", n > 1 ? g.range(0, 2) : g.range(0, 5));
  if (p.get("outfmt") == V_OFF || p.get("outfmt") == V_STL) { gen_mesh_params(g, p, thorough ? 50 : 24, "", 2); if (p.get("outfmt") == V_STL) p.set("ctype", 1); }
  p.set("par", n > 1 && g.chance(35));
  gen_partition(g, p);
  p.set("del", 0); p.set("ring", 0);
  gen_exo_common(g, p);
  p.set("zoff", 0); p.set("geosets", 0); p.set("names", 1);
  if (p.get("infmt") == V_GMV) p.set("natt", 0);
  if (p.get("infmt") != V_EXO) p.set("nset", 0);
  p.set("shuffle", g.chance(70) ? g.range(1, 1000) : 0);
  p.set("with_attr", 1);
  if (p.get("outfmt") == V_STL) { p.set("ctype", 1); p.set("nblk", 1); }
  p.set("oclass", g.range(0, 3)); p.set("otopo", p.get("oclass") == 0 && g.chance(70) ? 0 : g.range(0, 2)); p.set("opart", g.range(0, 3)); p.set("opcheck", g.range(0, 2));
  if (n > 1 && g.chance(30)) p.set("oghost", g.range(0, 2));
  if (n > 1 && g.chance(25)) p.set("stray", g.range(1, 2));
  if (g.chance(25)) { p.set("fault", g.range(0, 6)); p.set("at_ppm", g.chance(25) ? (g.chance(50) ? 0 : 999999) : g.range(0, 999999)); p.set("lost", g.chance(50) ? 1 : g.range(1, 5000)); p.set("sticky", g.range(0, 1)); p.set("who", g.range(0, n - 1));
    if (p.get("stray") && p.get("fault") == 3) p.set("fault", 2);                 // it would take the other files
    if (p.get("outfmt") == V_EXO && p.get("fault") == 4) p.set("fault", 0); }     // netCDF's own close does not tell
  gen_net(g, p, n > 1 ? -1 : 0);
  // netCDF takes a short read for the end of the file
  if (g.chance(40) && p.get("infmt") != V_EXO && p.get("outfmt") != V_EXO) p.set("shortw", g.range(5, 100));
  if (g.chance(40) && p.get("infmt") != V_EXO && p.get("outfmt") != V_EXO) p.set("shortr", g.range(5, 100));
}
static std::string own_name(const std::string &base, int f, int n, int r) {
  if (n == 1) return base;
  char b[64];
  if (f == V_GMV) snprintf(b, sizeof b, ".%05d", r);
  else { int nd = 0; for (int q = n; q; q /= 10) nd++; snprintf(b, sizeof b, ".%d.%0*d", n, nd, r); }
  return base + b;
}
static void run_convert() {
  RefMesh m = exo_ref();
  for (auto &x : m.xyz) for (auto &c : x) c = std::round(c * 1024) / 1024;
  m.reindex();
  if ((int)m.vkey.size() != m.n(0)) stop_run("skip: coinciding vertices");
  int n = (int)P("n", 1), fi = (int)P("infmt"), fo = (int)P("outfmt");
  bool par = n > 1 && P("par"), hasfault = P("fault", -1) >= 0;
  if (m.ncells() < n) stop_run("skip: fewer cells than processes");
  // what the generator avoids
  if ((par && P("ring", 1)) || (fo == V_STL && P("ctype") != 1) || ((fo == V_OFF || fo == V_STL) && m.dim == 3) || (n > 1 && fo >= V_OFF) || (par && P("del")) ||
      ((fi == V_EXO || fo == V_EXO) && P("shortr")) || (fo == V_EXO && P("fault") == 4) || (P("stray") && P("fault", -1) == 3)) stop_run("skip: not generated");
  std::string in = std::string("simfs_in.") + ext[fi], out = std::string("simfs_out.") + ext[fo];
  std::vector<Snap> s((size_t)n), t((size_t)n);
  std::vector<int> ret((size_t)n, -99);
  long faults = 0;
  run_ranks(n, [&](int r) {
    Mesh_ptr mine = nullptr;
    if (par) mine = do_distribute(m, r);
    else if (r == 0) { set_where("build"); mine = build(m, nullptr, F1, (uint64_t)P("shuffle"), true).mesh; }
    if (mine) {
      s[r] = snapshot(mine, m, SN_ATT | SN_UP);
      set_where("write the input");
      std::vector<char> nm(in.begin(), in.end()); nm.push_back(0);
      int ok = MESH_ExportToFile(mine, nm.data(), impfmt[fi], 0, nullptr, nullptr, par ? group_comm() : (MSTK_Comm)0);
      if (ok != 1) die("C25", "write_failed", "process %d: MESH_ExportToFile returns %d although nothing failed", r, ok);
      MESH_Delete(mine);
    }
    sync([&]() {});
    // files of other runs of the same name: a serial one besides the parallel ones, or parallel ones besides the serial one
    bool both = P("stray") == 2;
    if (P("stray") && r == 0) {
      if (par) { if (both) io_put(in, io_get(own_name(in, fi, n, 0))); count("op.stray_serial"); }
      else for (int p = 0; p < n - (both ? 0 : 1); p++) io_put(own_name(in, fi, n, p), "rubbish\n"), count("op.stray_part");
    }
    sync([&]() {});
    // the program
    std::vector<std::string> a = {"meshconvert"};
    if (P("oclass") < 3) a.push_back("--classify=" + (P("shuffle") % 3 || P("oclass") == 2 ? std::to_string(P("oclass")) : std::string(P("oclass") ? "y" : "n")));
    if (P("otopo") < 2) a.push_back(P("otopo") ? P("shuffle") % 3 ? "--check-topo=y" : "--check-topo=1" : "--check-topo=n");
    if (n > 1) {
      if (!par) {
        int pm = (int)P("method");
        if (P("opart") || both) a.push_back(P("opart") == 1 ? "--partition=y" : P("opart") == 2 ? "--partition=1" : P("shuffle") % 3 ? "--partition=2" : "--partition=o");
        if (fi == V_EXO && (P("opart") == 1 || P("opart") == 2)) pm = 0;          // parts are read by all processes at once: METIS only
        if (pm || P("shuffle") % 2) a.push_back("--partition-method=" + std::to_string(pm));
      } else if (P("opart") < 3 || both || fi == V_EXO) a.push_back(P("opart") ? "--weave=y" : "--weave=1");
      if (P("opcheck") < 2) a.push_back(P("opcheck") ? "--parallel-check=y" : "--parallel-check=1");
    }
    a.push_back(in); a.push_back(out);
    std::vector<std::vector<char>> st; std::vector<char *> av;
    for (auto &x : a) { st.emplace_back(x.begin(), x.end()); st.back().push_back(0); }
    for (auto &x : st) av.push_back(x.data());
    av.push_back(nullptr);
    IoPlan none, q; none.shortw = q.shortw = (int)P("shortw"); none.shortr = q.shortr = (int)P("shortr");
    long at = P("at_ppm");
    if (hasfault && P("who") % n == r) switch (P("fault")) {
      case 0: case 1: q.enospc_at = (long)(30000.0 * (double)at / 1e6 * (double)at / 1e6); break;
      case 2: q.wr_fail = at % 12; q.sticky = P("sticky"); break;
      case 3: q.open_fail = at % 3; break;
      case 4: q.close_fail = at % 3; q.lost = P("lost", 1); break;
      case 5: q.rd_fail = at % 12; q.sticky = true; break;
      default: q.enospc_at = 0; break;
    }
    io_plan() = q; io_reset_stat();
    sync([&]() {});
    set_where("meshconvert");
    exit_filter = [&](int c) { for (int p = 0; p < n; p++) if (io_stat(p).faults) return c != 0; return P("otopo") == 1 && !P("oclass") && c != 0; };     // a mesh without classification need not pass
    ret[r] = meshconvert_main((int)a.size(), av.data());
    sync([&]() {
      exit_filter = nullptr;
      for (int p = 0; p < n; p++) { faults += io_stat(p).faults; if (ret[p] != 0 && !io_stat(p).faults) violate(PR, "status", "process %d of meshconvert ends with %d although nothing failed", p, ret[p]); }
      if (io_open_fds && !(fi == V_EXO && faults)) violate(PR, "left_open", "%d files are still open", io_open_fds);
      for (int p = 0; p < n; p++) if (ret[p] != 0) stop_run("reported");
      count(par ? "op.convert_weave" : n > 1 ? "op.convert_partition" : "op.convert");
      if (faults) count("op.convert_fault");
      char b[160]; snprintf(b, sizeof b, "convert %s %s n%d par%d dim%d ctype%ld class%ld part%ld fault%d", ext[fi], ext[fo], n, par, m.dim, P("ctype"), P("oclass"), P("opart"), faults > 0);
      probe(b);
    });
    io_plan() = IoPlan();
    // what it wrote
    set_where("read the output");
    if (fo >= V_OFF) {
      std::set<std::string> atts; for (auto &x : m.atts) atts.insert(x.name);
      check_written(PR, m, s, out, ext[fo], atts);
      return;
    }
    std::string own = own_name(out, fo, n, r);
    if (!io_exists(own)) { violate(PR, "silent", "meshconvert reports success, but there is no file %s", own.c_str()); stop_run("no output"); }
    Mesh_ptr b = MESH_New(F1);
    int ok, po[5] = {1, 1, 0, 0, 0};
    std::vector<char> nm(out.begin(), out.end()); nm.push_back(0);
    exit_filter = [&](int c) { violate(PR, "silent", "meshconvert reports success, but reading %s ends the program", out.c_str()); return true; };
    if (fo != V_EXO || n == 1) ok = MESH_ImportFromFile(b, own.c_str(), impfmt[fo], nullptr, (MSTK_Comm)0);   // GMV: a file, with ghosts, on its own
    else ok = MESH_ImportFromFile(b, nm.data(), "nemesisi", po, group_comm());
    if (ok != 1) { violate(PR, "silent", "meshconvert reports success, but process %d cannot read %s", r, own.c_str()); stop_run("unreadable output"); }
    t[r] = snapshot(b, m, SN_ATT | SN_UP);
    sync([&]() {
      exit_filter = nullptr;
      OracleOpt o; o.p1 = o.p2 = o.p3 = PR; o.edge_order = false; o.loops = m.dim == 2; o.pb = false; o.mink = m.dim; o.classn = fo != V_GMV && fi != V_GMV && !(m.dim == 2 && P("oclass") == 2);
      RefMesh x = m;
      bool exo = fi == V_EXO && fo == V_EXO;
      if (!exo) x.sets.clear();
      if (fi == V_GMV || fo == V_GMV) x.atts.clear();
      std::vector<std::set<int>> mine((size_t)n), there((size_t)n);
      if (par) for (int p = 0; p < n; p++) for (int k = 0; k <= m.dim; k++) for (auto &e : s[p].e[k]) { there[p].insert(4 * e.ref + k); if (k == m.dim) mine[p].insert(e.ref); }
      std::vector<std::set<int>> has((size_t)m.ncells());
      for (int p = 0; p < n; p++) for (auto &e : t[p].e[m.dim]) if (e.ref >= 0) has[e.ref].insert(p);
      for (int c = 0; c < m.ncells(); c++) if (has[c].empty()) { violate(PR, "cells", "%s is in none of the files written", ent_name(m.dim, c, m).c_str()); break; }
      if (m.dim == 2 && P("oclass") == 2) for (auto &z : t) for (auto &e : z.e[2]) if (e.ref >= 0) x.gid[2][e.ref] = e.gent;   // looked at below
      if (fo == V_EXO && fi != V_GMV) check_exo(x, t, PR, n > 1, (P("opart") == 1 || P("opart") == 2) && !par && n > 1);
      else for (int p = 0; p < n; p++) {
        OracleOpt q = o; std::vector<Snap> one = {t[p]};
        for (int c = 0; c < m.ncells(); c++) if (!has[c].count(p)) q.dead.insert(c);
        for (auto &e : one[0].e[m.dim]) e.pt = PINTERIOR;
        check_conserve(x, one, q);
        if (fi == V_MSTK && fo == V_MSTK) {
          Snap z = t[p];
          if (par) for (int k = 0; k <= m.dim; k++) for (auto &e : z.e[k]) if (!there[p].count(4 * e.ref + k)) e.ref = -1;   // weaving adds copies, with attributes unset
          check_file_atts(x, z, PR, 1);
        }
      }
      if (n > 1 && fo == V_EXO) { check_owner(m, t, o); check_ghost(m, t, o); }
      // two cells have the same material only if they had, and if they had, unless it is told to split by geometry
      // (GMV files of several processes count the materials of each on their own)
      std::map<std::pair<int, int>, int> of, back;
      bool each = n > 1 && (par && fi == V_GMV || fo == V_GMV), split = m.dim == 2 && P("oclass") == 2;
      for (int p = 0; p < n; p++) for (auto &e : t[p].e[m.dim]) if (e.ref >= 0) {
        int g = m.gid[m.dim][e.ref], q = each ? p : 0;
        if (par && fi == V_GMV && !mine[p].count(e.ref)) continue;
        bool other = of.emplace(std::make_pair(q, g), e.gent).first->second != e.gent, both = back.emplace(std::make_pair(q, e.gent), g).first->second != g;
        if (both || other && !split) { violate(PR, "material", "%s, of material %d, has material %d now, %s", ent_name(m.dim, e.ref, m).c_str(), g, e.gent, both ? "as have cells of other materials" : "but not all of that material"); break; }
      }
      // the classification it derives: on a cell's model entity what only cells of one material surround, on the
      // boundary of one what lies on the boundary of the mesh or between materials
      if (fo == V_MSTK && !faults && P("oclass", 3) && (n == 1 || (!par && fi != V_EXO && P("opart") % 3 == 0)) && !(fi == V_MSTK && P("classn"))) {   // it keeps what is given (and an input that cannot be opened at first is read as one of several)
        count("op.classification_checked");
        std::vector<std::set<int>> around[3]; std::vector<char> bnd[3];
        std::vector<int> nc((size_t)m.n(m.dim - 1), 0);
        for (int k = 0; k < m.dim; k++) { around[k].resize((size_t)m.n(k)); bnd[k].assign((size_t)m.n(k), 0); }
        for (int c = 0; c < m.ncells(); c++) for (int k = 0; k < m.dim; k++) for (int q : m.down(m.dim, c, k)) { around[k][q].insert(m.gid[m.dim][c]); if (k == m.dim - 1) nc[q]++; }
        for (int q = 0; q < m.n(m.dim - 1); q++) if (nc[q] == 1) for (int k = 0; k < m.dim; k++) for (int j : m.down(m.dim - 1, q, k)) bnd[k][j] = 1;
        bool bad = false;
        for (int p = 0; p < n && !bad; p++) for (int k = 0; k < m.dim && !bad; k++) for (auto &e : t[p].e[k]) {
          if (e.ref < 0 || around[k][e.ref].empty()) continue;
          bool in = !bnd[k][e.ref] && around[k][e.ref].size() == 1, cut = split;
          if ((e.gdim == m.dim) != in && !(in && cut) || e.gdim < k || e.gdim > m.dim) { violate(PR, "classification", "%s, %s, is classified on a model entity of dimension %d", ent_name(k, e.ref, m).c_str(), bnd[k][e.ref] ? "on the boundary of the mesh" : in ? "surrounded by cells of one material" : "between materials", e.gdim); bad = true; break; }
          if (in && e.gdim == m.dim && !cut && e.gent != (of.count({0, *around[k][e.ref].begin()}) ? of[{0, *around[k][e.ref].begin()}] : e.gent)) { violate(PR, "classification", "%s, surrounded by cells of material %d, is classified on model entity %d", ent_name(k, e.ref, m).c_str(), *around[k][e.ref].begin(), e.gent); bad = true; break; }
        }
      }
      for (auto &z : t) mix_result(snap_hash(z));
    });
    MESH_Delete(b);
  });
}
static Reg reg({"convert", gen_convert, run_convert});
