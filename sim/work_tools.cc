// Workload "tools": the programs mkstruc, tri2quad and tet2hex make a mesh or split the cells of one, and exoatt
// adds attributes and sets to one, while storing or reading files may fail.
#include "work.h"
#include "io.h"
#include <cstdio>
#include <cmath>
#include <algorithm>
extern "C" { int mkstruc_main(int, char **); int tri2quad_main(int, char **); int tet2hex_main(int, char **); int exoatt_main(int, char **); }
static const char *PR = "C28";
enum { T_STRUC, T_TRI, T_TET, T_ATT };
static const char *pname[] = {"mkstruc", "tri2quad", "tet2hex", "exoatt"}, *ext[] = {"mstk", "gmv", "exo", "vtk", "dx", "off"}, *impfmt[] = {"mstk", "gmv", "exodusii"};
static void gen_tools(Rng &g, Params &p, const std::string &prop, bool thorough) {
  int prog = (int)g.range(0, 3);
  p.set("prog", prog); p.set("n", 1); p.set("rep", 0);
  if (prog == T_STRUC) {
    p.set("nx", g.range(1, 6)); p.set("ny", g.range(1, 6)); p.set("nz", g.chance(50) ? 0 : g.range(1, 5));
    for (const char *c : {"x0", "y0", "z0"}) p.set(c, g.range(-9, 9));
    for (const char *c : {"dx", "dy", "dz"}) p.set(c, g.range(1, 40));
    p.set("seed", g.range(1, 1000000000));
  } else {
    gen_mesh_params(g, p, thorough ? 40 : 20, "", prog == T_TRI ? 2 : prog == T_TET ? 3 : 0);
    if (prog != T_ATT && !g.chance(12)) p.set("ctype", prog == T_TRI ? 1 : 2);
    gen_exo_common(g, p);
    p.set("zoff", 0); p.set("geosets", 0); p.set("names", 1);
    if (prog == T_ATT) { p.set("natt", g.range(0, 5)); p.set("nset", g.range(0, 5)); p.set("infmt", 2); p.set("outfmt", 2); p.set("ucase", g.range(0, 3)); if (g.chance(15)) p.set("cut", g.range(1, 1000000)); }
    else { p.set("natt", 0); p.set("nset", 0); p.set("infmt", g.range(0, 2)); p.set("outfmt", g.chance(6) ? g.range(3, 5) : g.range(0, 2)); }
    p.set("shuffle", g.chance(70) ? g.range(1, 1000) : 0);
  }
  if (g.chance(35)) {
    p.set("fault", g.range(0, 6)); p.set("at_ppm", g.chance(25) ? (g.chance(50) ? 0 : 999999) : g.range(0, 999999)); p.set("lost", g.chance(50) ? 1 : g.range(1, 5000)); p.set("sticky", g.range(0, 1));
    if (p.get("outfmt") == 2 && p.get("fault") == 4) p.set("fault", 0);            // netCDF's own close does not tell
  }
  gen_net(g, p, 0);
  if (g.chance(40) && p.get("infmt") != 2 && p.get("outfmt") != 2) p.set("shortw", g.range(5, 100));
  if (g.chance(40) && p.get("infmt") != 2 && p.get("outfmt") != 2) p.set("shortr", g.range(5, 100));
}
// a mesh of given cells: loops of each, seen from outside in 3D
static RefMesh assemble(int dim, const std::vector<XYZ> &X, const std::vector<std::vector<VI>> &cells, const VI &cellgid) {
  RefMesh m; m.dim = dim; m.xyz = X;
  std::map<std::pair<int, int>, int> em; std::map<VI, int> fm;
  for (size_t c = 0; c < cells.size(); c++) {
    VI rf, rd;
    for (auto &l : cells[c]) {
      VI s = l; std::sort(s.begin(), s.end());
      auto it = fm.find(s);
      if (it == fm.end()) {
        VI fe;
        for (size_t i = 0; i < l.size(); i++) {
          auto k = std::make_pair(std::min(l[i], l[(i + 1) % l.size()]), std::max(l[i], l[(i + 1) % l.size()]));
          auto e = em.emplace(k, (int)m.edges.size());
          if (e.second) m.edges.push_back({{k.first, k.second}});
          fe.push_back(e.first->second);
        }
        rf.push_back(fm[s] = (int)m.faces.size()); rd.push_back(1);
        m.faces.push_back(l); m.fedges.push_back(fe);
      } else { rf.push_back(it->second); rd.push_back(same_cycle(m.faces[it->second], l) ? 1 : 0); }
    }
    if (dim == 3) { m.rfaces.push_back(rf); m.rdirs.push_back(rd); }
  }
  for (int k = 0; k < 4; k++) { m.gdim[k].assign((size_t)m.n(k), 4); m.gid[k].assign((size_t)m.n(k), 0); }
  for (size_t c = 0; c < cells.size(); c++) { m.gdim[dim][c] = dim; m.gid[dim][c] = cellgid[c]; }
  m.reindex();
  return m;
}
static XYZ centre(const RefMesh &m, const VI &v) {
  XYZ x = {{0, 0, 0}};
  for (int q : v) for (int d = 0; d < 3; d++) x[d] += m.xyz[q][d];
  for (auto &c : x) c /= (double)v.size();
  return x;
}
// every corner of every cell becomes a quadrilateral or a hexahedron
static RefMesh split(const RefMesh &m) {
  std::vector<XYZ> X = m.xyz; VI gd = m.gdim[0], gi = m.gid[0];
  int at[4] = {0, 0, 0, 0};
  for (int k = 1; k <= m.dim; k++) { at[k] = (int)X.size(); for (int i = 0; i < m.n(k); i++) { X.push_back(centre(m, m.verts(k, i))); gd.push_back(m.gdim[k][i]); gi.push_back(m.gid[k][i]); } }
  std::vector<std::vector<VI>> cells; VI cg;
  auto mid = [&](int f, size_t i) { return at[1] + m.fedges[f][i]; };              // of the loop's i-th edge
  if (m.dim == 2) {
    for (int f = 0; f < m.n(2); f++) for (size_t i = 0; i < 3; i++) {
      cells.push_back({{m.faces[f][i], mid(f, i), at[2] + f, mid(f, (i + 2) % 3)}});
      cg.push_back(m.gid[2][f]);
    }
  } else for (int r = 0; r < m.n(3); r++) for (int a : m.verts(3, r)) {
    std::vector<VI> q; std::map<int, std::pair<int, int>> through;                   // edge midpoint: the face left to it and the face right to it
    for (size_t j = 0; j < m.rfaces[r].size(); j++) {
      int f = m.rfaces[r][j];
      size_t i = 0;
      while (i < 3 && m.faces[f][i] != a) i++;
      if (i == 3) continue;
      int nx = mid(f, i), pv = mid(f, (i + 2) % 3);
      if (!m.rdirs[r][j]) std::swap(nx, pv);
      q.push_back({a, nx, at[2] + f, pv});
      through[nx].first = at[2] + f; through[pv].second = at[2] + f;
    }
    for (auto &t : through) q.push_back({t.second.first, t.first, t.second.second, at[3] + r});
    cells.push_back(q); cg.push_back(m.gid[3][r]);
  }
  RefMesh s = assemble(m.dim, X, cells, cg);
  s.gdim[0] = gd; s.gid[0] = gi;
  return s;
}
static RefMesh grid(int nx, int ny, int nz, const double *lo, const double *hi, std::map<std::pair<int, int>, int> &side) {
  std::vector<XYZ> X; std::vector<std::vector<VI>> cells;
  int dim = nz ? 3 : 2, N[3] = {nx, ny, nz};
  auto at = [&](int i, int j, int k) { return i + (nx + 1) * (j + (ny + 1) * k); };
  for (int k = 0; k <= nz; k++) for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) {
    int I[3] = {i, j, k}; XYZ x = {{0, 0, 0}};
    for (int d = 0; d < dim; d++) x[d] = lo[d] + (hi[d] - lo[d]) * I[d] / N[d];
    X.push_back(x);
  }
  for (int k = 0; k < std::max(nz, 1); k++) for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
    if (dim == 2) { cells.push_back({{at(i, j, 0), at(i + 1, j, 0), at(i + 1, j + 1, 0), at(i, j + 1, 0)}}); continue; }
    int v[8] = {at(i, j, k), at(i + 1, j, k), at(i + 1, j + 1, k), at(i, j + 1, k), at(i, j, k + 1), at(i + 1, j, k + 1), at(i + 1, j + 1, k + 1), at(i, j + 1, k + 1)};
    cells.push_back({{v[0], v[3], v[2], v[1]}, {v[4], v[5], v[6], v[7]}, {v[0], v[1], v[5], v[4]}, {v[1], v[2], v[6], v[5]}, {v[2], v[3], v[7], v[6]}, {v[3], v[0], v[4], v[7]}});
  }
  RefMesh m = assemble(dim, X, cells, VI(cells.size(), 1));
  // which side, edge or corner of the box an entity lies on: per direction 0 within, 1 the low and 2 the high end
  for (int k = 0; k <= dim; k++) for (int i = 0; i < m.n(k); i++) {
    int code = 0, gd = dim;
    VI vs = m.verts(k, i);
    for (int d = 0, w = 1; d < dim; d++, w *= 3) {
      int lohi = 0;
      for (int e = 0; e < 2; e++) { bool all = true; for (int v : vs) { int I[3] = {v % (nx + 1), v / (nx + 1) % (ny + 1), v / (nx + 1) / (ny + 1)}; all = all && I[d] == (e ? N[d] : 0); } if (all) lohi = 1 + e; }
      if (lohi) { gd--; code += w * lohi; }
    }
    m.gdim[k][i] = gd; side[{k, i}] = code;
  }
  return m;
}
// what exoatt is to add, as text; numbers: those of the mesh in the file, per kind and entity
static std::string att_text(const RefMesh &m, const VI *num) {
  std::string t = std::to_string(m.atts.size()) + "\n";
  char b[80];
  static const char *node[] = {"NODE", "node", "nodE"}, *cell[] = {"CELL", "cell", "ceLL"};
  for (size_t a = 0; a < m.atts.size(); a++) {
    auto &d = m.atts[a]; int k = d.entdim, n = 0; bool all = true;
    std::vector<double> v;
    for (int i = 0; i < m.n(k); i++) if (m.att((int)a, i, v)) n++; else all = false;
    all = all && (P("shuffle") + a) % 2;
    t += d.name + " " + (k ? cell : node)[P("ucase") % 3] + " " + std::to_string(all ? -1 : n) + "\n";
    std::vector<std::pair<int, int>> o;
    for (int i = 0; i < m.n(k); i++) o.push_back({num[k][i], i});
    std::sort(o.begin(), o.end());
    if (!all && a % 2) std::reverse(o.begin(), o.end());
    for (auto &x : o) if (m.att((int)a, x.second, v)) { snprintf(b, sizeof b, "%.17g%s", v[0], x.first % 3 ? " " : "\n"); t += (all ? "" : std::to_string(x.first) + " ") + b; }
    t += "\n";
  }
  return t;
}
static std::string set_text(const RefMesh &m, const VI *num) {
  std::string t = std::to_string(m.sets.size()) + "\n";
  static const char *kind[] = {"NODE", "FACE", "CELL", "node", "Face", "cell"};
  for (size_t q = 0; q < m.sets.size(); q++) {
    auto &d = m.sets[q]; int k = d.entdim, n = 0;
    for (int i = 0; i < m.n(k); i++) n += m.inset((int)q, k, i);
    t += d.name.substr(d.name.find('_') + 1) + " " + kind[(k == 0 ? 0 : k == m.dim ? 2 : 1) + (P("ucase") == 2 ? 3 : 0)] + " " + std::to_string(n) + "\n";
    for (int i = 0; i < m.n(k); i++) if (m.inset((int)q, k, i)) {
      if (k == 0 || k == m.dim) t += std::to_string(num[k][i]);
      else {
        VI vs = k == 1 ? m.verts(1, i) : m.faces[i];
        if (k == 2) t += std::to_string(vs.size());
        for (int v : vs) t += " " + std::to_string(num[0][v]);
      }
      t += "\n";
    }
  }
  return t;
}
static void run_tools() {
  int prog = (int)P("prog"), fi = (int)P("infmt"), fo = (int)P("outfmt");
  bool hasfault = P("fault", -1) >= 0;
  RefMesh m, want; std::map<std::pair<int, int>, int> side;
  double lo[3], hi[3];
  const char *c0[] = {"x0", "y0", "z0"}, *c1[] = {"dx", "dy", "dz"};
  bool refuse = false;
  if (prog == T_ATT) {
    m = exo_ref();
    if (fi != 2 || fo != 2 || P("fault") == 4 || P("shortr") || P("shortw") || P("geosets")) stop_run("skip: not generated");
    for (auto &d : m.atts) { d.type = DOUBLE; d.ncomp = 1; }
    std::set<std::string> nm;
    for (size_t a = 0; a < m.atts.size(); a++) {
      bool any = false; std::vector<double> v;
      for (int i = 0; i < m.n(m.atts[a].entdim); i++) any = any || m.att((int)a, i, v);
      if (!any || !nm.insert(m.atts[a].name).second) stop_run("skip: an attribute without values");
    }
    for (size_t q = 0; q < m.sets.size(); q++) {
      bool any = false;
      for (int i = 0; i < m.n(m.sets[q].entdim); i++) any = any || m.inset((int)q, m.sets[q].entdim, i);
      if (!any) m.sets[q].more.insert((int)(P("attseed") % m.n(m.sets[q].entdim)));
    }
    want = m;
  } else if (prog == T_STRUC) {
    if (P("nx") < 1 || P("ny") < 1 || fi || fo) stop_run("skip: not generated");
    for (int d = 0; d < 3; d++) { lo[d] = (double)P(c0[d]) / 4; hi[d] = lo[d] + (double)std::max(1L, P(c1[d])) / 8; }
    want = grid((int)P("nx"), (int)P("ny"), (int)P("nz"), lo, hi, side);
  } else {
    m = exo_ref();
    for (auto &x : m.xyz) for (auto &c : x) c = std::round(c * 1024) / 1024;
    m.reindex();
    if ((int)m.vkey.size() != m.n(0)) stop_run("skip: coinciding vertices");
    if (m.dim != (prog == T_TRI ? 2 : 3) || P("natt") || P("nset") || (fo == 2 && P("fault") == 4) || ((fi == 2 || fo == 2) && (P("shortr") || P("shortw")))) stop_run("skip: not generated");
    for (auto &f : m.faces) refuse = refuse || f.size() != 3;
    refuse = refuse || fo > 2;
    if (!refuse) want = split(m);
  }
  if ((int)want.vkey.size() != want.n(0)) stop_run("skip: coinciding vertices");
  std::string in = std::string("simfs_in.") + ext[fi], out = std::string("simfs_out.") + ext[fo];
  run_ranks(1, [&](int) {
    std::vector<std::string> a = {pname[prog]};
    if (prog == T_STRUC) {
      char b[40]; int dim = P("nz") ? 3 : 2;
      for (int e = 0; e < 2; e++) for (int d = 0; d < dim; d++) { snprintf(b, sizeof b, "%.10g", e ? hi[d] : lo[d]); a.push_back(b); }
      for (const char *c : {"nx", "ny", "nz"}) if (*(c + 1) != 'z' || dim == 3) a.push_back(std::to_string(P(c)));
    } else {
      set_where("build");
      Built b = build(m, nullptr, F1, (uint64_t)P("shuffle"), prog != T_ATT);
      set_where("write the input");
      std::vector<char> nm(in.begin(), in.end()); nm.push_back(0);
      int ok = MESH_ExportToFile(b.mesh, nm.data(), impfmt[fi], 0, nullptr, nullptr, (MSTK_Comm)0);
      if (ok != 1) die("C25", "write_failed", "MESH_ExportToFile returns %d although nothing failed", ok);
      MESH_Delete(b.mesh);
      if (prog == T_ATT) {
        Mesh_ptr b2 = MESH_New(F1);
        if (MESH_ImportFromFile(b2, nm.data(), "exodusii", nullptr, (MSTK_Comm)0) != 1) die("C19", "read_failed", "the input cannot be read although nothing failed");
        Snap z = snapshot(b2, m, 0);
        VI num[4];
        for (int k = 0; k <= m.dim; k++) { num[k].assign((size_t)m.n(k), 0); for (auto &e : z.e[k]) if (e.ref >= 0) num[k][e.ref] = e.lid; }
        MESH_Delete(b2);
        std::string at = att_text(m, num), st = set_text(m, num);
        // one of the files is cut off: before the last number
        if (P("cut")) {
          std::string &x = !m.atts.empty() && (m.sets.empty() || P("cut") % 2) ? at : st;
          size_t e = x.find_last_not_of(" \n"), b0 = x.find_last_of(" \n", e);
          if (b0 == std::string::npos) stop_run("skip: nothing to cut");
          x.resize(P("cut") % 4 < 2 ? b0 : (size_t)P("cut") * b0 / 1000000); refuse = true;
        }
        if (!m.atts.empty()) { io_put("simfs_att.txt", at); a.push_back("--attfile=simfs_att.txt"); }
        if (!m.sets.empty()) { io_put("simfs_set.txt", st); a.push_back("--setfile=simfs_set.txt"); }
      }
      a.push_back(in);
    }
    a.push_back(out);
    std::vector<std::vector<char>> st; std::vector<char *> av;
    for (auto &x : a) { st.emplace_back(x.begin(), x.end()); st.back().push_back(0); }
    for (auto &x : st) av.push_back(x.data());
    av.push_back(nullptr);
    IoPlan q; q.shortw = (int)P("shortw"); q.shortr = (int)P("shortr");
    long at = P("at_ppm");
    if (hasfault) switch (P("fault")) {
      case 0: case 1: q.enospc_at = (long)(30000.0 * (double)at / 1e6 * (double)at / 1e6); break;
      case 2: q.wr_fail = at % 12; q.sticky = P("sticky"); break;
      case 3: q.open_fail = at % 3; break;
      case 4: q.close_fail = at % 3; q.lost = P("lost", 1); break;
      case 5: q.rd_fail = at % 12; q.sticky = true; break;
      default: q.enospc_at = 0; break;
    }
    io_plan() = q; io_reset_stat();
    set_where(pname[prog]);
    exit_filter = [&](int c) { if (refuse && c != 0) count("op.refused"); return (io_stat(0).faults || refuse) && c != 0; };
    int ret = (prog == T_STRUC ? mkstruc_main : prog == T_TRI ? tri2quad_main : prog == T_TET ? tet2hex_main : exoatt_main)((int)a.size(), av.data());
    exit_filter = nullptr;
    long faults = io_stat(0).faults;
    io_plan() = IoPlan();
    if (ret && !faults && !refuse) violate(PR, "status", "%s ends with %d although nothing failed", pname[prog], ret);
    if (ret) stop_run("reported");
    if (io_open_fds && !(fi == 2 && faults) && prog != T_ATT) violate(PR, "left_open", "%d files are still open", io_open_fds);
    if (refuse) { violate(PR, "silent", "%s reports success, but the %s", pname[prog], prog == T_ATT ? "file of attributes or sets is cut off" : fo > 2 ? "file cannot be written in that format" : "mesh has other cells than it can split"); stop_run("not refused"); }
    if (faults) count("op.tool_fault");
    count(prog == T_STRUC ? "op.mkstruc" : prog == T_TRI ? "op.tri2quad" : prog == T_TET ? "op.tet2hex" : "op.exoatt");
    char b[120]; snprintf(b, sizeof b, "tools %d %d %d cells%d fault%d", prog, fi, fo, want.ncells(), faults > 0);
    probe(b);
    // what it wrote
    set_where("read the output");
    if (!io_exists(out)) { violate(PR, "silent", "%s reports success, but there is no file %s", pname[prog], out.c_str()); stop_run("no output"); }
    Mesh_ptr bk = MESH_New(F1);
    exit_filter = [&](int) { violate(PR, "silent", "%s reports success, but reading %s ends the program", pname[prog], out.c_str()); return true; };
    int ok = MESH_ImportFromFile(bk, out.c_str(), impfmt[fo], nullptr, (MSTK_Comm)0);
    exit_filter = nullptr;
    if (ok != 1) { violate(PR, "silent", "%s reports success, but %s cannot be read", pname[prog], out.c_str()); stop_run("unreadable output"); }
    if (prog == T_ATT) { std::vector<Snap> t = {snapshot(bk, m, SN_ATT | SN_UP)}; check_exo(m, t, PR, false); mix_result(snap_hash(t[0])); MESH_Delete(bk); return; }
    // the files have rounded coordinates
    std::vector<std::pair<double, int>> xs;
    for (int i = 0; i < want.n(0); i++) xs.push_back({want.xyz[i][0], i});
    std::sort(xs.begin(), xs.end());
    int idx = 0; MVertex_ptr mv; const double tol = 1e-7;
    while ((mv = MESH_Next_Vertex(bk, &idx))) {
      double x[3]; MV_Coords(mv, x);
      int hit = -1;
      for (auto it = std::lower_bound(xs.begin(), xs.end(), std::make_pair(x[0] - tol, -1)); it != xs.end() && it->first <= x[0] + tol; ++it)
        if (std::fabs(want.xyz[it->second][1] - x[1]) < tol && std::fabs(want.xyz[it->second][2] - x[2]) < tol) hit = it->second;
      if (hit < 0) { violate(PR, "garbled", "%s writes a vertex at (%.12g,%.12g,%.12g), where there should be none", pname[prog], x[0], x[1], x[2]); stop_run("other vertices"); }
      XYZ y = want.xyz[hit]; MV_Set_Coords(mv, y.data());
    }
    std::vector<Snap> t = {snapshot(bk, want, SN_ATT | SN_UP)};
    OracleOpt o; o.p1 = o.p2 = o.p3 = PR; o.edge_order = false; o.loops = want.dim == 2; o.pb = false; o.mink = want.dim; o.classn = fo != 1 && fi != 1;
    for (int k = 0; k <= want.dim; k++) if (k == 0 || k == want.dim || prog == T_STRUC) if ((int)t[0].e[k].size() != want.n(k)) violate(PR, "count", "%s writes %zu %ss, there should be %d", pname[prog], t[0].e[k].size(), kname(k), want.n(k));
    check_conserve(want, t, o);
    // vertices lie on the model entities of what they are the middle of
    if (prog != T_STRUC && fi == 0 && fo == 0) for (auto &e : t[0].e[0]) if (e.ref >= 0 && (e.gdim != want.gdim[0][e.ref] || e.gent != want.gid[0][e.ref])) {
      violate(PR, "classification", "%s %d is classified on model entity %d of dimension %d, should be on %d of dimension %d", kname(0), e.ref, e.gent, e.gdim, want.gid[0][e.ref], want.gdim[0][e.ref]); break;
    }
    // and in the box each side, edge and corner has a model entity of its own
    if (prog == T_STRUC) {
      std::map<std::pair<int, int>, int> of, back; bool bad = false;      // per dimension
      for (int k = 0; k <= want.dim && !bad; k++) for (auto &e : t[0].e[k]) if (e.ref >= 0) {
        int gd = want.gdim[k][e.ref], s = side[{k, e.ref}];
        if (e.gdim != gd) { violate(PR, "classification", "%s is classified on a model entity of dimension %d, should be %d", ent_name(k, e.ref, want).c_str(), e.gdim, gd); bad = true; break; }
        if (of.emplace(std::make_pair(gd, s), e.gent).first->second != e.gent || back.emplace(std::make_pair(gd, e.gent), s).first->second != s) { violate(PR, "classification", "%s is classified on model entity %d of dimension %d, other parts of that %s of the box on other ones, or those of others too", ent_name(k, e.ref, want).c_str(), e.gent, gd, gd == 0 ? "corner" : gd == 1 ? "edge" : gd == 2 ? "side" : "interior"); bad = true; break; }
      }
    }
    mix_result(snap_hash(t[0]));
    MESH_Delete(bk);
  });
}
static Reg reg({"tools", gen_tools, run_tools});
