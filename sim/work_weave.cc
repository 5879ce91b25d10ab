// Workload "weave": every rank builds its own part of a mesh, the parts are woven together.
#include "work.h"
#include <cstdio>
#include <algorithm>

VI own_parts(const RefMesh &m, int n, int mode, uint64_t seed) {
  int nc = m.ncells();
  VI part(nc, 0);
  Rng g(seed);
  std::vector<XYZ> c(nc);
  for (int i = 0; i < nc; i++) { c[i] = {{0, 0, 0}}; for (int v : m.cellverts[i]) for (int d = 0; d < 3; d++) c[i][d] += m.xyz[v][d] / m.cellverts[i].size(); }
  if (mode == 0) {                          // Voronoi regions of random seeds
    VI s; for (int r = 0; r < n; r++) s.push_back((int)g.range(0, nc - 1));
    for (int i = 0; i < nc; i++) {
      double b = 1e300;
      for (int r = 0; r < n; r++) { double q = 0; for (int d = 0; d < 3; d++) q += (c[i][d] - c[s[r]][d]) * (c[i][d] - c[s[r]][d]); if (q < b) { b = q; part[i] = r; } }
    }
  } else if (mode == 1) {                   // slabs
    int ax = (int)g.range(0, m.dim - 1);
    VI o; for (int i = 0; i < nc; i++) o.push_back(i);
    std::sort(o.begin(), o.end(), [&](int a, int b) { return c[a][ax] != c[b][ax] ? c[a][ax] < c[b][ax] : a < b; });
    for (int i = 0; i < nc; i++) part[o[i]] = (int)((long)i * n / nc);
  } else if (mode == 2) {                   // scattered
    for (int i = 0; i < nc; i++) part[i] = (int)g.range(0, n - 1);
  } else {                                  // some processes without cells
    int keep = (int)g.range(1, std::max(1, n - 1));
    VI rs; for (int r = 0; r < n; r++) rs.push_back(r);
    for (int i = n; i > 1; i--) std::swap(rs[i - 1], rs[g.range(0, i - 1)]);
    VI s; for (int r = 0; r < keep; r++) s.push_back((int)g.range(0, nc - 1));
    for (int i = 0; i < nc; i++) {
      double b = 1e300;
      for (int r = 0; r < keep; r++) { double q = 0; for (int d = 0; d < 3; d++) q += (c[i][d] - c[s[r]][d]) * (c[i][d] - c[s[r]][d]); if (q < b) { b = q; part[i] = rs[r]; } }
    }
  }
  if (mode != 3 && seed % 3 == 0) {         // another numbering of the parts
    VI rs; for (int r = 0; r < n; r++) rs.push_back(r);
    for (int i = n; i > 1; i--) std::swap(rs[i - 1], rs[g.range(0, i - 1)]);
    for (int &p : part) p = rs[p];
  }
  return part;
}
void gen_weave(Rng &g, Params &p, const std::string &prop, bool thorough) {
  int n = (int)(g.chance(15) ? g.range(5, 8) : g.range(2, 4));
  if (g.chance(3)) n = 1;
  if (g.chance(2)) n = (int)g.range(9, 16);
  p.set("n", n);
  gen_mesh_params(g, p, thorough ? 64 : 30); gen_mesh_extra(g, p, thorough ? 64 : 30);
  if (p.get("ctype") == 4 && p.get("dim") == 2) p.set("ctype", 3);    // an edge of three faces cannot be told from an inner one by a process that has two of them
  while (p.get("nx") * p.get("ny") * std::max(1L, p.get("nz")) < n) p.set("nx", p.get("nx") + 1);
  p.set("wtype", g.range(0, 2));
  p.set("wmode", g.chance(15) ? 3 : g.range(0, 2));
  p.set("wseed", g.range(1, 1000000));
  p.set("wflip", g.range(0, 1));
  p.set("ring", g.chance(90) ? 1 : 0);
  p.set("rep", g.chance(20));
  p.set("shuffle", g.chance(70) ? g.range(1, 1000) : 0);
  gen_net(g, p);
}
Mesh_ptr do_weave(const RefMesh &m, int rank, const VI &part) {
  int n = (int)P("n", 2);
  VI mine;
  for (int c = 0; c < m.ncells(); c++) if (part[c] == rank) mine.push_back(c);
  set_where("build");
  Built b = build(m, &mine, P("rep") ? F4 : F1, P("shuffle") ? (uint64_t)(P("shuffle") * 100 + rank) : 0, P("with_attr"), P("wflip"));
  int type = (int)P("wtype");
  if (type == 1) {                          // unique vertex IDs known beforehand, in no particular order
    for (int v = 0; v < m.n(0); v++) if (b.h[0][v]) MV_Set_GlobalID(b.h[0][v], 1 + (int)(((uint64_t)v * 7919 + (uint64_t)P("wseed")) % (uint64_t)(P("wseed") % 2 ? 10007 : 4099)));
  } else if (type == 2) {                   // shared vertices and their masters known 
    set_where("neighbour info");
    MESH_Set_Prtn(b.mesh, rank, n);
    std::vector<std::set<int>> hold(m.n(0));
    for (int c = 0; c < m.ncells(); c++) for (int v : m.cellverts[c]) hold[v].insert(part[c]);
    for (int v = 0; v < m.n(0); v++) if (b.h[0][v] && hold[v].size() > 1) {
      int ow = *hold[v].begin();
      bool pre = P("wseed") % 2;            // with or without the labels of the vertices themselves
      if (ow != rank) {
        if (pre) { MV_Set_PType(b.h[0][v], PGHOST); MV_Set_MasterParID(b.h[0][v], ow); }
        // all neighbours: every lower process sharing the vertex
        for (int q : hold[v]) if (q < rank) {
          MESH_Flag_Has_Ghosts_From_Prtn(b.mesh, q, MVERTEX);
          MESH_Flag_Has_Ghosts_From_Prtn(b.mesh, q, MEDGE);
          if (m.dim == 3) MESH_Flag_Has_Ghosts_From_Prtn(b.mesh, q, MFACE);
        }
      } else if (pre) { MV_Set_PType(b.h[0][v], POVERLAP); MV_Set_MasterParID(b.h[0][v], rank); }
    }
    MESH_Get_OverlapAdj_From_GhostAdj(b.mesh, group_comm());
  }
  set_where("MSTK_Weave_DistributedMeshes");
  int ok = MSTK_Weave_DistributedMeshes(b.mesh, m.dim, (int)P("ring", 1), type, group_comm());
  if (ok != 1) die("C05", "fatal", "MSTK_Weave_DistributedMeshes returned %d", ok);
  return b.mesh;
}
static void run_weave() {
  RefMesh m = ref_from_params();
  int n = (int)P("n", 2);
  VI part = own_parts(m, n, (int)P("wmode"), (uint64_t)P("wseed"));
  std::vector<Snap> s(n);
  run_ranks(n, [&](int r) {
    Mesh_ptr mine = do_weave(m, r, part);
    s[r] = snapshot(mine, m, SN_UP | SN_LOOKUP);
    sync([&]() {
      OracleOpt o;
      o.ring = (int)P("ring", 1); o.p1 = o.p2 = o.p3 = "C05"; o.pb = false; o.ovl = o.ring; o.edge_order = !P("wflip"); o.loops = !P("wflip") || m.dim == 2;
      check_conserve(m, s, o);
      for (int c = 0; c < m.ncells(); c++) { const Ent *e = s[part[c]].byref(m.dim, c); if (!e || e->pt == PGHOST) violate("C05", "cell_ownership", "process %d does not own %s any more", part[c], ent_name(m.dim, c, m).c_str()); }
      check_owner(m, s, o);
      check_ghost(m, s, o);
      for (auto &x : s) mix_result(snap_hash(x));
      char b[200];
      Dist d = derive(m, s);
      int multi = 0; for (auto &c : d.copies[0]) multi = std::max(multi, (int)c.size());
      snprintf(b, sizeof b, "weave dim%d ctype%ld n%ld type%ld mode%ld ring%ld rep%ld flip%ld maxcopies%d", m.dim, P("ctype"), P("n"), P("wtype"), P("wmode"), P("ring"), P("rep"), P("wflip"), multi);
      probe(b);
      count("op.weave");
    });
  });
}
static Reg reg({"weave", gen_weave, run_weave});
