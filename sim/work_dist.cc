// Workload "dist": rank 0 builds a mesh, it is distributed, everything is read back.
#include "work.h"
#include "io.h"
#include <cstdio>
extern "C" int MESH_WriteToFile(Mesh_ptr mesh, const char *filename, RepType rtype, MSTK_Comm comm);

void gen_net(Rng &g, Params &p, int level) {
  // swarm: each run turns on a random subset of the fault kinds
  p.set("heapfill", g.range(0, 4)); p.set("heapseed", g.range(1, 1000));
  p.set("stkfill", g.range(0, 3));
  p.set("rgarb", g.range(0, 3));
  if (level == 0) return;
  if (g.chance(60)) { p.set("lat_p", g.range(5, 90)); p.set("lat_us", g.chance(30) ? g.range(500, 5000) : g.range(5, 100)); }
  if (g.chance(60)) p.set("rdv_p", g.chance(40) ? 100 : g.range(5, 95));
  if (g.chance(40)) p.set("xfer_p", g.range(10, 90));
  if (g.chance(50)) { p.set("yield_p", g.range(5, 60)); p.set("yield_us", g.range(1, 40)); }
  if (g.chance(40)) { p.set("slow_rank", g.range(0, p.get("n", 2) - 1)); p.set("slow_p", g.range(20, 100)); p.set("slow_factor", g.range(5, 100)); }
  if (g.chance(50)) p.set("early_p", g.chance(40) ? 100 : g.range(10, 90));
  if (g.chance(50)) p.set("skew_p", g.range(10, 90));
  if (g.chance(40)) p.set("start_p", g.range(20, 100));
}
void gen_partition(Rng &g, Params &p, bool columns) {
  int n = (int)p.get("n");
  int m = columns && g.chance(15) ? 9 : (int)g.range(0, 9);
  p.set("method", 0);
  if (m < 2) p.set("pmode", 0);
  else if (m < 4) p.set("pmode", 1);
  else if (m < 5) p.set("pmode", 2);
  else if (m < 7) p.set("pmode", 3);
  else if (m < 8) p.set("pmode", 4);
  else if (m < 9) { p.set("method", 1); p.set("pmode", 0); }
  else {
    p.set("method", 2); p.set("pmode", 0); p.set("jit", 0); p.set("holes", 0); p.set("wrap", 0);
    if (p.get("dim") == 3) { if (g.chance(60)) p.set("jit", 2); p.set("ctype", g.range(0, 1)); if (p.get("nx") * p.get("ny") < 2 * n) { p.set("nx", 4); p.set("ny", 4); p.set("nz", g.range(1, 2)); } else if (g.chance(70)) { p.set("jit", 2); p.set("nx", 3); p.set("ny", std::max(3L, (2 * (long)n + 2) / 3)); p.set("nz", g.range(2, 5)); } }
    else { p.set("nx", n + g.range(0, 4)); p.set("ctype", g.range(0, 1)); }
  }
  p.set("pseed", g.range(1, 1000000));
}
void gen_dist(Rng &g, Params &p, const std::string &prop, bool thorough) {
  int n = (int)(g.chance(15) ? g.range(5, 8) : g.range(2, 4));
  if (g.chance(3)) n = 1;
  if (g.chance(2)) n = (int)g.range(9, 16);
  p.set("n", n);
  gen_mesh_params(g, p, thorough ? 64 : 30); gen_mesh_extra(g, p, thorough ? 64 : 30);
  // enough cells for every part
  while (p.get("nx") * p.get("ny") * std::max(1L, p.get("nz")) < 2 * n + 2) p.set("nx", p.get("nx") + 1);
  gen_partition(g, p, prop == "C01");
  if (prop == "C01" && p.get("method") == 2 && p.get("dim") == 3 && g.chance(50)) { p.set("n", n = (int)g.range(2, 4)); p.set("ny", 3); p.set("nx", 3); }
  p.set("rep", g.chance(20));
  p.set("ring", g.chance(80) ? 1 : 0);
  if (g.chance(20)) p.set("ring", 2 + g.chance(40));
  p.set("del", g.chance(30));
  p.set("shuffle", g.chance(70) ? g.range(1, 1000) : 0);
  bool at = prop == "C04" || g.chance(40);
  p.set("with_attr", at);
  if (at) { p.set("natt", g.range(prop == "C04" ? 1 : 0, 5)); p.set("nset", g.range(0, 4)); p.set("minc", g.range(1, 2)); p.set("attseed", g.range(1, 100000)); p.set("names", g.range(0, 3)); p.set("mixsets", g.range(0, 1)); if (g.chance(4)) { p.set("natt", g.range(6, 30)); p.set("nset", g.range(5, 20)); } }
  if (at && g.chance(12)) p.set("ptratt", g.range(1, 6));
  if (p.get("method") == 0 && g.chance(6)) { p.set("fromfile", 1); p.set("del", 1); p.set("nset", 0); p.set("rep", 0); p.set("ptratt", 0); }   // MSTK_Mesh_Read_Distribute
  gen_net(g, p);
}
// common: distribute; result in mymesh per rank
Mesh_ptr do_distribute(const RefMesh &m, int rank, Built *gb, Mesh_ptr *global) {
  Mesh_ptr gm = nullptr, mine = nullptr;
  int dim = m.dim;
  if (rank == 0) {
    set_where("build");
    Built b = build(m, nullptr, P("rep") ? F4 : F1, (uint64_t)P("shuffle"), P("with_attr"));
    gm = b.mesh;
    if (gb) *gb = b;
  } else dim = 0;
  if (P("fromfile")) {
    if (rank == 0) { set_where("MESH_WriteToFile"); if (MESH_WriteToFile(gm, "simfs_global.mstk", F1, (MSTK_Comm)0) != 1) die("C16", "write_failed", "writing the mesh to be distributed fails"); MESH_Delete(gm); }
    set_where("MSTK_Mesh_Read_Distribute");
    int ok = MSTK_Mesh_Read_Distribute(&mine, "simfs_global.mstk", &dim, (int)P("ring", 1), (int)P("with_attr", 0), (int)P("method", 0), group_comm());
    if (ok != 1) die("C01", "fatal", "MSTK_Mesh_Read_Distribute returned %d", ok);
    if (dim != m.dim) violate("C01", "garbled", "topological dimension %d returned, the mesh has %d", dim, m.dim);
    count("op.read_distribute");
    return mine;
  }
  set_where("MSTK_Mesh_Distribute");
  int ok = MSTK_Mesh_Distribute(gm, &mine, &dim, (int)P("ring", 1), (int)P("with_attr", 0), (int)P("method", 0), (int)P("del", 0), group_comm());
  if (ok != 1) die("C01", "fatal", "MSTK_Mesh_Distribute returned %d", ok);
  if (dim != m.dim) violate("C01", "garbled", "topological dimension %d returned, the mesh has %d", dim, m.dim);
  if (global) *global = P("del", 0) ? nullptr : gm;
  return mine;
}
RefMesh ref_from_params() {
  RefMesh m = make_ref(spec->p);
  add_atts_sets(m, spec->p);
  return m;
}
static void probe_dist(const RefMesh &m, const std::vector<Snap> &s) {
  Dist d = derive(m, s);
  int multi = 0;
  for (auto &c : d.copies[0]) multi = std::max(multi, (int)c.size());
  char b[200];
  snprintf(b, sizeof b, "dist dim%d ctype%ld n%ld method%ld pmode%ld ring%ld rep%ld maxcopies%d", m.dim, P("ctype"), P("n"), P("method"), P("pmode"), P("ring"), P("rep"), multi);
  probe(b);
}
// the partitioner for meshes of columns does not split a column
static void check_columns(const RefMesh &m, const std::vector<Snap> &s) {
  std::map<std::set<std::pair<double, double>>, int> col;
  for (size_t r = 0; r < s.size(); r++) for (auto &e : s[r].e[3]) {
    if (e.ref < 0 || e.pt == PGHOST) continue;
    std::set<std::pair<double, double>> k;
    for (int v : m.verts(3, e.ref)) k.insert({m.xyz[v][0], m.xyz[v][1]});
    auto it = col.insert({k, (int)r}).first;
    if (it->second != (int)r) { violate("C01", "column", "the column of %s is split between processes %d and %zu", ent_name(3, e.ref, m).c_str(), it->second, r); return; }
  }
  count("op.columns_checked");
}
void run_dist() {
  RefMesh m = ref_from_params();
  int n = (int)P("n", 2);
  if (m.ncells() < n) stop_run("skip: fewer cells than processes");
  std::vector<Snap> s(n);
  run_ranks(n, [&](int r) {
    Mesh_ptr mine = do_distribute(m, r);
    s[r] = snapshot(mine, m, SN_ATT | SN_UP | SN_LOOKUP);
    sync([&]() {
      OracleOpt o;
      o.ring = (int)P("ring", 1);
      check_conserve(m, s, o);
      if (P("method") == 2 && m.dim == 3) check_columns(m, s);
      check_owner(m, s, o);
      check_ghost(m, s, o);
      if (P("with_attr")) check_atts(m, s, "C04");
      for (auto &x : s) mix_result(snap_hash(x));
      probe_dist(m, s);
      count("op.distribute");
    });
    if (P("delete_end")) { set_where("MESH_Delete"); MESH_Delete(mine); }
  });
}
static Reg reg({"dist", gen_dist, run_dist});
