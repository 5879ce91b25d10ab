// Exodus II files: decorating a reference mesh with what the format can hold, comparing what was
// read, and workload "exo": every process writes its part, all read their parts again.
#include "work.h"
#include "io.h"
#include <cstdio>
#include <cstring>
#include <algorithm>

void exo_decorate(RefMesh &m) {
  int nb = (int)std::max(1L, P("nblk", 1)), na = (int)P("natt"), ns = (int)P("nset");
  Rng g((uint64_t)P("attseed", 1) * 31 + 7);
  VI ids; for (int b = 0; b < nb; b++) { int id; do id = (int)g.range(1, P("bigids") ? 100000 : 9); while (std::count(ids.begin(), ids.end(), id)); ids.push_back(id); }
  for (int i = 0; i < m.ncells(); i++) { m.gdim[m.dim][i] = m.dim; m.gid[m.dim][i] = ids[(size_t)g.range(0, nb - 1)]; }
  if (P("bykind")) {                     // blocks of cells of one shape
    std::map<std::pair<size_t, size_t>, int> kind;
    for (int i = 0; i < m.ncells(); i++) {
      auto e = kind.emplace(std::make_pair(m.dim == 3 ? m.rfaces[i].size() : 0, m.cellverts[i].size()), (int)kind.size());
      m.gid[m.dim][i] = ids[0] + 20 * e.first->second;
    }
  }
  m.attseed = (uint64_t)P("attseed", 1); m.attscale = (int)P("attscale"); m.attcut = (int)P("attcut");
  m.atts.clear(); m.sets.clear();
  static const char *pat[] = {"a%d", "attribute_%d", "x y %d", "a_fairly_long_name_%d", "a_rather_long_attribute_name_no_%d"};
  for (int a = 0; a < na; a++) {
    AttDef d;
    static const int ty[] = {DOUBLE, VECTOR, TENSOR};
    d.type = ty[g.range(0, 2)];
    d.entdim = g.chance(50) ? 0 : m.dim;
    d.ncomp = d.type == DOUBLE ? 1 : (int)g.range(1, P("manyc") ? 12 : 6);
    char b[64]; snprintf(b, sizeof b, pat[P("names") % 5], a + (int)g.range(0, 3) * 100);
    d.name = b;
    m.atts.push_back(d);
  }
  std::set<std::string> used;
  for (int s = 0; s < ns; s++) {
    SetDef d;
    int k = (int)g.range(0, 2);
    char b[64];
    do snprintf(b, sizeof b, "%s_%d", k == 0 ? "nodeset" : k == 1 ? "sideset" : "elemset", (int)g.range(1, P("bigids") ? 1000000 : 20)); while (used.count(b));
    used.insert(b);
    d.name = b; d.entdim = k == 0 ? 0 : k == 1 ? m.dim - 1 : m.dim;
    m.sets.push_back(d);
  }
}
// every process' part as read; owned: only what the cells of this process' own file can tell
// "geometry sets": the exporter adds sets of the vertices and sides classified on each model entity of the boundary
static RefMesh with_geosets(const RefMesh &m0) {
  RefMesh m = m0;
  for (int k : {0, m.dim - 1}) for (int i = 0; i < m.n(k); i++) {
    int gd = m.gdim[k][i], gi = m.gid[k][i];
    if (k == 0 ? gd >= 2 : m.dim == 3 ? gd == 3 : gd != 1) continue;
    std::string nm = std::string(k ? "sideset_" : "nodeset_") + std::to_string(k ? gi : gd * 10000 + gi);
    size_t q = 0;
    while (q < m.sets.size() && m.sets[q].name != nm) q++;
    if (q == m.sets.size()) { SetDef d; d.name = nm; d.entdim = k; d.hashed = false; m.sets.push_back(d); }
    m.sets[q].more.insert(i);
  }
  count("op.geometry_sets");
  return m;
}
void check_exo(const RefMesh &m0, const std::vector<Snap> &s, const char *prop, bool par, bool onesided) {
  const RefMesh m = P("geosets") ? with_geosets(m0) : m0;
  OracleOpt o; o.p1 = prop; o.edge_order = false; o.loops = m.dim == 2; o.mink = m.dim;
  std::vector<Snap> t = s;
  for (auto &x : t) { x.atts.clear(); x.sets.clear(); }
  check_conserve(m, t, o);
  for (size_t r = 0; r < s.size(); r++) {
    char pr[40] = ""; if (par) snprintf(pr, sizeof pr, "process %zu: ", r);
    std::set<int> mine[4];
    for (auto &e : s[r].e[m.dim]) if (e.ref >= 0 && e.pt != PGHOST) for (int k = 0; k <= m.dim; k++) for (int i : m.down(m.dim, e.ref, k)) mine[k].insert(i);
    for (size_t a = 0; a < m.atts.size(); a++) {
      auto &d = m.atts[a];
      int f = -1;
      for (size_t x = 0; x < s[r].atts.size(); x++) if (s[r].atts[x].name == d.name) f = (int)x;
      if (f < 0) { violate(prop, "att_list", "%sthe mesh read lacks the attribute %s", pr, d.name.c_str()); continue; }
      auto &q = s[r].atts[f];
      if ((q.type == DOUBLE) != (d.type == DOUBLE) || (q.type == INT) != (d.type == INT) || q.type == POINTER || q.entdim != d.entdim || q.ncomp != d.ncomp) { violate(prop, "att_list", "%sattribute %s (type %d, on %d, %d components) is read with type %d, entity dimension %d, %d components", pr, d.name.c_str(), d.type, d.entdim, d.ncomp, q.type, q.entdim, q.ncomp); continue; }
      for (auto &e : s[r].e[d.entdim]) {
        if (e.ref < 0 || !mine[d.entdim].count(e.ref)) continue;
        std::vector<double> v;
        if (!m.att((int)a, e.ref, v)) v.assign((size_t)d.ncomp, 0.0);
        if (e.atts[f] != v) { violate(prop, "att_value", "%sattribute %s (type %d) of %s is read as %.17g, written was %.17g (component 0 of %d)", pr, d.name.c_str(), d.type, ent_name(d.entdim, e.ref, m).c_str(), e.atts[f].empty() ? -0.5 : e.atts[f][0], v[0], d.ncomp); break; }
      }
    }
    for (auto &y : s[r].sets) {
      bool known = !(y.name.compare(0, 8, "nodeset_") == 0 || y.name.compare(0, 8, "sideset_") == 0 || y.name.compare(0, 8, "elemset_") == 0);
      for (auto &d : m.sets) known |= d.name == y.name;
      if (!known) { violate(prop, "set_list", "%sthe mesh read has the set %s, which was not written", pr, y.name.c_str()); break; }
    }
    for (size_t q = 0; q < m.sets.size(); q++) {
      auto &d = m.sets[q];
      int f = -1;
      for (size_t x = 0; x < s[r].sets.size(); x++) if (s[r].sets[x].name == d.name) f = (int)x;
      std::set<int> want, have;
      int k = d.entdim;
      std::map<int, int> uses;            // partial reader: a side between processes may be listed for either of its cells
      if (onesided && k == m.dim - 1) {
        for (int c = 0; c < m.ncells(); c++) for (int i : m.down(m.dim, c, k)) uses[i]++;
        for (auto &e : s[r].e[m.dim]) if (e.ref >= 0 && e.pt != PGHOST) for (int i : m.down(m.dim, e.ref, k)) uses[i]--;
      }
      for (int i : mine[k]) if (m.inset((int)q, k, i) && uses[i] <= 0) want.insert(4 * i + k);
      if (f < 0) { violate(prop, "set_list", "%sthe mesh read lacks the set %s", pr, d.name.c_str()); continue; }
      if (s[r].sets[f].entdim != d.entdim) { violate(prop, "set_list", "%sset %s is read with dimension %d", pr, d.name.c_str(), s[r].sets[f].entdim); continue; }
      for (int x : s[r].setmem[f]) if (x < 0 || mine[x % 4].count(x / 4)) have.insert(x);
      for (auto &u : uses) if (u.second > 0 && m.inset((int)q, k, u.first)) have.erase(4 * u.first + k);
      if (want != have) {
        std::string w; for (int x : want) if (!have.count(x)) { w = "lacks " + ent_name(x % 4, x / 4, m); break; }
        if (w.empty()) for (int x : have) if (!want.count(x)) { w = x < 0 ? "has an unknown member" : "has " + ent_name(x % 4, x / 4, m) + " which it had not"; break; }
        violate(prop, "set_members", "%sset %s is read with %zu members, had %zu: %s", pr, d.name.c_str(), have.size(), want.size(), w.c_str());
      }
    }
    mix_result(snap_hash(s[r]));
  }
}
void gen_exo_common(Rng &g, Params &p) {
  p.set("nblk", g.chance(50) ? 1 : g.range(2, 4)); p.set("bigids", g.chance(20));
  p.set("natt", g.chance(60) ? g.range(0, 4) : 0); p.set("nset", g.chance(60) ? g.range(0, 5) : 0);
  p.set("attseed", g.range(1, 100000)); p.set("names", g.range(0, 3)); if (g.chance(8)) p.set("names", 4);
  p.set("manyc", g.chance(15));
  p.set("attscale", g.chance(50) ? 0 : g.range(1, 30));
  p.set("zoff", g.chance(15) ? g.range(1, 5) : 0);
  p.set("geosets", g.chance(25)); if (g.chance(30)) p.set("bykind", 1);
}
RefMesh exo_ref() {
  RefMesh m = make_ref(spec->p);
  exo_decorate(m);
  if (P("zoff") && m.dim == 2) { for (auto &x : m.xyz) x[2] += (double)P("zoff"); m.reindex(); }
  return m;
}
static void gen_exo(Rng &g, Params &p, const std::string &prop, bool thorough) {
  int n = (int)(g.chance(12) ? g.range(5, 11) : g.range(2, 4));
  p.set("n", n);
  gen_mesh_params(g, p, thorough ? 60 : 30);
  while (p.get("nx") * p.get("ny") * std::max(1L, p.get("nz")) < 2 * n + 2) p.set("nx", p.get("nx") + 1);
  gen_partition(g, p);
  p.set("rep", 0);
  gen_exo_common(g, p);
  p.set("mode", g.chance(70) ? 0 : 1);
  p.set("ring", g.chance(85) ? 1 : 0); p.set("ring2", g.chance(85) ? 1 : 0);
  p.set("renum", g.range(0, 1)); p.set("del", g.chance(30));
  p.set("shuffle", g.chance(70) ? g.range(1, 1000) : 0);
  p.set("with_attr", 1);
  p.set("weave", !g.chance(10));
  p.set("ext", g.range(0, 3)); p.set("imode", g.chance(50)); p.set("lname", g.chance(15) ? g.range(1, 120) : 0);
  p.set("mres", g.range(0, 1)); p.set("dropsets", g.chance(30) ? g.range(1, 99) : 0);
  p.set("dropatts", g.chance(30)); if (p.get("dropatts")) p.set("attcut", g.range(0, 6)); p.set("unpad", g.chance(30));
  gen_net(g, p);
  if (g.chance(40)) p.set("shortw", g.range(5, 100));
  if (p.get("mode") == 1 && p.get("method") == 2) p.set("method", 1);
}
static void run_exo() {
  RefMesh m = exo_ref();
  int n = (int)P("n", 2);
  bool weave = P("weave", 1);
  if (n < 2) stop_run("skip: one process reads and writes ordinary files");
  if (m.ncells() < n) stop_run("skip: fewer cells than processes");
  std::vector<Snap> s0(n), s1(n);
  std::string name = "simfs_p" + std::string((size_t)P("lname"), 'l');
  std::string wname = name + (P("ext") == 1 ? ".par" : ".exo"), rname = name + (P("ext") == 1 && P("imode") ? ".par" : ".exo");
  run_ranks(n, [&](int r) {
    IoPlan pl; pl.shortw = (int)P("shortw"); pl.shortr = (int)P("shortr");
    if (P("mode") == 0) {
      Mesh_ptr mine = do_distribute(m, r);
      if (P("dropsets")) {                // a process need not have the sets it has no members of
        Rng g((uint64_t)P("dropsets") * 77 + (uint64_t)r);
        int idx = 0; MSet_ptr q; std::vector<MSet_ptr> gone;
        while ((q = MESH_Next_MSet(mine, &idx))) if (!MSet_Num_Entries(q) && g.chance(60) && idx % n != r) gone.push_back(q);
        for (auto x : gone) MSet_Delete(x);
        if (!gone.empty()) count("op.sets_dropped");
      }
      if (P("dropatts")) {                // nor the attributes none of its entities has a value of
        Snap z = snapshot(mine, m, 0);
        for (size_t a = 0; a < m.atts.size(); a++) {
          bool any = false; std::vector<double> v;
          for (int k = 0; k <= m.dim; k++) for (auto &e : z.e[k]) if ((m.atts[a].entdim == k || m.atts[a].entdim == MALLTYPE) && e.ref >= 0) any = any || m.att((int)a, e.ref, v, k);
          if (!any) {                     // nor does any other process: one of them has to keep it
            bool other = false;
            for (int k = 0; k <= m.dim; k++) for (int i = 0; i < m.n(k); i++) if (m.atts[a].entdim == k || m.atts[a].entdim == MALLTYPE) other = other || m.att((int)a, i, v, k);
            any = !other;
          }
          MAttrib_ptr q = any ? nullptr : MESH_AttribByName(mine, m.atts[a].name.c_str());
          if (q) { MAttrib_Delete(q); count("op.att_dropped"); }
        }
      }
      s0[r] = snapshot(mine, m, SN_ATT | SN_UP);
      int na = MESH_Num_Attribs(mine), ns = MESH_Num_MSets(mine);
      io_plan() = pl;
      set_where("MESH_ExportToExodusII");
      int opts[3] = {0, (int)P("geosets"), 1};
      std::vector<char> nm(wname.begin(), wname.end()); nm.push_back(0);
      int ok = MESH_ExportToFile(mine, nm.data(), "exodusii", 0, nullptr, P("geosets") ? opts : nullptr, group_comm());
      if (ok != 1) { violate("C20", "write_failed", "process %d: MESH_ExportToFile returns %d although nothing failed", r, ok); return; }
      if (MESH_Num_Attribs(mine) != na || MESH_Num_MSets(mine) != ns) violate("C20", "mesh_changed", "process %d: after the export the mesh has %d attributes and %d sets, before %d and %d", r, MESH_Num_Attribs(mine), MESH_Num_MSets(mine), na, ns);
      else if (snap_hash(snapshot(mine, m, SN_ATT | SN_UP)) != snap_hash(s0[r])) violate("C20", "mesh_changed", "process %d: the export changes the mesh", r);
      if (P("unpad") && n >= 10) {        // as other programs name the files
        std::string b = wname + "." + std::to_string(n) + ".", from = b + (r < 10 ? "0" : "") + std::to_string(r), to = b + std::to_string(r);
        if (from != to) { io_put(to, io_get(from)); io_remove(from); count("op.unpadded"); }
      }
      MPI_Barrier(group_comm());
      set_where("MESH_ImportFromNemesisI");
      Mesh_ptr back = MESH_New(P("readrep") ? F1 : UNKNOWN_REP);
      int po[3] = {(int)P("weave", 1), (int)P("ring2", 1), (int)P("renum")};
      std::vector<char> rn(rname.begin(), rname.end()); rn.push_back(0);
      ok = MESH_ImportFromFile(back, rn.data(), "nemesisi", po, group_comm());
      if (ok != 1) { violate("C20", "read_failed", "process %d: MESH_ImportFromFile returns %d although nothing failed", r, ok); return; }
      s1[r] = snapshot(back, m, SN_ATT | SN_UP | (weave ? SN_LOOKUP : 0));
      sync([&]() {
        check_exo(m, s1, "C20", true);
        Dist d0 = derive(m, s0), d1 = derive(m, s1);
        for (int c = 0; c < m.ncells(); c++) if (d0.owner[m.dim][c] != d1.owner[m.dim][c]) { violate("C20", "cell_ownership", "%s was owned by process %d and is owned by %zu processes, the first of which is %d", ent_name(m.dim, c, m).c_str(), d0.owner[m.dim][c][0], d1.owner[m.dim][c].size(), d1.owner[m.dim][c].empty() ? -1 : d1.owner[m.dim][c][0]); break; }
        if (weave) {
          OracleOpt o; o.ring = (int)P("ring2", 1); o.p1 = o.p2 = o.p3 = "C20"; o.pb = false; o.ovl = o.ring; o.edge_order = false; o.loops = m.dim == 2; o.mink = m.dim;
          check_owner(m, s1, o);
          check_ghost(m, s1, o);
          if (!P("renum")) for (int r = 0; r < n; r++) for (auto &e : s1[r].e[0]) if (e.ref >= 0) { const Ent *w = nullptr; for (int x = 0; x < n && !w; x++) w = s0[x].byref(0, e.ref); if (w && w->gid != e.gid) { violate("C20", "gid", "process %d: %s had global ID %d and is read with %d", r, ent_name(0, e.ref, m).c_str(), w->gid, e.gid); break; } }
        }
        count("op.exo_parallel"); count("exodus.used");
      });
    } else {
      if (r == 0) {
        set_where("build");
        Built b = build(m, nullptr, F1, (uint64_t)P("shuffle"), true);
        std::string f = name + ".exo";
        int opts[3] = {0, 1, 1};
        int ok = MESH_ExportToFile(b.mesh, f.c_str(), "exodusii", 0, nullptr, P("geosets") ? opts : nullptr, (MSTK_Comm)0);
        if (ok != 1) { violate("C20", "write_failed", "MESH_ExportToFile returns %d although nothing failed", ok); return; }
      }
      MPI_Barrier(group_comm());
      io_plan() = pl;
      set_where("MESH_ImportFromExodusII");
      Mesh_ptr back = MESH_New(P("readrep") ? F1 : UNKNOWN_REP);
      int po[5] = {1, (int)P("imode"), P("imode") ? 1 : (int)P("ring2", 1), P("imode") ? 0 : (int)P("method"), 0};
      std::string f = name + ".exo";
      int ok = MESH_ImportFromFile(back, f.c_str(), "exodusii", po, group_comm());
      if (ok != 1) { violate("C20", "read_failed", "process %d: MESH_ImportFromFile returns %d although nothing failed", r, ok); return; }
      s1[r] = snapshot(back, m, SN_ATT | SN_UP | SN_LOOKUP);
      sync([&]() {
        check_exo(m, s1, "C20", true, P("imode"));
        OracleOpt o; o.ring = P("imode") ? 1 : (int)P("ring2", 1); o.p1 = o.p2 = o.p3 = "C20"; o.pb = false; o.ovl = o.ring; o.edge_order = false; o.loops = m.dim == 2; o.mink = m.dim;
        check_owner(m, s1, o);
        check_ghost(m, s1, o);
        count("op.exo_distribute"); count("exodus.used");
      });
    }
    sync([&]() {
      if (io_open_fds) violate("C20", "left_open", "%d files are still open", io_open_fds);
      char b[200];
      snprintf(b, sizeof b, "exo dim%d ctype%ld n%ld mode%ld imode%ld ring%ld ring2 %ld nblk%ld method%ld", m.dim, P("ctype"), P("n"), P("mode"), P("imode"), P("ring"), P("ring2"), P("nblk"), P("method"));
      probe(b);
    });
  });
}
static Reg reg({"exo", gen_exo, run_exo});
