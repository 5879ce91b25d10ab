// Workload "collapse": a mesh of columns, no column split between processes; every process
// collapses the same selected column edges it holds a copy of, each in its own order.
#include "work.h"
#include <cstdio>
#include <algorithm>
#include <array>
#include <tuple>
#include <cmath>
extern std::map<void *, int> *part_override;      // hooks.cc

void gen_collapse(Rng &g, Params &p, const std::string &prop, bool thorough) {
  int n = (int)(g.chance(15) ? g.range(5, 8) : g.range(2, 4));
  if (g.chance(5)) n = 1;
  p.set("n", n);
  gen_mesh_params(g, p, thorough ? 80 : 40);
  p.set("jit", 0); p.set("holes", 0);
  if (p.get("dim") == 2) {
    p.set("ctype", g.range(0, 2)); p.set("ny", g.range(2, 6));
    while (p.get("nx") < n) p.set("nx", p.get("nx") + 1);
  } else {
    static const int ct[] = {0, 1, 2, 3};
    p.set("ctype", ct[g.range(0, 3)]); p.set("nz", g.range(2, 4));
    p.set("nx", g.range(1, 4)); p.set("ny", g.range(1, 3));
    while (p.get("nx") * p.get("ny") < n) p.set("nx", p.get("nx") + 1);
  }
  // classification: by the boundary, all interior, arbitrary, by the faces, edges and corners of the box, unknown
  p.set("clsf", g.chance(40) ? 3 : g.range(0, 2));
  p.set("topo", g.chance(50));                      // respect the classification
  p.set("vk", p.get("topo") && g.chance(50));       // 1: leave the choice of the vertex that is kept to the code
  p.set("classn", p.get("clsf") == 2);
  p.set("start", g.chance(70) ? 0 : 1);             // distributed from process 0, or woven
  if (n == 1 || g.chance(10)) {
    p.set("n", 1); p.set("start", g.range(0, 2));    // 2: not distributed at all
    p.set("vk", g.range(0, 1));
    if (g.chance(40)) p.set("clsf", 4);
    if (p.get("clsf") == 4) { p.set("topo", 0); p.set("start", 2); }
  }
  p.set("cpseed", g.range(1, 1000000));
  p.set("selp", g.range(10, 90)); p.set("selseed", g.range(1, 1000000));
  p.set("ordseed", g.range(1, 1000000));
  p.set("renum", g.range(0, 1)); p.set("renum0", g.chance(30));
  p.set("wtype", g.range(0, 2)); p.set("wseed", g.range(1, 1000000)); p.set("wflip", 0);
  p.set("ring", g.chance(80) ? 1 : g.range(0, 2));
  if (p.get("start") == 1) p.set("ring", g.chance(90));
  p.set("rep", p.get("dim") == 2 && g.chance(20));
  p.set("del", g.range(0, 1));
  p.set("shuffle", g.chance(70) ? g.range(1, 1000) : 0);
  p.set("natt", g.range(0, 3)); p.set("nset", g.range(0, 3)); p.set("attseed", g.range(1, 100000));
  p.set("with_attr", g.range(0, 1));
  gen_net(g, p);
}
// entities bounding fewer than two cells, and what they consist of
static void boundary(const RefMesh &m, std::vector<char> *b) {
  std::vector<int> fc(m.dim == 3 ? m.n(2) : m.n(1), 0);
  for (int c = 0; c < m.ncells(); c++) for (int i : m.down(m.dim, c, m.dim - 1)) fc[i]++;
  for (int k = 0; k < 4; k++) b[k].assign(m.n(k), 0);
  for (int i = 0; i < (int)fc.size(); i++) if (fc[i] == 1) for (int k = 0; k < m.dim; k++) for (int j : m.down(m.dim - 1, i, k)) b[k][j] = 1;
}
static void classify(RefMesh &m) {
  long how = P("clsf");
  std::vector<char> b[4];
  boundary(m, b);
  XYZ lo = m.xyz[0], hi = m.xyz[0];
  for (auto &x : m.xyz) for (int j = 0; j < 3; j++) { lo[j] = std::min(lo[j], x[j]); hi[j] = std::max(hi[j], x[j]); }
  for (int k = 0; k <= m.dim; k++) for (int i = 0; i < m.n(k); i++) {
    int &d = m.gdim[k][i], &g = m.gid[k][i];
    d = m.dim; g = 1;
    if (how == 0 && b[k][i]) { d = m.dim - 1; g = 2; }
    if (how == 4) { d = 4; g = 0; }
    if (how == 3) {
      int mask = (1 << 2 * m.dim) - 1;
      for (int v : k ? m.down(k, i, 0) : VI{i}) for (int j = 0; j < m.dim; j++) {
        if (m.xyz[v][j] != lo[j]) mask &= ~(1 << 2 * j);
        if (m.xyz[v][j] != hi[j]) mask &= ~(2 << 2 * j);
      }
      d -= __builtin_popcount((unsigned)mask); g = 1 + mask;
    }
  }
}
// parts of the columns of cells
static VI column_parts(const RefMesh &m, int n, uint64_t seed) {
  std::map<std::pair<long, long>, int> col;
  std::vector<std::pair<long, long>> key(m.ncells());
  for (int c = 0; c < m.ncells(); c++) {
    double x = 1e9, y = 1e9;
    for (int v : m.cellverts[c]) { x = std::min(x, m.xyz[v][0]); y = std::min(y, m.xyz[v][1]); }
    key[c] = {lround(x), m.dim == 3 ? lround(y) : 0};
    col[key[c]] = 0;
  }
  Rng g(seed);
  VI o; for (size_t i = 0; i < col.size(); i++) o.push_back((int)i);
  if (seed % 2) for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[(size_t)g.range(0, (long)i - 1)]);
  VI pt(o.size());
  for (size_t i = 0; i < o.size(); i++) pt[o[i]] = (int)(i * n / o.size());
  int q = 0; for (auto &c : col) c.second = pt[q++];
  VI part(m.ncells());
  for (int c = 0; c < m.ncells(); c++) part[c] = col[key[c]];
  return part;
}
static bool violated() { return !outcome().viols.empty(); }
static bool column_edge(const RefMesh &m, int e) {
  const XYZ &a = m.xyz[m.edges[e][0]], &b = m.xyz[m.edges[e][1]];
  return m.dim == 2 ? a[0] == b[0] && a[1] != b[1] : a[0] == b[0] && a[1] == b[1];
}
// selected edges; in each column of vertices one edge is left
static std::vector<char> select_edges(const RefMesh &m) {
  std::map<std::pair<double, double>, VI> col;
  for (int e = 0; e < m.n(1); e++) if (column_edge(m, e)) { const XYZ &a = m.xyz[m.edges[e][0]]; col[{a[0], m.dim == 3 ? a[1] : 0.0}].push_back(e); }
  std::vector<char> sel(m.n(1), 0);
  Rng g((uint64_t)P("selseed"));
  for (auto &c : col) {
    std::sort(c.second.begin(), c.second.end(), [&](int a, int b) { return std::min(m.xyz[m.edges[a][0]][m.dim - 1], m.xyz[m.edges[a][1]][m.dim - 1]) < std::min(m.xyz[m.edges[b][0]][m.dim - 1], m.xyz[m.edges[b][1]][m.dim - 1]); });
    int keep = (int)g.range(0, (long)c.second.size() - 1);
    for (int i = 0; i < (int)c.second.size(); i++) if (g.chance((int)P("selp")) && i != keep) sel[c.second[i]] = 1;
  }
  return sel;
}
// with the classification respected: edges of runs that would merge vertices of different model entities of one dimension stay
static void drop_conflicts(const RefMesh &m, std::vector<char> &sel) {
  VI rep(m.n(0));
  for (int v = 0; v < m.n(0); v++) rep[v] = v;
  std::function<int(int)> find = [&](int v) { return rep[v] == v ? v : rep[v] = find(rep[v]); };
  for (int e = 0; e < m.n(1); e++) if (sel[e]) rep[find(m.edges[e][0])] = find(m.edges[e][1]);
  std::map<std::pair<int, int>, int> cls;
  std::set<int> bad;
  for (int v = 0; v < m.n(0); v++) { auto it = cls.insert({{find(v), m.gdim[0][v]}, m.gid[0][v]}).first; if (it->second != m.gid[0][v]) bad.insert(find(v)); }
  for (int e = 0; e < m.n(1); e++) if (sel[e] && bad.count(find(m.edges[e][0]))) sel[e] = 0;
}
// would entities of different model entities of one dimension be merged?
static bool conflict(const RefMesh &m, const VI *img) {
  for (int k = 1; k < m.dim; k++) {
    std::map<std::pair<int, int>, int> cls;
    for (int i = 0; i < m.n(k); i++) if (img[k][i] >= 0) { auto it = cls.insert({{img[k][i], m.gdim[k][i]}, m.gid[k][i]}).first; if (it->second != m.gid[k][i]) return true; }
  }
  return false;
}
// the mesh after the collapses; img: entity -> entity of the new mesh or -1
static bool reduce(const RefMesh &m, const std::vector<char> &sel, const std::function<bool(int, int)> &first, RefMesh &r, VI *img) {
  VI rep(m.n(0));
  for (int v = 0; v < m.n(0); v++) rep[v] = v;
  std::function<int(int)> find = [&](int v) { return rep[v] == v ? v : rep[v] = find(rep[v]); };
  for (int e = 0; e < m.n(1); e++) if (sel[e]) {
    int a = find(m.edges[e][0]), b = find(m.edges[e][1]);
    if (a != b) { if (first(a, b)) rep[b] = a; else rep[a] = b; }
  }
  r = RefMesh(); r.dim = m.dim; r.atts = m.atts; r.sets = m.sets; r.attseed = m.attseed;
  for (int k = 0; k < 4; k++) img[k].assign(m.n(k), -1);
  for (int v = 0; v < m.n(0); v++) if (find(v) == v) { img[0][v] = r.n(0); r.xyz.push_back(m.xyz[v]); }
  for (int v = 0; v < m.n(0); v++) img[0][v] = img[0][find(v)];
  std::map<VI, int> em, fm;
  for (int e = 0; e < m.n(1); e++) {
    int a = img[0][m.edges[e][0]], b = img[0][m.edges[e][1]];
    if (a == b) continue;
    VI k = {std::min(a, b), std::max(a, b)};
    auto it = em.find(k);
    if (it == em.end()) { it = em.insert({k, r.n(1)}).first; r.edges.push_back({{a, b}}); }
    img[1][e] = it->second;
  }
  for (int f = 0; f < m.n(2); f++) {
    VI l, fe;
    for (size_t q = 0; q < m.faces[f].size(); q++) if (img[1][m.fedges[f][q]] >= 0) { l.push_back(img[0][m.faces[f][q]]); fe.push_back(img[1][m.fedges[f][q]]); }
    if (l.size() < 3) continue;
    VI k = l; std::sort(k.begin(), k.end());
    if (std::unique(k.begin(), k.end()) != k.end()) return false;
    auto it = fm.find(k);
    if (it == fm.end()) {
      it = fm.insert({k, r.n(2)}).first; r.faces.push_back(l); r.fedges.push_back(fe);
    } else {
      if (m.dim == 2) return false;
      VI s = r.fedges[it->second], t = fe; std::sort(s.begin(), s.end()); std::sort(t.begin(), t.end());
      if (s != t) return false;
    }
    img[2][f] = it->second;
  }
  std::set<VI> rk;
  for (int i = 0; i < m.n(3); i++) {
    VI rf, rd; bool dead = false;
    for (size_t q = 0; q < m.rfaces[i].size(); q++) {
      int f0 = m.rfaces[i][q], f = img[2][f0];
      if (f < 0) continue;
      if (std::count(rf.begin(), rf.end(), f)) dead = true;
      VI l;
      for (size_t z = 0; z < m.faces[f0].size(); z++) if (img[1][m.fedges[f0][z]] >= 0) l.push_back(img[0][m.faces[f0][z]]);
      rf.push_back(f); rd.push_back(same_cycle(l, r.faces[f]) ? m.rdirs[i][q] : !m.rdirs[i][q]);
    }
    if (dead || rf.size() < 4) continue;
    img[3][i] = r.n(3); r.rfaces.push_back(rf); r.rdirs.push_back(rd);
    if (!rk.insert(r.verts(3, r.n(3) - 1)).second) return false;
  }
  for (int k = 0; k < 4; k++) { r.gdim[k].assign(r.n(k), 0); r.gid[k].assign(r.n(k), 0); }
  r.reindex();
  // edges and faces of the surfaces only survive if a cell has them
  std::vector<char> use[4];
  for (int k = 0; k < 4; k++) use[k].assign(r.n(k), 0);
  for (int c = 0; c < r.ncells(); c++) for (int k = 0; k <= r.dim; k++) for (int i : r.down(r.dim, c, k)) use[k][i] = 1;
  for (int k = 0; k < 4; k++) if (std::count(use[k].begin(), use[k].end(), 0)) return false;
  return true;
}
static void run_collapse() {
  RefMesh m = ref_from_params();
  long clsf = P("clsf");
  int n = (int)P("n", 2);
  bool topo = P("topo"), vk = P("vk") && (topo || n == 1), serial = P("start") == 2;
  if (n > 1 && (serial || clsf == 4)) stop_run("skip: one process only");
  if (clsf == 0 || clsf >= 3) classify(m);
  VI part = column_parts(m, n, (uint64_t)P("cpseed"));
  { VI c(n, 0); for (int x : part) c[x]++; if (std::count(c.begin(), c.end(), 0)) stop_run("skip: a part is empty"); }
  std::vector<char> sel = select_edges(m), bnd[4];
  boundary(m, bnd);
  if (topo) drop_conflicts(m, sel);
  if (!std::count(sel.begin(), sel.end(), 1)) stop_run("skip: nothing to collapse");

  std::vector<Snap> s(n), s2(n);
  RefMesh red; VI img[4], gid[4];
  // the order of preference of entities that are merged
  auto rank = [&](int k, int i) { return k == 0 && !topo ? vk ? !bnd[0][i] : 0 : clsf == 4 ? (k == m.dim - 1 ? !bnd[k][i] : 0) : m.gdim[k][i]; };
  int ring = (int)P("ring", 1);
  std::map<void *, int> ovr;
  run_ranks(n, [&](int r) {
    Mesh_ptr mesh = nullptr, gm = nullptr;
    if (serial) { set_where("build"); mesh = build(m, nullptr, P("rep") ? F4 : F1, (uint64_t)P("shuffle"), P("with_attr")).mesh; }
    else if (P("start") == 1) mesh = do_weave(m, r, part);
    else {
      int dim = 0;
      if (r == 0) {
        set_where("build");
        Built b = build(m, nullptr, P("rep") ? F4 : F1, (uint64_t)P("shuffle"), P("with_attr"));
        gm = b.mesh; dim = m.dim;
        for (int c = 0; c < m.ncells(); c++) ovr[b.h[m.dim][c]] = part[c];
        part_override = &ovr;
      }
      set_where("MSTK_Mesh_Distribute");
      int ok = MSTK_Mesh_Distribute(gm, &mesh, &dim, ring, (int)P("with_attr", 0), 0, (int)P("del", 0), group_comm());
      if (ok != 1) die("C01", "fatal", "MSTK_Mesh_Distribute returned %d", ok);
    }
    if (P("renum0") && !serial) { set_where("MESH_Renumber_GlobalIDs"); MESH_Renumber_GlobalIDs(mesh, MALLTYPE, 0, nullptr, group_comm()); }
    set_where("setup");
    s[r] = snapshot(mesh, m, SN_ATT);
    sync([&]() {
      part_override = nullptr;
      OracleOpt o; o.ring = ring; o.edge_order = false; o.loops = false; o.ovl = ring; o.pb = false;
      if (P("start") == 1) o.p1 = o.p2 = o.p3 = "C05";
      check_conserve(m, s, o);
      if (!serial) { check_owner(m, s, o); check_ghost(m, s, o); }
      if (violated()) stop_run("setup failed");
      Dist d = derive(m, s);
      for (int k = 0; k <= m.dim; k++) { gid[k].assign(m.n(k), 0); for (int i = 0; i < m.n(k); i++) { const Ent *e = s[d.owner[k][i][0]].byref(k, i); gid[k][i] = serial ? 0 : e->gid; } }
      if (!reduce(m, sel, [&](int a, int b) { return rank(0, a) != rank(0, b) ? rank(0, a) < rank(0, b) : gid[0][a] < gid[0][b]; }, red, img)) stop_run("skip: the collapsed mesh has coincident cells");
      if (topo && conflict(m, img)) stop_run("skip: entities of different model entities would be merged");
    });
    set_where("ME_Collapse");
    std::vector<int> es;
    for (int e = 0; e < m.n(1); e++) if (sel[e] && s[r].byref(1, e)) es.push_back(e);
    Rng g((uint64_t)P("ordseed") * 31 + r);
    for (size_t i = es.size(); i > 1; i--) std::swap(es[i - 1], es[(size_t)g.range(0, (long)i - 1)]);
    std::vector<void *> del; std::set<void *> dels;
    std::map<void *, int> ext;                       // vertices on the boundary
    for (auto &e : s[r].e[0]) ext[e.h] = bnd[0][e.ref];
    std::set<std::pair<int, int>> wins;              // vertices merged: the one kept first
    std::map<void *, int> vref;
    for (auto &e : s[r].e[0]) vref[e.h] = e.ref;
    auto refused = [&](void *me, void *keep, const char *why) {
      void *a = ME_Vertex(me, 0), *b = ME_Vertex(me, 1);
      List_ptr dl = nullptr, mp = nullptr;
      void *k = ME_Collapse(me, keep, 1, &dl, &mp);
      count("op.collapse_refused");
      if (k || dl || mp || MEnt_Dim(me) != MEDGE || ME_Vertex(me, 0) != a || ME_Vertex(me, 1) != b) { violate("C15", "not_refused", "process %d: an edge is collapsed although %s", r, why); stop_run("collapse not refused"); }
    };
    auto try_kept = [&]() {                          // edges between different model entities of one dimension
      if (!topo) return;
      for (auto &x : s[r].e[1]) {
        if (sel[x.ref] || !column_edge(m, x.ref) || dels.count(x.h) || !g.chance(50)) continue;
        void *a = ME_Vertex(x.h, 0), *b = ME_Vertex(x.h, 1);
        if (MV_GEntDim(a) == MV_GEntDim(b) && MV_GEntID(a) != MV_GEntID(b)) refused(x.h, g.chance(50) ? nullptr : g.chance(50) ? a : b, "its vertices lie on different model entities of the same dimension");
      }
    };
    try_kept();
    for (int e : es) {
      void *me = s[r].byref(1, e)->h;
      if (dels.count(me) || MEnt_Dim(me) == MDELETED) { violate("C15", "vanished", "process %d: %s was deleted by the collapse of another edge", r, ent_name(1, e, m).c_str()); continue; }
      void *a = ME_Vertex(me, 0), *b = ME_Vertex(me, 1);
      auto key = [&](void *v) { return std::make_tuple(topo ? MV_GEntDim(v) : vk ? !ext[v] : 0, MV_GlobalID(v)); };
      void *keep = key(a) < key(b) || (key(a) == key(b) && g.chance(50)) ? a : b, *gone = keep == a ? b : a;
      if (topo && MV_GEntDim(keep) != MV_GEntDim(gone) && g.chance(30)) refused(me, gone, "the vertex to be kept lies on a model entity of a higher dimension");
      bool keyeq = key(a) == key(b);
      List_ptr dl = nullptr, mp = nullptr;
      void *k = ME_Collapse(me, vk ? nullptr : keep, topo, &dl, &mp);
      if (k == gone && vk && (topo ? keyeq : ext[a] == ext[b])) std::swap(keep, gone);
      if (k != keep) { violate("C15", "collapse", "process %d: collapsing %s %s the vertex with global ID %d %s", r, ent_name(1, e, m).c_str(), vk ? "should be towards" : "towards", MV_GlobalID(keep), k ? "keeps the other one" : "is refused"); stop_run("collapse refused"); }
      wins.insert({vref[keep], vref[gone]});
      ext[keep] |= ext[gone];
      count(vk ? topo ? "op.collapse_free_topo" : "op.collapse_free" : topo ? "op.collapse_topo" : "op.collapse");
      int nd = dl ? List_Num_Entries(dl) : 0;
      bool se = false, sv = false;
      for (int i = 0; i < nd; i++) {
        void *x = List_Entry(dl, i);
        if (!x || !dels.insert(x).second) { violate("C15", "deleted_list", "process %d: an entity is reported as deleted twice", r); continue; }
        del.push_back(x);
        if (x == me) se = true;
        if (x == gone) sv = true;
      }
      if (!se || !sv) violate("C15", "deleted_list", "process %d: the collapsed %s is not reported as deleted", r, se ? "vertex" : "edge");
      int nm = mp ? List_Num_Entries(mp) : 0;
      for (int i = 0; i + 1 < nm; i += 2) if (!dels.count(List_Entry(mp, i)) || dels.count(List_Entry(mp, i + 1))) violate("C15", "merged_list", "process %d: of a pair of merged entities the first is to be gone and the second to stay", r);
      if (dl) List_Delete(dl);
      if (mp) List_Delete(mp);
    }
    try_kept();
    if (serial || (vk && !topo)) {                   // there the code may choose
      auto wins2 = wins;
      for (bool more = true; more;) { more = false; for (auto &x : wins) for (auto &y : wins) if (x.second == y.first && wins2.insert({x.first, y.second}).second) more = true; wins = wins2; }
      reduce(m, sel, [&](int a, int b) { return wins.count({a, b}) > 0; }, red, img);
    }
    { int idx = 0; void *st; while ((st = MESH_Next_MSet(mesh, &idx))) for (void *x : del) if (MSet_Contains(st, x)) MSet_Rem(st, x); }
    for (void *x : del) MEnt_Delete(x, 0);
    set_where("after the collapse");
    s2[r] = snapshot(mesh, red, SN_UP | SN_ATT);
    sync([&]() {
      OracleOpt o; o.ring = ring; o.edge_order = false; o.loops = false; o.classn = false; o.ovl = ring; o.pb = false; o.p1 = o.p2 = o.p3 = "C15";
      check_conserve(red, s2, o);
      if (!serial) check_owner(red, s2, o);
      // each process holds what is left of what it held
      std::vector<std::array<std::map<void *, int>, 4>> byh(n);
      for (int q = 0; q < n; q++) for (int k = 0; k <= m.dim; k++) for (auto &e : s[q].e[k]) byh[q][k][e.h] = e.ref;
      for (int q = 0; q < n; q++) for (int k = 0; k <= m.dim; k++) {
        std::set<int> want;
        for (auto &e : s[q].e[k]) if (img[k][e.ref] >= 0) want.insert(img[k][e.ref]);
        for (int i : want) if (!s2[q].byref(k, i)) { violate("C15", "lost", "process %d lost %s", q, ent_name(k, i, red).c_str()); break; }
        for (auto &e : s2[q].e[k]) if (e.ref >= 0) {
          if (!want.count(e.ref)) { violate("C15", "extra", "process %d holds %s now", q, ent_name(k, e.ref, red).c_str()); break; }
          auto it = byh[q][k].find(e.h);
          if (it == byh[q][k].end() || img[k][it->second] != e.ref || (!serial && e.gid != gid[k][it->second])) { violate("C15", "survivor", "process %d: %s with the global ID %d is none of those merged into it", q, ent_name(k, e.ref, red).c_str(), e.gid); break; }
          int o = it->second;
          if (k > 0) for (auto &x : s[q].e[k]) if (img[k][x.ref] == e.ref && x.ref != o && (rank(k, x.ref) < rank(k, o) || (rank(k, x.ref) == rank(k, o) && gid[k][x.ref] < gid[k][o] && clsf != 4))) { violate("C15", "preference", "process %d: %s, on model entity %d of dimension %d, global ID %d, is kept instead of %s, on %d of dimension %d, global ID %d", q, ent_name(k, o, m).c_str(), m.gid[k][o], m.gdim[k][o], gid[k][o], ent_name(k, x.ref, m).c_str(), m.gid[k][x.ref], m.gdim[k][x.ref], gid[k][x.ref]); break; }
          if (e.gdim != m.gdim[k][o] || e.gent != m.gid[k][o]) { violate("C15", "classification", "process %d: %s is classified on model entity %d of dimension %d, before on %d of dimension %d", q, ent_name(k, e.ref, red).c_str(), e.gent, e.gdim, m.gid[k][o], m.gdim[k][o]); break; }
        }
      }
      // sets: what survives a merge is in a set if any of the merged entities was
      if (P("with_attr") && P("start") == 0) for (int q = 0; q < n; q++) {
        if (s2[q].sets.size() != s[q].sets.size() || s2[q].atts.size() != s[q].atts.size()) { violate("C15", "sets", "process %d has %zu sets and %zu attributes, before %zu and %zu", q, s2[q].sets.size(), s2[q].atts.size(), s[q].sets.size(), s[q].atts.size()); continue; }
        for (size_t t = 0; t < s[q].sets.size(); t++) {
          std::set<int> may, must, have(s2[q].setmem[t].begin(), s2[q].setmem[t].end());
          for (int c : s[q].setmem[t]) {
            int k = c % 4, i = c / 4, j = img[k][i];
            if (j < 0) continue;
            may.insert(4 * j + k);
            const Ent *e = s2[q].byref(k, j), *w = s[q].byref(k, i);
            if (k > 0 || (e && w && e->h == w->h)) must.insert(4 * j + k);
          }
          for (int c : must) if (!have.count(c)) { violate("C15", "sets", "process %d: set %s lost %s", q, s[q].sets[t].name.c_str(), ent_name(c % 4, c / 4, red).c_str()); break; }
          for (int c : have) if (!may.count(c)) { violate("C15", "sets", "process %d: set %s contains %s now", q, s[q].sets[t].name.c_str(), c < 0 ? "something else" : ent_name(c % 4, c / 4, red).c_str()); break; }
          if (s2[q].setdup[t]) violate("C15", "sets", "process %d: set %s holds members more than once", q, s[q].sets[t].name.c_str());
        }
        for (int k = 0; k <= m.dim; k++) for (auto &e : s2[q].e[k]) if (e.ref >= 0) {
          auto it = byh[q][k].find(e.h);
          const Ent *w = it == byh[q][k].end() ? nullptr : s[q].byref(k, it->second);
          if (w && w->atts != e.atts) { violate("C15", "attributes", "process %d: the attribute values of %s have changed", q, ent_name(k, e.ref, red).c_str()); break; }
        }
      }
      for (auto &x : s2) mix_result(snap_hash(x));
      char b[160]; snprintf(b, sizeof b, "collapse dim%d ctype%ld n%d start%ld ring%d clsf%ld topo%d%d", m.dim, P("ctype"), n, P("start"), ring, clsf, topo, vk);
      probe(b);
      if (violated()) stop_run("inconsistent after the collapse");
    });
    if (P("renum") && !serial) {
      set_where("MESH_Renumber_GlobalIDs");
      MESH_Renumber_GlobalIDs(mesh, MALLTYPE, 0, nullptr, group_comm());
      s2[r] = snapshot(mesh, red, 0);
      sync([&]() {
        OracleOpt o; o.ovl = ring; o.p2 = "C15";
        check_owner(red, s2, o);
        for (int k = 0; k <= m.dim; k++) { std::set<int> gs; for (auto &x : s2) for (auto &e : x.e[k]) gs.insert(e.gid); if (gs.size() && (*gs.begin() != 1 || *gs.rbegin() != (int)gs.size())) violate("C15", "gid", "after renumbering the %zu %s global IDs run from %d to %d", gs.size(), kname(k), *gs.begin(), *gs.rbegin()); }
        if (violated()) stop_run("inconsistent after renumbering");
      });
    }
    if (n > 1 && ring) {
      set_where("MESH_Update1Attribute");
      for (int k = 0; k <= m.dim; k++) {
        char nm[20]; snprintf(nm, sizeof nm, "after%d", k);
        MAttrib_ptr at = MAttrib_New(mesh, nm, INT, (MType)k);
        for (auto &e : s2[r].e[k]) MEnt_Set_AttVal(e.h, at, e.pt == PGHOST ? -7 : 3 * e.gid + k, 0.0, nullptr);
        MESH_Update1Attribute(mesh, at, group_comm());
        for (auto &e : s2[r].e[k]) { int iv = 0; double rv = 0; void *pv = nullptr; MEnt_Get_AttVal(e.h, at, &iv, &rv, &pv); if (iv != 3 * e.gid + k) { violate("C15", "exchange", "process %d: after an exchange %s has the value %d, the owner's is %d", r, ent_name(k, e.ref, red).c_str(), iv, 3 * e.gid + k); break; } }
      }
    }

  });
}
static Reg reg({"collapse", gen_collapse, run_collapse});
