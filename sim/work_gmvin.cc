// Workload "gmvin": meshes are exported to GMV files and imported again, by one process or by
// several, each with its own file (the importer then weaves the parts together).
#include "work.h"
#include "io.h"
#include <cstdio>
#include <cstring>
#include <cmath>
#include <algorithm>
static const char *PR = "C26";
static void gen_gmvin(Rng &g, Params &p, const std::string &prop, bool thorough) {
  bool faults = g.chance(30);
  int n = faults || g.chance(45) ? 1 : (int)(g.chance(15) ? g.range(5, 8) : g.range(2, 4));
  p.set("n", n);
  gen_mesh_params(g, p, thorough ? 60 : 28);
  if (n > 1 && p.get("ctype") == 4 && p.get("dim") == 2) p.set("ctype", 3);   // see weave
  p.set("rep", g.chance(25));
  if (n > 1) {
    while (p.get("nx") * p.get("ny") * std::max(1L, p.get("nz")) < 2 * n + 2) p.set("nx", p.get("nx") + 1);
    gen_partition(g, p);
    p.set("ring", 0); p.set("del", g.chance(30));
  }
  p.set("shuffle", g.chance(70) ? g.range(1, 1000) : 0);
  p.set("with_attr", 1);
  p.set("natt", g.chance(75) ? g.range(0, 5) : 0); p.set("nset", g.range(0, 2)); p.set("minc", 1);
  p.set("attseed", g.range(1, 100000)); p.set("names", g.range(0, 3)); p.set("nospace", 1);
  p.set("opt0", g.chance(30)); p.set("opt1", p.get("dim") == 3 && g.chance(35));
  p.set("rep2", n == 1 ? g.range(0, p.get("opt1") ? 2 : 3) : 0);
  if (g.chance(40)) p.set("own", g.range(1, 1000000));
  if (p.get("own") && n == 1 && !faults && g.chance(12)) p.set("bad", g.range(1, 4));
  if (p.get("own") && p.get("rep2") == 3) p.set("rep2", 1);
  if (n > 1 && g.chance(15)) p.set("serial", 1);
  p.set("commnull", g.chance(20)); p.set("fromext", g.chance(30));
  if (faults) { p.set("fault", g.range(0, 5)); p.set("at_ppm", g.range(0, 999999)); }
  gen_net(g, p, n > 1 ? -1 : 0);
  if (g.chance(40)) p.set("shortr", g.range(5, 100));
  if (g.chance(30)) p.set("bufsz", g.range(1, 5000));
}
// a GMV file of our own: the format allows much that the exporter never writes
struct Own { bool mat = true, itet = true, icr = true; int style = 0; const char *bad = nullptr; std::map<int, int> num; };
// colors say something else than the materials, if both are there
static int color(const RefMesh &m, int c, const Own &o) { return o.mat ? 1 + (c * 7 + 3) % 5 : m.gid[m.dim][c]; }
static std::string write_gmv(const RefMesh &m, const Snap &s, Rng &g, Own &o) {
  std::string out;
  auto put = [&](const char *f, auto... a) { char b[400]; snprintf(b, sizeof b, f, a...); out += b; };
  auto gap = [&]() { static const char *ws[] = {" ", "\n", "  ", " \t", "\n\n ", " "}; out += ws[g.range(0, 5)]; };
  { Rng h((uint64_t)P("own")); o.mat = h.chance(70); o.itet = h.chance(60); o.icr = h.chance(60); }   // the same on all processes
  o.style = m.dim == 3 ? (int)g.range(0, 3) : P("ctype") == 4 ? (int)g.range(0, 1) : (int)g.range(0, 2);
  long bad = P("bad");                    // what is wrong with the file
  if (bad == 1) { out += "gmvinpux"; o.bad = "no GMV file"; } else out += "gmvinput";
  gap();
  if (bad == 2) { static const char *ws[] = {"ieeei4r8", "ascii2", "iecxi4r4", "ASCII"}; out += ws[g.range(0, 3)]; o.bad = "binary"; } else out += "ascii";
  gap();
  if (g.chance(30)) { static const char *ws[] = {"nodes", "5", "endgmv", "cells", "endvars", "end", "gmvinput", "-1", "comments", "material", "of", "endcom", "variable"}; out += "comments\n"; for (long i = g.range(0, 8); i > 0; i--) { out += ws[g.range(0, 12)]; gap(); } out += "\nendcomm"; gap(); }
  if (g.chance(50)) { out += "codename sim\nsimdate 01/01/70"; gap(); }
  std::map<int, int> node;
  VI vs; for (auto &e : s.e[0]) vs.push_back(e.ref);
  for (size_t i = vs.size(); i > 1; i--) std::swap(vs[i - 1], vs[(size_t)g.range(0, (long)i - 1)]);
  bool byvert = g.chance(50);
  put("%s %zu", byvert ? "nodev" : "nodes", vs.size()); gap();
  for (size_t i = 0; i < vs.size(); i++) node[vs[i]] = (int)i + 1;
  if (byvert) for (int v : vs) { for (double c : m.xyz[v]) { put("%.17g", c); gap(); } }
  else for (int d = 0; d < 3; d++) for (int v : vs) { put("%.17g", m.xyz[v][d]); gap(); }
  VI cs; for (auto &e : s.e[m.dim]) cs.push_back(e.ref);
  for (size_t i = cs.size(); i > 1; i--) std::swap(cs[i - 1], cs[(size_t)g.range(0, (long)i - 1)]);
  // outward loops of a cell
  auto loops = [&](int c) { std::vector<VI> l; if (m.dim == 2) return std::vector<VI>{m.faces[c]}; for (size_t q = 0; q < m.rfaces[c].size(); q++) { VI x = m.faces[m.rfaces[c][q]]; if (!m.rdirs[c][q]) std::reverse(x.begin(), x.end()); std::rotate(x.begin(), x.begin() + g.range(0, (long)x.size() - 1), x.end()); l.push_back(x); } return l; };
  auto nodes = [&](const VI &l) { for (int v : l) { if (bad == 3 && !o.bad && g.chance(10)) { long nv = (long)vs.size(); long x[] = {0, -1, nv + 1, nv + 1 + g.range(0, 1000)}; put("%ld", x[g.range(0, 3)]); o.bad = "a node that is not there"; } else put("%d", node[v]); gap(); } };
  if (o.style == 3) {                       // faces, and the cells on their two sides
    std::map<int, std::array<int, 2>> sides;
    for (size_t i = 0; i < cs.size(); i++) for (size_t q = 0; q < m.rfaces[cs[i]].size(); q++) sides[m.rfaces[cs[i]][q]][m.rdirs[cs[i]][q] ? 0 : 1] = (int)i + 1;
    put("faces %zu %zu", sides.size(), cs.size()); gap();
    for (auto &f : sides) { put("%zu", m.faces[f.first].size()); gap(); nodes(m.faces[f.first]); put("%d %d", f.second[0], f.second[1]); gap(); }
  } else {
    std::vector<int> lines;                 // edges given as cells, if nothing is said of cells
    bool celldata = o.mat || o.itet; for (auto &d : m.atts) if ((d.type == INT || d.type == DOUBLE) && d.entdim == m.dim) celldata = true;
    if (!celldata && o.style < 2 && g.chance(50)) for (auto &e : s.e[1]) if (g.chance(20)) lines.push_back(e.ref);
    put("cells %zu", cs.size() + lines.size()); gap();
    for (int e : lines) { put("line 2"); gap(); nodes({m.edges[e][0], m.edges[e][1]}); }
    struct VF { VI l; int cell, opp; };
    std::vector<VF> vf; std::map<VI, int> at;
    for (size_t i = 0; i < cs.size(); i++) {
      auto l = loops(cs[i]);
      size_t nv = m.cellverts[cs[i]].size(), nt = 0, nq = 0;
      for (auto &x : l) { nt += x.size() == 3; nq += x.size() == 4; }
      auto shape = [&](const char *n, const VI &v) { bool w = bad == 4 && !o.bad && g.chance(20); if (w) o.bad = "a wrong number of nodes"; put("%s %zu", n, v.size() + w); gap(); nodes(v); };
      auto first = [&](size_t k) { for (auto &x : l) if (x.size() == k) return x; return VI(); };
      auto up = [&](const VI &base) {       // the vertex above each of the base
        VI r;
        for (int v : base) for (int e : m.down(3, cs[i], 1)) { int a = m.edges[e][0], b = m.edges[e][1]; if (b == v) std::swap(a, b); if (a == v && !std::count(base.begin(), base.end(), b)) r.push_back(b); }
        return r;
      };
      if (o.style == 2) {
        std::vector<VI> fs;
        if (m.dim == 3) fs = l;
        else for (size_t q = 0; q < l[0].size(); q++) fs.push_back({l[0][q], l[0][(q + 1) % l[0].size()]});
        put("vface%dd %zu", m.dim, fs.size()); gap();
        for (auto &f : fs) {
          VI k = f; std::sort(k.begin(), k.end());
          int opp = at.count(k) ? at[k] : 0;
          vf.push_back({f, (int)i + 1, opp});
          if (opp) vf[(size_t)opp - 1].opp = (int)vf.size(); else at[k] = (int)vf.size();
          put("%zu", vf.size()); gap();
        }
        continue;
      }
      bool std_ = o.style == 0 && g.chance(85);
      if (std_ && m.dim == 2 && nv == 3) shape("tri", l[0]);
      else if (std_ && m.dim == 2 && nv == 4) shape("quad", l[0]);
      else if (std_ && m.dim == 3 && nv == 4 && nt == 4) { VI b = first(3), u = up(b); b.push_back(u[0]); shape("tet", b); }
      else if (std_ && m.dim == 3 && nv == 5 && nt == 4 && nq == 1) { VI b = first(4), u = up(b); b.push_back(u[0]); std::reverse(b.begin(), b.end()); shape("pyramid", b); }
      else if (std_ && m.dim == 3 && nv == 6 && nt == 2 && nq == 3) { VI b = first(3), u = up(b); b.insert(b.end(), u.begin(), u.end()); shape("prism", b); }
      else if (std_ && m.dim == 3 && nv == 8 && nq == 6 && l.size() == 6) { VI b = first(4), u = up(b); b.insert(b.end(), u.begin(), u.end()); shape("hex", b); }
      else {
        put("general %zu", l.size()); gap();
        for (auto &x : l) { put("%zu", x.size()); gap(); }
        for (auto &x : l) nodes(x);
      }
    }
    if (o.style == 2) {
      put("vfaces %zu", vf.size()); gap();
      for (auto &f : vf) { put("%zu 1 %d 1 %d", f.l.size(), f.opp, f.cell); gap(); nodes(f.l); }
    }
  }
  if (o.mat) {
    std::set<int> gs; for (int c : cs) gs.insert(m.gid[m.dim][c]);
    auto &num = o.num; put("material %zu 0", gs.size()); gap();
    for (int q : gs) { put("m%d", q); gap(); int k = (int)num.size() + 1; num[q] = k; }
    for (int c : cs) { put("%d", num[m.gid[m.dim][c]]); gap(); }
  }
  out += "variable"; gap();
  if (o.itet) { out += "itetclr 0"; gap(); for (int c : cs) { put("%d", color(m, c, o)); gap(); } }
  if (o.icr) { out += "icr1 1"; gap(); for (int v : vs) { put("%d.0", 3 - m.gdim[0][v]); gap(); } }
  for (size_t a = 0; a < m.atts.size(); a++) {
    auto &d = m.atts[a];
    if ((d.type != INT && d.type != DOUBLE) || (d.entdim != 0 && d.entdim != m.dim)) continue;
    put("%s %d", d.name.c_str(), d.entdim == 0); gap();
    for (int i : d.entdim == 0 ? vs : cs) { std::vector<double> q; put("%.17g", m.att((int)a, i, q) ? q[0] : 0.0); gap(); }
  }
  out += "endvars"; gap();
  if (g.chance(20)) { out += "nodeids"; gap(); for (size_t i = 0; i < vs.size(); i++) { put("%zu", 100 + i); gap(); } }
  if (g.chance(20)) { out += "cellids"; gap(); for (size_t i = 0; i < cs.size(); i++) { put("%zu", 100 + i); gap(); } }
  out += "endgmv"; if (g.chance(80)) out += "\n";
  return out;
}
static void check_import(const RefMesh &m, Mesh_ptr b, const Snap &t, const Snap &s, int r, const Own *own) {
  // materials: two cells have the same one if they lie on the same model entity
  std::map<int, int> of, back;
  for (auto &e : s.e[m.dim]) {
    auto *q = t.byref(m.dim, e.ref);
    if (!q) continue;                   // told by the other checks
    if (own && !own->mat) { if (own->itet && q->gent != e.gent) violate(PR, "material", "process %d: %s, of color %d, is read with material %d", r, ent_name(m.dim, e.ref, m).c_str(), e.gent, q->gent); continue; }
    if (own && q->gent != own->num.at(e.gent)) violate(PR, "material", "process %d: %s, of material %d, is read with %d", r, ent_name(m.dim, e.ref, m).c_str(), own->num.at(e.gent), q->gent);
    if (m.dim == 2 && q->gdim != 2) violate(PR, "material", "process %d: %s is read with classification on a model entity of dimension %d", r, ent_name(2, e.ref, m).c_str(), q->gdim);
    auto it = of.emplace(e.gent, q->gent).first;
    auto jt = back.emplace(q->gent, e.gent).first;
    if (it->second != q->gent || jt->second != e.gent) violate(PR, "material", "process %d: %s, on model entity %d, is read with material %d; another cell on it with %d, or one with the same material lies on %d", r, ent_name(m.dim, e.ref, m).c_str(), e.gent, q->gent, it->second, jt->second);
  }
  if (!own || own->icr) for (auto &e : s.e[0]) {
    auto *q = t.byref(0, e.ref);
    if (q && q->gdim != e.gdim) violate(PR, "constraints", "process %d: %s was on a model entity of dimension %d and is read as on one of dimension %d", r, ent_name(0, e.ref, m).c_str(), e.gdim, q->gdim);
  }
  auto find = [&](const std::string &n, int k) { int f = -1; for (size_t a = 0; a < t.atts.size(); a++) if (t.atts[a].name == n && t.atts[a].entdim == k) { if (f >= 0) violate(PR, "att_list", "process %d: attribute %s is there twice", r, n.c_str()); f = (int)a; } return f; };
  auto values = [&](const std::string &n, int k, bool whole, double tol, std::function<double(const Ent &)> val) {
    int f = find(n, k);
    if (f < 0) { violate(PR, "att_list", "process %d: attribute %s of kind %s is not read", r, n.c_str(), kname(k)); return; }
    if (t.atts[f].type != (whole ? INT : DOUBLE)) { violate(PR, "att_list", "process %d: attribute %s is read with type %d", r, n.c_str(), t.atts[f].type); return; }
    for (auto &e : s.e[k]) {
      auto *q = t.byref(k, e.ref);
      double w = val(e);
      if (q && !q->atts[f].empty() && std::fabs(q->atts[f][0] - w) > tol) { violate(PR, "att_value", "process %d: attribute %s of %s is read as %.17g, written %.17g", r, n.c_str(), ent_name(k, e.ref, m).c_str(), q->atts[f][0], w); return; }
    }
  };
  for (size_t a = 0; a < m.atts.size(); a++) {
    auto &d = m.atts[a];
    if ((d.type != INT && d.type != DOUBLE) || (d.entdim != 0 && d.entdim != m.dim)) { if (find(d.name, d.entdim) >= 0) violate(PR, "att_list", "process %d: attribute %s is read, though files cannot hold it", r, d.name.c_str()); continue; }
    values(d.name, d.entdim, false, d.type == INT || own ? 0 : 6e-7, [&](const Ent &e) { std::vector<double> q; return m.att((int)a, e.ref, q) ? q[0] : 0.0; });
  }
  if (!own || own->itet) values("itetclr", m.dim, true, 0, [&](const Ent &e) { return own ? color(m, e.ref, *own) : e.gent; });
  if (!own || own->icr) values("icr1", 0, true, 0, [&](const Ent &e) { return 3 - e.gdim; });
  if (own) return;
  values("Node_GlobalID", 0, false, 0, [&](const Ent &e) { return e.gid; });
  values("Cell_GlobalID", m.dim, false, 0, [&](const Ent &e) { return e.gid; });
}
static void run_gmvin() {
  RefMesh m = ref_from_params();
  for (auto &x : m.xyz) for (auto &c : x) c = std::round(c * 1024) / 1024;      // what the file's digits hold
  m.reindex(); if ((int)m.vkey.size() != m.n(0)) stop_run("skip: coinciding vertices");
  int n = (int)P("n", 1);
  if (m.ncells() < n) stop_run("skip: fewer cells than processes");
  if (n > 1 && P("ring", 1)) stop_run("skip: parts with ghosts");
  std::vector<Snap> s((size_t)n), t((size_t)n);
  std::string file = "simfs_x.gmv";
  run_ranks(n, [&](int r) {
    Mesh_ptr mine;
    bool serial = n > 1 && P("serial");   // one file, which process 0 reads
    if (serial) mine = r == 0 ? build(m, nullptr, P("rep") ? F4 : F1, (uint64_t)P("shuffle"), true).mesh : MESH_New(F1);
    else if (n > 1) mine = do_distribute(m, r);
    else { set_where("build"); mine = build(m, nullptr, P("rep") ? F4 : F1, (uint64_t)P("shuffle"), true).mesh; }
    s[r] = snapshot(mine, m, SN_ATT | SN_UP);
    int opts[5] = {(int)P("opt0"), (int)P("opt1"), 0, 0, 0};
    MSTK_Comm comm = n == 1 && P("commnull") ? (MSTK_Comm)0 : group_comm();
    set_where("export");
    Own own;
    int ok;
    if (serial && r) ok = 1;
    else if (P("own")) {                       // the file is of our own making
      Rng g((uint64_t)P("own") * 97 + (uint64_t)r);
      std::string nme = file;
      if (n > 1 && !serial) { char b[16]; snprintf(b, sizeof b, P("own") % 3 ? ".%05d" : ".%d", r); nme += b; }
      io_put(nme, write_gmv(m, s[r], g, own));
      ok = 1;
    } else ok = MESH_ExportToFile(mine, file.c_str(), "gmv", 0, nullptr, opts[0] || opts[1] ? opts : nullptr, serial ? (MSTK_Comm)0 : comm);
    if (ok != 1) die("C25", "write_failed", "process %d: MESH_ExportToFile returns %d although nothing failed", r, ok);
    MESH_Delete(mine);
    sync([&]() {});
    static const RepType reps[] = {UNKNOWN_REP, F1, F4, R1, R4};
    RepType rep = reps[P("rep2") % 5];
    if (n > 1 || rep == UNKNOWN_REP) rep = P("rep") ? F4 : F1;
    set_where("import");
    const char *fmt = P("fromext") ? nullptr : "gmv";
    if (!P("fault", -1) || P("fault", -1) > 0) {                        // something happens to the file, or to reading it
      IoPlan none; io_plan() = none; io_reset_stat();
      std::string text = io_get(file), cut = text;
      long at = (long)((double)text.size() * (double)P("at_ppm") / 1e6);
      IoPlan q = none;
      q.bufsz = P("bufsz"); q.shortr = (int)P("shortr");
      switch (P("fault")) {
        case 0: case 1: cut = text.substr(0, (size_t)at); break;           // cut short
        case 2: cut = text.substr(0, text.size() - std::min(text.size(), (size_t)(at % 60))); break;
        case 3: { size_t e = text.find(" ", (size_t)at); cut = text.substr(0, e); } break;   // after a word
        case 4: q.rd_fail = at % std::max(1L, q.bufsz ? (long)text.size() / q.bufsz + 1 : 3); q.sticky = true; break;
        default: q.open_fail = 0; break;
      }
      io_put(file, cut);
      io_plan() = q;
      bool whole = cut.rfind("endgmv") == text.rfind("endgmv");
      exit_filter = [&](int c) { return c != 0 && (io_stat().faults > 0 || !whole); };
      Mesh_ptr b = MESH_New(rep);
      ok = MESH_ImportFromFile(b, file.c_str(), fmt, nullptr, comm);
      exit_filter = nullptr;
      io_plan() = none;
      bool bad = io_stat().faults > 0 || !whole;
      if (ok == 1 && !whole) violate(PR, "silent", "importing a file of %zu bytes of which %zu are left reports success", text.size(), cut.size());
      if (ok == 1 && whole) {
        t[0] = snapshot(b, m, SN_ATT | SN_UP);
        if ((int)t[0].e[m.dim].size() != m.ncells()) violate(PR, "silent", "an import with failures reports success and has %zu of %d cells", t[0].e[m.dim].size(), m.ncells());
      }
      if (ok != 1 && !bad) violate(PR, "import", "importing the exported file returns %d", ok);
      count(bad ? "op.import_bad" : "op.import_gmv");
      char p[100]; snprintf(p, sizeof p, "gmvin fault%ld at%ld dim%d ctype%ld opt%ld%ld ok%d", P("fault"), P("at_ppm") / 100000, m.dim, P("ctype"), P("opt0"), P("opt1"), ok == 1);
      probe(p);
      return;
    }
    io_plan() = IoPlan(); io_plan().shortr = (int)P("shortr"); io_plan().bufsz = P("bufsz");
    Mesh_ptr b = MESH_New(rep);
    if (own.bad) exit_filter = [](int c) { return c != 0; };
    ok = MESH_ImportFromFile(b, file.c_str(), fmt, nullptr, comm);
    exit_filter = nullptr;
    io_plan() = IoPlan();
    if (own.bad) {
      if (ok == 1) violate(PR, "silent", "importing a file with %s reports success", own.bad);
      count("op.import_bad");
      char q[100]; snprintf(q, sizeof q, "gmvin bad%ld dim%d ctype%ld style%d", P("bad"), m.dim, P("ctype"), own.style); probe(q);
      return;
    }
    if (ok != 1) die(PR, "import", "process %d: importing the exported file returns %d", r, ok);
    bool full = rep == F1 || rep == F4;
    if (!full) {                          // what every representation tells
      std::set<std::pair<int, VI>> seen;
      int nc = m.dim == 2 ? MESH_Num_Faces(b) : MESH_Num_Regions(b);
      if (MESH_Num_Vertices(b) != m.n(0) || nc != m.ncells()) violate(PR, "entities", "%d vertices and %d cells are read, the mesh had %d and %d", MESH_Num_Vertices(b), nc, m.n(0), m.ncells());
      int idx = 0; MVertex_ptr mv; std::map<MVertex_ptr, int> ref;
      while ((mv = MESH_Next_Vertex(b, &idx))) {
        double x[3]; MV_Coords(mv, x);
        int v = -1; for (int i = 0; i < m.n(0); i++) if (m.xyz[i][0] == x[0] && m.xyz[i][1] == x[1] && m.xyz[i][2] == x[2]) v = i;
        if (v < 0) { violate(PR, "entities", "a vertex at (%g,%g,%g) is read", x[0], x[1], x[2]); return; }
        ref[mv] = v;
      }
      std::set<VI> cells;
      for (int c = 0; c < nc; c++) {
        List_ptr l = m.dim == 2 ? MF_Vertices(MESH_Face(b, c), 1, 0) : MR_Vertices(MESH_Region(b, c));
        VI k; for (int i = 0; i < List_Num_Entries(l); i++) k.push_back(ref[List_Entry(l, i)]);
        List_Delete(l);
        VI loop = k; std::sort(k.begin(), k.end());
        if (!m.key[m.dim].count(k)) { violate(PR, "entities", "a cell is read that the mesh did not have"); return; }
        if (m.dim == 2 && !same_cycle(m.faces[m.key[2].at(k)], loop)) violate(PR, "orientation", "%s is read with other orientation", ent_name(2, m.key[2].at(k), m).c_str());
        if (!cells.insert(k).second) violate(PR, "entities", "a cell is read twice");
      }
      count("op.import_reduced");
    } else t[r] = snapshot(b, m, SN_ATT | SN_UP | (n > 1 ? SN_LOOKUP : 0));
    sync([&]() {
      if (io_open_fds) violate(PR, "left_open", "%d files are still open after the import", io_open_fds);
      char q[160]; snprintf(q, sizeof q, "gmvin dim%d ctype%ld n%d rep%d own%d opt%ld%ld natt%ld", m.dim, P("ctype"), n, (int)rep, P("own") ? own.style : -1, P("opt0"), P("opt1"), P("natt"));
      probe(q);
      if (!full) return;
      OracleOpt o;
      o.p1 = o.p2 = o.p3 = PR; o.classn = false; o.edge_order = false; o.loops = m.dim == 2; o.pb = false;
      check_conserve(m, t, o);
      for (int p = 0; p < n; p++)
        for (int k = 0; k <= m.dim; k++) {
          if (n == 1 && t[p].e[k].size() != s[p].e[k].size()) violate(PR, "entities", "%zu entities of kind %s are read, the mesh had %zu", t[p].e[k].size(), kname(k), s[p].e[k].size());
          for (auto &e : s[p].e[k]) if (!t[p].byref(k, e.ref)) { violate(PR, "entities", "process %d does not read %s", p, ent_name(k, e.ref, m).c_str()); break; }
        }
      if (n > 1 && !serial) {
        for (int p = 0; p < n; p++) for (auto &e : s[p].e[m.dim]) { auto *x = t[p].byref(m.dim, e.ref); if (x && x->pt == PGHOST) violate(PR, "cell_ownership", "process %d does not own %s any more", p, ent_name(m.dim, e.ref, m).c_str()); }
        check_owner(m, t, o);
        check_ghost(m, t, o);
      }
      for (auto &x : t) mix_result(snap_hash(x));
      count("op.import_gmv");
    });
    if (full && !(serial && r)) check_import(m, b, t[r], s[r], r, P("own") ? &own : nullptr);
    MESH_Delete(b);
  });
}
static Reg reg({"gmvin", gen_gmvin, run_gmvin});
