// Workload "export": meshes of one or several processes are exported for other programs, and the
// files are read by parsers of our own: do they say what the mesh is, do those of different
// processes fit together?
#include "work.h"
#include "io.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <algorithm>
enum { X_GMV, X_X3D, X_STL, X_OFF };
static const char *xname[] = {"gmv", "x3d", "stl", "off"};
static const char *PR = "C25";

static void gen_export(Rng &g, Params &p, const std::string &prop, bool thorough) {
  int n = g.chance(40) ? 1 : (int)(g.chance(15) ? g.range(5, 8) : g.range(2, 4));
  p.set("n", n);
  gen_mesh_params(g, p, thorough ? 60 : 28);
  int f = (int)g.range(0, 9);
  p.set("fmt", n > 1 ? (f < 4 ? X_GMV : X_X3D) : f < 4 ? X_GMV : f < 7 ? X_X3D : f < 8 ? X_STL : X_OFF);
  if (p.get("fmt") >= X_STL && p.get("dim") == 3) gen_mesh_params(g, p, thorough ? 60 : 28, "", 2);
  if (p.get("fmt") == X_STL) p.set("ctype", 1);
  p.set("rep", g.chance(20));
  if (n > 1) {
    while (p.get("nx") * p.get("ny") * std::max(1L, p.get("nz")) < 2 * n + 2) p.set("nx", p.get("nx") + 1);
    gen_partition(g, p);
    p.set("ring", g.chance(85) ? 1 : 0); p.set("del", g.chance(30));
  }
  p.set("shuffle", g.chance(70) ? g.range(1, 1000) : 0);
  p.set("with_attr", 1);
  p.set("natt", g.chance(75) ? g.range(0, 5) : 0); p.set("nset", g.range(0, 3)); p.set("minc", 1);
  p.set("attseed", g.range(1, 100000)); p.set("names", g.range(0, 3)); p.set("nospace", 1);
  p.set("attsel", g.chance(70) ? 0 : g.range(1, 2));
  p.set("opt0", g.chance(30)); p.set("opt1", p.get("dim") == 3 && g.chance(25));
  p.set("round", g.chance(75));
  p.set("back", g.chance(60));
  p.set("commnull", g.chance(20)); p.set("fromext", g.chance(30));
  gen_net(g, p, n > 1 ? -1 : 0);
  if (g.chance(40)) p.set("shortw", g.range(5, 100));
  if (g.chance(30)) p.set("bufsz", g.range(1, 5000));
}
namespace {
struct Bad {};
// the words of a file; problems end the parse
struct Words {
  std::string text, file;
  size_t at = 0;
  [[noreturn]] void fail(const char *cls, const std::string &msg) { violate(PR, cls, "%s: %s", file.c_str(), msg.c_str()); throw Bad(); }
  std::string word() {
    while (at < text.size() && isspace((unsigned char)text[at])) at++;
    size_t b = at;
    while (at < text.size() && !isspace((unsigned char)text[at])) at++;
    if (b == at) fail("syntax", "the file ends where more is expected");
    return text.substr(b, at - b);
  }
  std::string peek() { size_t s = at; std::string w; while (at < text.size() && isspace((unsigned char)text[at])) at++; if (at < text.size()) w = word(); at = s; return w; }
  std::string line() { size_t e = text.find('\n', at); if (e == std::string::npos) e = text.size(); std::string l = text.substr(at, e - at); at = std::min(text.size(), e + 1); return l; }
  void want(const char *w) { std::string x = word(); if (x != w) fail("syntax", "'" + x + "' where '" + w + "' is expected"); }
  long num() { std::string w = word(); char *e; long v = strtol(w.c_str(), &e, 10); if (*e) fail("syntax", "'" + w + "' where an integer is expected"); return v; }
  double real() { std::string w = word(); char *e; double v = strtod(w.c_str(), &e); if (*e) fail("syntax", "'" + w + "' where a number is expected"); return v; }
  bool end() { while (at < text.size() && isspace((unsigned char)text[at])) at++; return at >= text.size(); }
};
}
// vertex of the mesh at a place
static int vertex_at(const RefMesh &m, double x, double y, double z, double tol) {
  int best = -1; double bd = tol;
  for (int v = 0; v < m.n(0); v++) {
    double d = std::max(std::fabs(m.xyz[v][0] - x), std::max(std::fabs(m.xyz[v][1] - y), std::fabs(m.xyz[v][2] - z)));
    if (d <= bd) { bd = d; best = v; }
  }
  return best;
}
typedef std::vector<VI> Loops;
// the cell with these outward loops (3D) or this loop (2D); -1 none, -2 wrong orientation
static int find_cell(const RefMesh &m, const Loops &loops) {
  if (m.dim == 2) {
    VI k = loops[0]; std::sort(k.begin(), k.end());
    auto it = m.key[2].find(k);
    return it == m.key[2].end() ? -1 : same_cycle(m.faces[it->second], loops[0]) ? it->second : -2;
  }
  std::set<int> vs; std::map<VI, VI> by;
  for (auto &l : loops) { VI k = l; std::sort(k.begin(), k.end()); by[k] = l; for (int v : l) vs.insert(v); }
  VI key(vs.begin(), vs.end());
  for (int c = 0; c < m.n(3); c++) if (m.cellverts[c].size() == key.size()) {
    VI k = m.cellverts[c]; std::sort(k.begin(), k.end());
    if (k != key || m.rfaces[c].size() != by.size()) continue;
    bool all = true, dir = true;
    for (size_t q = 0; q < m.rfaces[c].size() && all; q++) {
      auto it = by.find(m.verts(2, m.rfaces[c][q]));
      if (it == by.end()) { all = false; break; }
      VI l = m.faces[m.rfaces[c][q]]; if (!m.rdirs[c][q]) std::reverse(l.begin(), l.end());
      if (!same_cycle(l, it->second)) dir = false;
    }
    if (all) return dir ? c : -2;
  }
  return -1;
}
static std::string loops_text(const Loops &l) { std::string s; for (auto &x : l) { s += " ("; for (size_t i = 0; i < x.size(); i++) s += (i ? " " : "") + std::to_string(x[i]); s += ")"; } return s; }

// ---- GMV
static void check_gmv(const RefMesh &m, const Snap &s, Words &w, const std::set<std::string> &atts) {
  w.want("gmvinput"); w.want("ascii"); w.want("codename"); w.word(); w.want("simdate"); w.word();
  std::string kind = w.word();
  if (kind != "nodev" && kind != "nodes") w.fail("syntax", "no nodes");
  int nv = (int)w.num();
  if (nv != (int)s.e[0].size()) w.fail("counts", std::to_string(nv) + " nodes, the mesh has " + std::to_string(s.e[0].size()));
  std::vector<XYZ> x((size_t)nv);
  if (kind == "nodev") for (auto &p : x) for (auto &c : p) c = w.real();
  else for (int c = 0; c < 3; c++) for (auto &p : x) p[c] = w.real();
  VI node((size_t)nv, -1);
  std::set<int> seen;
  for (int i = 0; i < nv; i++) {
    int v = vertex_at(m, x[i][0], x[i][1], x[i][2], 1e-11);
    if (v < 0 || !s.byref(0, v)) w.fail("nodes", "node " + std::to_string(i + 1) + " is none of the mesh's vertices");
    if (!seen.insert(v).second) w.fail("nodes", ent_name(0, v, m) + " is there twice");
    node[i] = v;
  }
  auto vert = [&]() { long i = w.num(); if (i < 1 || i > nv) w.fail("node_id", "node " + std::to_string(i) + " is referred to, there are " + std::to_string(nv)); return node[(size_t)i - 1]; };
  w.want("cells");
  int nc = (int)w.num();
  if (nc != (int)s.e[m.dim].size()) w.fail("counts", std::to_string(nc) + " cells, the mesh has " + std::to_string(s.e[m.dim].size()));
  VI cell((size_t)nc, -1);
  std::vector<std::vector<long>> vf((size_t)nc);
  std::vector<Loops> loops((size_t)nc);
  bool vface = false;
  for (int i = 0; i < nc; i++) {
    std::string t = w.word();
    auto nw = [&](int k) { if (w.num() != k) w.fail("syntax", "wrong number of nodes of a " + t); VI v; for (int j = 0; j < k; j++) v.push_back(vert()); return v; };
    auto out = [&](const VI &v, std::vector<VI> f) { for (auto &l : f) { VI q; for (int j : l) q.push_back(v[(size_t)j]); loops[i].push_back(q); } };
    if (t == "tri") loops[i] = {nw(3)};
    else if (t == "quad") loops[i] = {nw(4)};
    else if (t == "tet") out(nw(4), {{0, 1, 2}, {0, 2, 3}, {0, 3, 1}, {1, 3, 2}});
    else if (t == "pyramid") out(nw(5), {{4, 3, 2, 1}, {1, 2, 0}, {2, 3, 0}, {3, 4, 0}, {4, 1, 0}})   /* the apex first */;
    else if (t == "prism") out(nw(6), {{0, 1, 2}, {5, 4, 3}, {1, 0, 3, 4}, {2, 1, 4, 5}, {0, 2, 5, 3}});
    else if (t == "hex") out(nw(8), {{0, 1, 2, 3}, {7, 6, 5, 4}, {1, 0, 4, 5}, {2, 1, 5, 6}, {3, 2, 6, 7}, {0, 3, 7, 4}});
    else if (t == "general") {
      long nf = w.num();
      std::vector<long> k;
      for (long j = 0; j < nf; j++) k.push_back(w.num());
      for (long c : k) { VI l; for (long j = 0; j < c; j++) l.push_back(vert()); loops[i].push_back(l); }
    } else if (t == "vface3d") { vface = true; long nf = w.num(); for (long j = 0; j < nf; j++) vf[i].push_back(w.num()); }
    else w.fail("syntax", "cell of unknown kind '" + t + "'");
  }
  if (vface) {
    w.want("vfaces");
    long nf = w.num();
    struct F { VI loop; long opp, cell; int used; };
    std::vector<F> fs((size_t)nf);
    for (auto &f : fs) {
      long k = w.num(); if (w.num() != 1) w.fail("vface", "processor of a face is not 1");
      f.opp = w.num(); if (w.num() != 1) w.fail("vface", "processor of an opposite face is not 1");
      f.cell = w.num(); f.used = 0;
      for (long j = 0; j < k; j++) f.loop.push_back(vert());
    }
    for (int i = 0; i < nc; i++) for (long id : vf[i]) {
      if (id < 1 || id > nf) w.fail("vface", "cell " + std::to_string(i + 1) + " has face " + std::to_string(id) + " of " + std::to_string(nf));
      auto &f = fs[(size_t)id - 1];
      if (f.used++) w.fail("vface", "face " + std::to_string(id) + " belongs to two cells");
      if (f.cell != i + 1) w.fail("vface", "face " + std::to_string(id) + " of cell " + std::to_string(i + 1) + " says it belongs to cell " + std::to_string(f.cell));
      loops[i].push_back(f.loop);
    }
    for (long i = 0; i < nf; i++) {
      auto &f = fs[i];
      if (!f.used) w.fail("vface", "face " + std::to_string(i + 1) + " belongs to no cell");
      VI k = f.loop; std::sort(k.begin(), k.end());
      auto it = m.key[2].find(k);
      if (it == m.key[2].end()) w.fail("vface", "face " + std::to_string(i + 1) + " is none of the mesh's");
      int uses = 0; for (auto &e : s.e[3]) if (e.ref >= 0 && std::count(m.rfaces[e.ref].begin(), m.rfaces[e.ref].end(), it->second)) uses++;
      if ((uses == 2) != (f.opp != 0)) w.fail("vface", "face " + std::to_string(i + 1) + ", between " + std::to_string(uses) + " cells, has opposite face " + std::to_string(f.opp));
      if (f.opp) {
        if (f.opp < 1 || f.opp > nf || fs[(size_t)f.opp - 1].opp != i + 1) w.fail("vface", "face " + std::to_string(i + 1) + " has opposite face " + std::to_string(f.opp) + ", which does not have it");
        VI r = fs[(size_t)f.opp - 1].loop; std::reverse(r.begin(), r.end());
        if (!same_cycle(f.loop, r)) w.fail("vface", "faces " + std::to_string(i + 1) + " and " + std::to_string(f.opp) + " differ");
      }
    }
  }
  seen.clear();
  for (int i = 0; i < nc; i++) {
    int c = find_cell(m, loops[i]);
    if (c < 0 || !s.byref(m.dim, c)) w.fail(c == -2 ? "orientation" : "cells", "cell " + std::to_string(i + 1) + (c == -2 ? " has other orientation:" : " is none of the mesh's:") + loops_text(loops[i]));
    if (!seen.insert(c).second) w.fail("cells", ent_name(m.dim, c, m) + " is there twice");
    cell[i] = c;
  }
  w.want("material");
  long nm = w.num(); if (w.num() != 0) w.fail("material", "materials are not those of cells");
  std::vector<int> mat;
  for (long i = 0; i < nm; i++) { std::string t = w.word(); if (t.compare(0, 3, "mat")) w.fail("material", "name " + t); mat.push_back(atoi(t.c_str() + 3)); }
  for (int i = 0; i < nc; i++) { long q = w.num(); if (q < 1 || q > nm || mat[(size_t)q - 1] != m.gid[m.dim][cell[i]]) w.fail("material", ent_name(m.dim, cell[i], m) + " on geometric entity " + std::to_string(m.gid[m.dim][cell[i]]) + " has material " + std::to_string(q) + " of " + std::to_string(nm)); }
  w.want("variable");
  std::set<std::string> have;
  while (w.peek() != "endvars") {
    std::string nme = w.word();
    long on = w.num();
    if (on != 0 && on != 1) w.fail("syntax", "variable " + nme + " is on " + std::to_string(on));
    int k = on == 1 ? 0 : m.dim;
    const VI &who = on == 1 ? node : cell;
    if (!have.insert(nme + (on ? "@" : "")).second) w.fail("variable", nme + " is there twice");
    int a = -1;
    for (size_t q = 0; q < m.atts.size(); q++) if (m.atts[q].name == nme && m.atts[q].entdim == k) a = (int)q;
    bool known = nme == "itetclr" || nme == "icr1" || nme == "Node_GlobalID" || nme == "Cell_GlobalID" || nme == "Node_MasterPID" || nme == "Cell_MasterPID";
    if (a < 0 && !known) w.fail("variable", "variable " + nme + " on " + (on ? "nodes" : "cells") + " is no attribute of the mesh");
    for (int r : who) {
      double v;
      { std::string t = w.word(); char *e; v = strtod(t.c_str(), &e); if (*e) w.fail("variable", "'" + t + "' where a value of " + nme + " is expected"); }
      const Ent *e = s.byref(k, r);
      double want = 0, tol = 0;
      if (nme == "itetclr") want = e->gent;
      else if (nme == "icr1") want = 3 - e->gdim;
      else if (known) want = nme.find("Global") != std::string::npos ? e->gid : e->master;
      else { std::vector<double> q; if (m.att(a, r, q)) want = q[0]; tol = m.atts[(size_t)a].type == INT ? 0 : 6e-7; }
      if (std::fabs(v - want) > tol) { char b[100]; snprintf(b, sizeof b, " is %.17g, should be %.17g", v, want); w.fail("variable", nme + " of " + ent_name(k, r, m) + b); }
    }
  }
  w.want("endvars"); w.want("endgmv");
  if (!w.end()) w.fail("syntax", "more after the end");
  for (auto &a : m.atts) if ((a.type == INT || a.type == DOUBLE) && (a.entdim == 0 || a.entdim == m.dim)) {
    bool in = have.count(a.name + (a.entdim == 0 ? "@" : "")), should = atts.count(a.name);
    if (in != should) w.fail("variable", std::string("attribute ") + a.name + (in ? " is there, though not asked for" : " is missing"));
  }
  for (const char *q : {"itetclr", "icr1@", "Node_GlobalID@", "Cell_GlobalID", "Node_MasterPID@", "Cell_MasterPID"}) if (!have.count(q)) w.fail("variable", std::string("variable ") + q + " is missing");
}
// ---- FLAG X3D
struct Flag3 {
  struct F { VI loop; long own, opid, oid; int used = 0; };
  std::map<long, int> node;
  std::map<long, F> face;
  VI cell;
  struct G { long vid, pid, mid; };
  std::vector<G> ghost;
  bool ok = false;
};
static bool converted = false;           // by a program that may have added attributes and renumbered materials
static Flag3 check_x3d(const RefMesh &m, const Snap &s, Words &w, int rank, int n, const std::set<std::string> &atts) {
  Flag3 o;
  w.want("x3dtoflag"); w.want("ascii"); w.want("header");
  std::map<std::string, long> h;
  while (w.peek() != "end_header") { std::string k = w.word(); h[k] = w.num(); }
  w.want("end_header");
  for (const char *k : {"process", "numdim", "materials", "nodes", "faces", "elements", "ghost_nodes", "node_data_fields", "cell_data_fields"}) if (!h.count(k)) w.fail("syntax", std::string("no ") + k + " in the header");
  if (h["process"] != rank + 1 || h["numdim"] != m.dim) w.fail("header", "process " + std::to_string(h["process"]) + ", dimension " + std::to_string(h["numdim"]));
  // what the process writes: its own cells and what bounds them
  std::set<int> cells, verts;
  for (auto &e : s.e[m.dim]) if (e.ref >= 0 && e.pt != PGHOST) { cells.insert(e.ref); for (int v : m.down(m.dim, e.ref, 0)) verts.insert(v); }
  if (h["nodes"] != (long)verts.size()) w.fail("counts", std::to_string(h["nodes"]) + " nodes, the process' own cells have " + std::to_string(verts.size()));
  if (h["elements"] != (long)cells.size()) w.fail("counts", std::to_string(h["elements"]) + " cells, the process has " + std::to_string(cells.size()));
  long nm = h["materials"];
  std::set<std::string> mats;
  std::set<int> gids; for (int c = 0; c < m.ncells(); c++) gids.insert(m.gid[m.dim][c]);
  if (nm != (long)gids.size() && (!converted || nm < (long)gids.size())) w.fail("material", std::to_string(nm) + " materials, the cells lie on " + std::to_string(gids.size()) + " geometric entities");
  w.want("matnames"); for (long i = 1; i <= nm; i++) { if (w.num() != i) w.fail("material", "materials are not counted from 1"); mats.insert(w.word()); } w.want("end_matnames");
  if ((long)mats.size() != nm) w.fail("material", "two materials of the same name");
  for (const char *k : {"mateos", "matopc"}) { w.want(k); for (long i = 1; i <= nm; i++) { if (w.num() != i) w.fail("material", "materials are not counted from 1"); w.word(); } w.want((std::string("end_") + k).c_str()); }
  w.want("nodes");
  std::set<int> seen;
  while (w.peek() != "end_nodes") {
    long id = w.num(); double x = w.real(), y = w.real(), z = w.real();
    int v = vertex_at(m, x, y, z, 1e-11);
    if (v < 0 || !verts.count(v)) w.fail("nodes", "node " + std::to_string(id) + " is no vertex of the process' own cells");
    if (!seen.insert(v).second) w.fail("nodes", ent_name(0, v, m) + " is there twice");
    if (id < 1 || id > h["nodes"] || !o.node.emplace(id, v).second) w.fail("nodes", "node ID " + std::to_string(id) + " among " + std::to_string(h["nodes"]));
  }
  w.want("end_nodes");
  if (o.node.size() != verts.size()) w.fail("nodes", std::to_string(o.node.size()) + " nodes instead of " + std::to_string(verts.size()));
  w.want("faces");
  auto vert = [&]() { long i = w.num(); auto it = o.node.find(i); if (it == o.node.end()) w.fail("node_id", "node " + std::to_string(i) + " is referred to and not there"); return it->second; };
  while (w.peek() != "end_faces") {
    long id = w.num(), k = w.num();
    Flag3::F f;
    for (long j = 0; j < k; j++) f.loop.push_back(vert());
    f.own = w.num(); f.opid = w.num(); f.oid = w.num();
    for (int j = 0; j < 5; j++) w.num();
    if (f.own != rank + 1) w.fail("faces", "face " + std::to_string(id) + " is said to be process " + std::to_string(f.own) + "'s");
    if (id < 1 || id > h["faces"] || !o.face.emplace(id, f).second) w.fail("faces", "face ID " + std::to_string(id) + " among " + std::to_string(h["faces"]));
  }
  w.want("end_faces");
  if ((long)o.face.size() != h["faces"]) w.fail("counts", std::to_string(o.face.size()) + " faces, the header says " + std::to_string(h["faces"]));
  w.want("cells");
  seen.clear();
  for (long i = 1; i <= h["elements"]; i++) {
    if (w.num() != i) w.fail("cells", "cells are not counted from 1");
    long k = w.num();
    Loops l; VI loop;
    for (long j = 0; j < k; j++) {
      long id = w.num();
      auto it = o.face.find(id);
      if (it == o.face.end()) w.fail("cells", "cell " + std::to_string(i) + " has face " + std::to_string(id) + ", which is not there");
      if (it->second.used++) w.fail("faces", "face " + std::to_string(id) + " belongs to two cells");
      l.push_back(it->second.loop);
      if (m.dim == 2) loop.push_back(it->second.loop[0]);
    }
    if (m.dim == 2) {
      for (size_t j = 0; j < l.size(); j++) if (l[j].size() != 2 || l[j][1] != l[(j + 1) % l.size()][0]) w.fail("orientation", "the sides of cell " + std::to_string(i) + " are no loop:" + loops_text(l));
      l = {loop};
    }
    int c = find_cell(m, l);
    if (c < 0 || !cells.count(c)) w.fail(c == -2 ? "orientation" : "cells", "cell " + std::to_string(i) + (c == -2 ? " has other orientation:" : " is none of the process':") + loops_text(l));
    if (!seen.insert(c).second) w.fail("cells", ent_name(m.dim, c, m) + " is there twice");
    o.cell.push_back(c);
  }
  w.want("end_cells");
  for (auto &f : o.face) if (!f.second.used) w.fail("faces", "face " + std::to_string(f.first) + " belongs to no cell");
  w.want("slaved_nodes"); if (w.num() != 0) w.fail("syntax", "slaved nodes"); w.want("end_slaved_nodes");
  w.want("ghost_nodes"); long ng = w.num();
  if (ng != h["ghost_nodes"]) w.fail("counts", "ghost nodes");
  for (long i = 0; i < ng; i++) { Flag3::G g; g.vid = w.num(); g.pid = w.num(); g.mid = w.num(); w.num(); if (!o.node.count(g.vid)) w.fail("ghost_nodes", "node " + std::to_string(g.vid) + " is not there"); o.ghost.push_back(g); }
  w.want("end_ghost_nodes");
  w.want("cell_data");
  std::set<std::string> have; long nfield = 0;
  w.want("matid");
  std::map<std::string, int> back;
  for (int c : o.cell) { std::string t = w.word(); if (!mats.count(t)) w.fail("material", ent_name(m.dim, c, m) + " has material " + t + ", which is not among the names"); if (converted ? back.emplace(t, m.gid[m.dim][c]).first->second != m.gid[m.dim][c] : atoi(t.c_str()) != m.gid[m.dim][c]) w.fail("material", ent_name(m.dim, c, m) + " on geometric entity " + std::to_string(m.gid[m.dim][c]) + " has material " + t); }
  w.want("end_matid");
  w.want("partelm"); for (size_t i = 0; i < o.cell.size(); i++) if (w.num() != rank + 1) w.fail("partelm", "cell of another process"); w.want("end_partelm");
  nfield = 2;
  auto data = [&](const char *end, int k) {
    while (w.peek() != end) {
      std::string nme = w.word();
      nfield++;
      int a = -1;
      for (size_t q = 0; q < m.atts.size(); q++) if (m.atts[q].name == nme && m.atts[q].entdim == k) a = (int)q;
      if (a < 0 && converted) { while (w.peek() != "end_" + nme) w.word(); w.word(); continue; }
      if (a < 0) w.fail("variable", "field " + nme + " is no attribute of the mesh");
      if (!have.insert(nme + (k ? "" : "@")).second) w.fail("variable", nme + " is there twice");
      auto one = [&](int r) {
        std::vector<double> q; if (!m.att(a, r, q)) q.assign((size_t)m.atts[(size_t)a].ncomp, 0.0);
        if (k == 0) q.resize(3, 0.0);
        for (double x : q) { double v = w.real(); if (std::fabs(v - x) > 1e-11 * std::max(1.0, std::fabs(x))) { char b[100]; snprintf(b, sizeof b, " is %.17g, should be %.17g", v, x); w.fail("variable", nme + " of " + ent_name(k, r, m) + b); } }
      };
      if (k == 0) for (auto &v : o.node) one(v.second); else for (int c : o.cell) one(c);
      w.want(("end_" + nme).c_str());
    }
    w.want(end);
  };
  data("end_cell_data", m.dim);
  if (nfield != h["cell_data_fields"]) w.fail("counts", std::to_string(nfield) + " cell data fields, the header says " + std::to_string(h["cell_data_fields"]));
  w.want("node_data"); nfield = 0;
  data("end_node_data", 0);
  if (nfield != h["node_data_fields"]) w.fail("counts", std::to_string(nfield) + " node data fields, the header says " + std::to_string(h["node_data_fields"]));
  w.want("end_dump");
  if (!w.end()) w.fail("syntax", "more after the end");
  for (auto &a : m.atts) {
    bool can = a.entdim == m.dim ? a.type == INT || a.type == DOUBLE : a.entdim == 0 && a.type == VECTOR && a.ncomp == m.dim;
    if (!can) continue;
    bool in = have.count(a.name + (a.entdim ? "" : "@")), should = atts.count(a.name);
    if (in != should) w.fail("variable", "attribute " + a.name + (in ? " is there, though not asked for" : " is missing"));
  }
  if (converted) return o;
  // lists of cells of a material, of members of sets
  auto list = [&](const std::string &f, int k, const std::set<int> &want) {
    Words q; q.file = f; if (n > 1) { char b[16]; snprintf(b, sizeof b, ".%05d", rank + 1); q.file += b; }
    if (!io_exists(q.file)) w.fail("list", "there is no file " + q.file);
    q.text = io_get(q.file);
    std::set<int> got;
    for (;;) {
      if (q.at >= q.text.size()) break;
      std::string l = q.line();
      if (l.find_first_not_of(" ") == std::string::npos) break;
      long id = atol(l.c_str());
      int r = -1;
      if (k == 0) { auto it = o.node.find(id); if (it != o.node.end()) r = it->second; }
      else if (id >= 1 && id <= (long)o.cell.size()) r = o.cell[(size_t)id - 1];
      if (r < 0) q.fail("list", "it names " + std::string(k ? "cell " : "node ") + std::to_string(id) + ", which is not in the process' file");
      got.insert(r);
    }
    // volume fractions of the cells of a material: all of each
    size_t frac = 0;
    if (k) while (q.at < q.text.size()) { std::string l = q.line(); if (l.find_first_not_of(" ") == std::string::npos) continue; if (atof(l.c_str()) != 1) q.fail("list", "the volume fraction of a cell is " + l); frac++; }
    if (k && frac != got.size()) q.fail("list", std::to_string(frac) + " volume fractions of " + std::to_string(got.size()) + " cells");
    if (got != want) {
      std::string t; for (int x : want) if (!got.count(x)) { t = "lacks " + ent_name(k, x, m); break; }
      if (t.empty()) for (int x : got) if (!want.count(x)) { t = "has " + ent_name(k, x, m); break; }
      q.fail("list", std::to_string(got.size()) + " members instead of " + std::to_string(want.size()) + ": it " + t);
    }
  };
  int i = 0;
  for (int gid : gids) {                 // in ascending order
    std::set<int> want; for (int c : o.cell) if (m.gid[m.dim][c] == gid) want.insert(c);
    list("mat." + std::to_string(++i) + ".Reg", m.dim, want);
  }
  for (size_t q = 0; q < m.sets.size(); q++) {
    int k = m.sets[q].entdim;
    bool local = false; for (auto &x : s.sets) if (x.name == m.sets[q].name) local = true;
    if (!local || (k != 0 && k != m.dim)) continue;
    std::set<int> want;
    if (k) { for (int c : o.cell) if (m.inset((int)q, k, c)) want.insert(c); }
    else for (int v : verts) if (m.inset((int)q, 0, v)) want.insert(v);
    list("simfs_x." + m.sets[q].name + (k ? ".Reg" : ".Bdy"), k, want);
  }
  o.ok = true;
  return o;
}
// the files of all processes together
static void check_x3d_all(const RefMesh &m, std::vector<Flag3> &x, const std::vector<Snap> &s) {
  int n = (int)x.size();
  std::set<int> cells;
  auto fail = [&](const char *cls, const std::string &t) { violate(PR, cls, "%s", t.c_str()); throw Bad(); };
  for (auto &o : x) for (int c : o.cell) if (!cells.insert(c).second) fail("cells", ent_name(m.dim, c, m) + " is in two processes' files");
  for (int c = 0; c < m.ncells(); c++) if (!cells.count(c)) fail("cells", ent_name(m.dim, c, m) + " is in no process' file");
  std::map<int, int> uses;
  int kf = m.dim - 1;
  for (int c = 0; c < m.ncells(); c++) for (int f : m.down(m.dim, c, kf)) uses[f]++;
  for (int r = 0; r < n; r++) for (auto &q : x[r].face) {
    auto &f = q.second;
    std::string nme = "face " + std::to_string(q.first) + " of process " + std::to_string(r + 1);
    VI k = f.loop; std::sort(k.begin(), k.end());
    auto it = m.key[kf].find(k);
    if (it == m.key[kf].end()) fail("faces", nme + " is none of the mesh's");
    if (uses[it->second] == 1) { if (f.opid || f.oid) fail("opposite", nme + " on the boundary has opposite face " + std::to_string(f.oid) + " of process " + std::to_string(f.opid)); continue; }
    if (f.opid < 1 || f.opid > n) fail("opposite", nme + ", between two cells, has opposite face " + std::to_string(f.oid) + " of process " + std::to_string(f.opid));
    auto &of = x[(size_t)f.opid - 1].face;
    auto jt = of.find(f.oid);
    if (jt == of.end()) fail("opposite", nme + " has opposite face " + std::to_string(f.oid) + " of process " + std::to_string(f.opid) + ", which is not in that process' file");
    VI rv = jt->second.loop; std::reverse(rv.begin(), rv.end());
    if (!same_cycle(f.loop, rv)) fail("opposite", nme + " and its opposite face " + std::to_string(f.oid) + " of process " + std::to_string(f.opid) + " are not the same face seen from its two sides");
    if (jt->second.opid != r + 1 || jt->second.oid != q.first) fail("opposite", nme + " has opposite face " + std::to_string(f.oid) + " of process " + std::to_string(f.opid) + ", which has another one");
  }
  std::vector<VI> in((size_t)m.n(0));
  for (int r = 0; r < n; r++) for (auto &v : x[r].node) in[v.second].push_back(r);
  std::vector<std::map<int, Flag3::G>> gh((size_t)n);
  for (int r = 0; r < n; r++) for (auto &g : x[r].ghost) if (!gh[r].emplace(x[r].node[g.vid], g).second) fail("ghost_nodes", ent_name(0, x[r].node[g.vid], m) + " is twice among the ghost nodes of process " + std::to_string(r + 1));
  for (int v = 0; v < m.n(0); v++) for (int r : in[v]) {
    auto it = gh[r].find(v);
    if ((in[v].size() > 1) != (it != gh[r].end())) fail("ghost_nodes", ent_name(0, v, m) + ", in the files of " + std::to_string(in[v].size()) + " processes, is " + (it == gh[r].end() ? "not " : "") + "among the ghost nodes of process " + std::to_string(r + 1));
    if (it == gh[r].end()) continue;
    auto &g = it->second;
    if (g.pid < 1 || g.pid > n || !x[(size_t)g.pid - 1].node.count(g.mid) || x[(size_t)g.pid - 1].node[g.mid] != v) fail("ghost_nodes", ent_name(0, v, m) + " of process " + std::to_string(r + 1) + " has master node " + std::to_string(g.mid) + " of process " + std::to_string(g.pid) + ", which is another one");
    for (int q : in[v]) { auto jt = gh[q].find(v); if (jt != gh[q].end() && jt->second.pid != g.pid) fail("ghost_nodes", ent_name(0, v, m) + " has different master processes in different files"); }
  }
}
// ---- STL, OFF
static void check_stl(const RefMesh &m, Words &w) {
  w.want("solid");
  std::set<int> seen;
  while (w.peek() == "facet") {
    w.want("facet"); w.want("normal");
    XYZ nn, x[3];
    for (auto &c : nn) { std::string t = w.word(); c = atof(t.c_str()); }
    w.want("outer"); w.want("loop");
    VI l;
    for (auto &p : x) { w.want("vertex"); for (auto &c : p) c = w.real(); int v = vertex_at(m, p[0], p[1], p[2], 1e-9); if (v < 0) w.fail("nodes", "a corner is no vertex of the mesh"); l.push_back(v); }
    w.want("endloop"); w.want("endfacet");
    int c = find_cell(m, {l});
    if (c < 0) w.fail(c == -2 ? "orientation" : "cells", "a facet is no face of the mesh:" + loops_text({l}));
    if (!seen.insert(c).second) w.fail("cells", ent_name(2, c, m) + " is there twice");
    double a[3], b[3], q[3], len = 0;
    for (int k = 0; k < 3; k++) { a[k] = x[1][k] - x[0][k]; b[k] = x[2][k] - x[0][k]; }
    for (int k = 0; k < 3; k++) q[k] = a[(k + 1) % 3] * b[(k + 2) % 3] - a[(k + 2) % 3] * b[(k + 1) % 3], len += q[k] * q[k];
    len = std::sqrt(len);
    if (len > 1e-6) for (int k = 0; k < 3; k++) if (std::fabs(q[k] / len - nn[k]) > 1e-4) w.fail("normal", "the normal of " + ent_name(2, c, m) + " is wrong");
  }
  w.want("endsolid");
  if (!w.end()) w.fail("syntax", "more after the end");
  if ((int)seen.size() != m.n(2)) w.fail("counts", std::to_string(seen.size()) + " facets, the mesh has " + std::to_string(m.n(2)) + " faces");
}
static void check_off(const RefMesh &m, Words &w) {
  w.want("OFF");
  long nv = w.num(), nf = w.num(); w.num();
  if (nv != m.n(0) || nf != m.n(2)) w.fail("counts", std::to_string(nv) + " vertices, " + std::to_string(nf) + " faces, the mesh has " + std::to_string(m.n(0)) + " and " + std::to_string(m.n(2)));
  VI node; std::set<int> seen;
  for (long i = 0; i < nv; i++) {
    double x = w.real(), y = w.real(), z = w.real();
    int v = vertex_at(m, x, y, z, 1e-11);
    if (v < 0 || !seen.insert(v).second) w.fail("nodes", "vertex " + std::to_string(i) + " is none of the mesh's, or there twice");
    node.push_back(v);
  }
  seen.clear();
  for (long i = 0; i < nf; i++) {
    long k = w.num(); VI l;
    for (long j = 0; j < k; j++) { long q = w.num(); if (q < 0 || q >= nv) w.fail("node_id", "face " + std::to_string(i) + " has vertex " + std::to_string(q) + ", counted from 0 there are " + std::to_string(nv)); l.push_back(node[(size_t)q]); }
    int c = find_cell(m, {l});
    if (c < 0) w.fail(c == -2 ? "orientation" : "cells", "face " + std::to_string(i) + (c == -2 ? " has other orientation:" : " is none of the mesh's:") + loops_text({l}));
    if (!seen.insert(c).second) w.fail("cells", ent_name(2, c, m) + " is there twice");
  }
  if (!w.end()) w.fail("syntax", "more after the end");
}
// a file of one process, written by something else than this workload
bool check_written(const char *prop, const RefMesh &m, const std::vector<Snap> &s, const std::string &file, const char *fmt, const std::set<std::string> &atts) {
  PR = prop; converted = true;
  std::string f = fmt;
  Words w; w.file = file;
  if (!io_exists(file)) { violate(PR, "no_file", "there is no file %s", file.c_str()); return false; }
  w.text = io_get(file);
  try {
    if (f == "gmv") check_gmv(m, s[0], w, atts);
    else if (f == "x3d") { std::vector<Flag3> x = {check_x3d(m, s[0], w, 0, 1, atts)}; check_x3d_all(m, x, s); }
    else if (f == "stl") check_stl(m, w);
    else check_off(m, w);
  } catch (Bad &) { return false; }
  return true;
}
static void run_export() {
  PR = "C25"; converted = false;
  RefMesh m = ref_from_params();
  if (P("round")) { for (auto &x : m.xyz) for (auto &c : x) c = std::round(c * 1024) / 1024; m.reindex(); if ((int)m.vkey.size() != m.n(0)) stop_run("skip: coinciding vertices"); }
  int n = (int)P("n", 1), f = (int)P("fmt");
  if (m.ncells() < n) stop_run("skip: fewer cells than processes");
  std::vector<Snap> s((size_t)n);
  std::string file = std::string("simfs_x.") + xname[f];
  std::set<std::string> atts;              // those asked for
  std::vector<std::string> sel;
  if (P("attsel") == 0) for (auto &a : m.atts) atts.insert(a.name);
  else if (P("attsel") == 2) { for (size_t a = 0; a < m.atts.size(); a++) if (a % 2 == 0) { sel.push_back(m.atts[a].name); atts.insert(m.atts[a].name); } if (sel.empty()) for (auto &a : m.atts) atts.insert(a.name); }
  run_ranks(n, [&](int r) {
    Mesh_ptr mine;
    if (n > 1) mine = do_distribute(m, r);
    else { set_where("build"); mine = build(m, nullptr, P("rep") ? F4 : F1, (uint64_t)P("shuffle"), true).mesh; }
    s[r] = snapshot(mine, m, SN_ATT | SN_UP);
    int na = MESH_Num_Attribs(mine), ns = MESH_Num_MSets(mine);
    io_plan() = IoPlan(); io_plan().shortw = (int)P("shortw"); io_plan().bufsz = P("bufsz");
    set_where(xname[f]);
    int opts[5] = {(int)P("opt0"), (int)P("opt1"), 0, 0, 0};
    std::vector<const char *> names; for (auto &x : sel) names.push_back(x.c_str());
    int natt = P("attsel") == 1 ? -1 : (int)names.size();
    MSTK_Comm comm = n == 1 && P("commnull") && f != X_X3D ? (MSTK_Comm)0 : group_comm();
    int ok = MESH_ExportToFile(mine, file.c_str(), P("fromext") && (f == X_GMV || f == X_OFF) ? nullptr : xname[f], natt, names.empty() ? nullptr : names.data(), f == X_GMV && (opts[0] || opts[1]) ? opts : nullptr, comm);
    io_plan() = IoPlan();
    if (ok != 1) { violate(PR, "write_failed", "process %d: MESH_ExportToFile returns %d although nothing failed", r, ok); return; }
    if (MESH_Num_Attribs(mine) != na || MESH_Num_MSets(mine) != ns) violate(PR, "mesh_changed", "process %d: after the export the mesh has %d attributes and %d sets, before %d and %d", r, MESH_Num_Attribs(mine), MESH_Num_MSets(mine), na, ns);
    else if (snap_hash(snapshot(mine, m, SN_ATT | SN_UP)) != snap_hash(s[r])) violate(PR, "mesh_changed", "process %d: the export changes the mesh", r);
    sync([&]() {
      if (io_open_fds) violate(PR, "left_open", "%d files are still open", io_open_fds);
      try {
        std::vector<Flag3> x((size_t)n);
        for (int q = 0; q < n; q++) {
          Words w; w.file = file;
          if (n > 1) { char b[16]; snprintf(b, sizeof b, ".%05d", q + (f == X_X3D)); w.file += b; }
          if (!io_exists(w.file)) { violate(PR, "no_file", "there is no file %s", w.file.c_str()); return; }
          w.text = io_get(w.file);
          mix_result(f == X_GMV ? 0 : (uint64_t)std::hash<std::string>()(w.text));
          if (f == X_GMV) check_gmv(m, s[q], w, atts);
          else if (f == X_X3D) x[q] = check_x3d(m, s[q], w, q, n, atts);
          else if (f == X_STL) check_stl(m, w);
          else check_off(m, w);
        }
        if (f == X_X3D) check_x3d_all(m, x, s);
      } catch (Bad &) { return; }
      count((std::string("op.export_") + xname[f]).c_str());
      char b[200];
      snprintf(b, sizeof b, "export %s dim%d ctype%ld n%ld ring%ld rep%ld method%ld opt%ld%ld natt%ld sel%ld", xname[f], m.dim, P("ctype"), P("n"), P("ring"), P("rep"), P("method"), P("opt0"), P("opt1"), P("natt"), P("attsel"));
      probe(b);
    });
  });
}
static Reg reg({"export", gen_export, run_export});
