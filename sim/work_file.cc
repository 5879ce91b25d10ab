// Workload "file": a mesh is written through the simulated disk, the file is damaged or the
// disk fails, and the file is read back.
#include "work.h"
#include "io.h"
#include <cstdio>
#include <cstring>
#include <cmath>
#include <algorithm>
extern "C" {
int MESH_ExportToDX(Mesh_ptr, const char *, int);
int MESH_WriteToFile(Mesh_ptr mesh, const char *filename, RepType rtype, MSTK_Comm comm);
int MESH_InitFromFile(Mesh_ptr mesh, const char *filename, MSTK_Comm comm);
}
enum { F_MSTK, F_GMV, F_X3D, F_STL, F_OFF, F_DX, F_EXO };
static const char *fmtname[] = {"mstk", "gmv", "x3d", "stl", "off", "dx", "exodusii"};
static const char *fmtext[] = {"mstk", "gmv", "x3d", "stl", "off", ".dx", "exo"};

static void gen_disk(Rng &g, Params &p, bool wr, bool rd) {
  p.set("bufsz", g.chance(50) ? 0 : g.chance(50) ? g.range(1, 64) : g.range(65, 5000));
  if (wr && g.chance(60)) p.set("shortw", g.range(5, 100));
  if (rd && g.chance(60)) p.set("shortr", g.range(5, 100));
}
static void gen_file(Rng &g, Params &p, const std::string &prop, bool thorough) {
  p.set("n", 1);
  gen_mesh_params(g, p, thorough ? 60 : 24);
  p.set("rep", g.chance(20));
  p.set("shuffle", g.chance(70) ? g.range(1, 1000) : 0);
  p.set("natt", g.chance(75) ? g.range(0, 5) : 0); p.set("nset", g.range(0, 3));
  p.set("attseed", g.range(1, 100000)); p.set("names", g.range(0, 3)); p.set("minc", 1);
  p.set("cscale", g.chance(50) ? 0 : g.range(-14, 14));
  p.set("attscale", g.chance(50) ? 0 : g.range(1, 30));
  p.set("commnull", g.range(0, 1));
  p.set("readrep", g.range(0, 1)); p.set("direct", g.range(0, 1));
  p.set("lname", g.chance(20) ? g.range(1, 400) : 0);
  p.set("wrep", (prop == "C16" || prop == "C18") && g.chance(25) ? g.range(1, 3) : 0);
  if (p.get("wrep")) { if (!g.chance(40)) p.set("natt", 0); p.set("readas", g.chance(40) ? g.range(1, 5) : 0); if (p.get("dim") == 3) { p.set("ctype", g.range(0, 4)); if (p.get("wrep") == 2) p.set("wrep", 1); if (p.get("readas") > 2) p.set("readas", p.get("wrep") == 1 ? 3 : 5); } }
  p.set("fmt", F_MSTK);
  gen_net(g, p, 0);
  if (prop == "C19") {                       // Exodus II: everything the other three do
    gen_exo_common(g, p);
    p.set("fmt", F_EXO); p.set("rep", 0); p.set("wrep", 0); p.set("cscale", g.chance(70) ? 0 : g.range(-12, 12));
    int md = (int)g.range(0, 9);
    p.set("mode", md < 4 ? 0 : md < 8 ? 1 : 2);
    gen_disk(g, p, p.get("mode") == 0 || g.chance(30), p.get("mode") != 1);
    p.set("shortr", 0);                      // netCDF itself takes a short read for the end of the file
    if (p.get("mode") == 0 && g.chance(10)) p.set("eintr", g.range(1, 20));
    p.set("fault", p.get("mode") == 2 ? 5 : g.range(0, 5)); if (p.get("fault") == 4 && p.get("mode") == 1) p.set("fault", 5);  // netCDF ignores what close() returns
    p.set("at_ppm", g.chance(25) ? (g.chance(50) ? 0 : 999999) : g.range(0, 999999));
    p.set("lost", g.chance(50) ? 1 : g.range(1, 5000)); p.set("sticky", g.range(0, 1)); p.set("lname", g.chance(20) ? g.range(1, 150) : 0);   // the library's own messages overflow for longer paths
    if (p.get("mode") == 1 && p.get("fault") == 2 && !p.get("sticky")) p.set("shortw", 0);   // a short write and then an error: netCDF loses its place, and libexodus does not look at what nc_sync returns
  } else if (prop == "C16") {
    p.set("mode", 0); gen_disk(g, p, true, true);
    if (g.chance(10)) p.set("eintr", g.range(1, 20));
  } else if (prop == "C17") {
    p.set("mode", 1); gen_disk(g, p, g.chance(30), false);
    int f = (int)g.range(0, 9);
    p.set("fmt", f < 4 ? F_MSTK : f < 5 ? F_GMV : f < 6 ? F_X3D : f < 7 ? F_STL : f < 8 ? F_OFF : f < 9 ? F_DX : F_GMV);
    if (p.get("fmt") != F_MSTK) { p.set("cscale", 0); p.set("attscale", 0); p.set("nospace", 1); }
    if (p.get("fmt") == F_STL || p.get("fmt") == F_OFF) {
      if (p.get("dim") == 3) { gen_mesh_params(g, p, thorough ? 60 : 24, "", 2); }
      if (p.get("fmt") == F_STL) p.set("ctype", 1);
    }
    if (p.get("fmt") == F_DX && p.get("dim") == 3) p.set("ctype", g.range(0, 4));
    p.set("fault", g.range(0, 5)); p.set("at_ppm", g.chance(25) ? (g.chance(50) ? 0 : 999999) : g.range(0, 999999));
    p.set("lost", g.chance(50) ? 1 : g.range(1, 5000)); p.set("sticky", g.range(0, 1));
  } else if (prop == "C18") {
    p.set("mode", 2); gen_disk(g, p, false, g.chance(30));
    p.set("fault", g.range(0, 5)); p.set("at_ppm", g.chance(40) ? 999999 - g.range(0, 3000) * g.range(0, 30) : g.range(0, 999999)); p.set("sticky", g.range(0, 1));
    p.set("len", g.chance(50) ? g.range(1, 30) : g.range(30, 6000));
  }
  if (p.get("fmt") == F_MSTK) p.set("mixatts", g.chance(30));
  if (g.chance(20)) p.set("ptratt", g.range(1, 6));
}
static RepType wrep();
static int do_write(Mesh_ptr mesh, const std::string &file) {
  int f = (int)P("fmt");
  MSTK_Comm comm = P("commnull") && f != F_X3D ? (MSTK_Comm)0 : group_comm();
  set_where(fmtname[f]);
  int ok;
  std::vector<char> nm(file.begin(), file.end()); nm.push_back(0);   // exporters may scribble on the name
  if (f == F_MSTK && (P("direct", 0) || P("wrep"))) ok = MESH_WriteToFile(mesh, nm.data(), wrep(), comm);
  else { int opts[3] = {0, 1, 1}; ok = MESH_ExportToFile(mesh, nm.data(), fmtname[f], 0, nullptr, f == F_EXO && P("geosets") ? opts : nullptr, comm); }
  if (file != nm.data()) violate(f == F_EXO ? "C19" : "C17", "argument", "writing %s changes the file name passed to it to %s", file.c_str(), nm.data());
  count("op.write");
  return ok;
}
static uint64_t mesh_state(Mesh_ptr mesh, const RefMesh &m, std::string *desc) {
  Snap s = snapshot(mesh, m, SN_ATT | SN_UP);
  uint64_t h = snap_hash(s);
  std::string d = std::to_string(s.e[0].size()) + " vertices";
  int na = MESH_Num_Attribs(mesh);
  for (int i = 0; i < na; i++) { char b[256]; MAttrib_Get_Name(MESH_Attrib(mesh, i), b); d += std::string(" attribute ") + b; }
  int ns = MESH_Num_MSets(mesh);
  for (int i = 0; i < ns; i++) { char b[256]; MSet_Name(MESH_MSet(mesh, i), b); d += std::string(" set ") + b; }
  *desc = d;
  return mix(h ^ std::hash<std::string>()(d));
}
static std::string diff_files(const std::map<std::string, std::string> &a, const std::map<std::string, std::string> &b) {
  for (auto &f : a) {
    auto it = b.find(f.first);
    if (it == b.end()) return f.first + " is missing";
    if (it->second != f.second) {
      size_t i = 0; while (i < f.second.size() && i < it->second.size() && f.second[i] == it->second[i]) i++;
      char t[200]; snprintf(t, sizeof t, "%s has %zu bytes instead of %zu and differs from byte %zu on", f.first.c_str(), it->second.size(), f.second.size(), i);
      return t;
    }
  }
  return "";
}
// attributes of a mesh read from a native file; mode 1: all there, 2: those that are there
void check_file_atts(const RefMesh &m, const Snap &s, const char *prop, int mode) {
  for (size_t a = 0; a < m.atts.size(); a++) {
    auto &d = m.atts[a];
    int f = -1;
    for (size_t x = 0; x < s.atts.size(); x++) if (s.atts[x].name == d.name) { if (f >= 0) violate(prop, "att_list", "the mesh read has the attribute %s twice", d.name.c_str()); f = (int)x; }
    bool listed = f >= 0;
    if (listed && (s.atts[f].type != d.type || s.atts[f].entdim != d.entdim || s.atts[f].ncomp != d.ncomp)) { violate(prop, "att_list", "attribute %s read with type %d, entity dimension %d, %d components", d.name.c_str(), s.atts[f].type, s.atts[f].entdim, s.atts[f].ncomp); continue; }
    for (int k = 0; k <= m.dim; k++) if (k == d.entdim || d.entdim == MALLTYPE) for (auto &e : s.e[k]) {
      if (e.ref < 0) continue;
      std::vector<double> v;
      if (!m.att((int)a, e.ref, v, k)) v.assign((size_t)d.ncomp, 0.0);
      if (!listed) {                     // an attribute in which nothing is set need not be in the file
        bool any = false; for (double x : v) any |= x != 0;
        if (any && mode == 1) { violate(prop, "att_list", "the mesh read lacks the attribute %s", d.name.c_str()); break; }
      } else if (e.atts[f] != v) violate(prop, "att_value", "attribute %s (type %d) of %s is read as %.17g, written was %.17g (component 0 of %d)", d.name.c_str(), d.type, ent_name(k, e.ref, m).c_str(), e.atts[f].empty() ? -0.5 : e.atts[f][0], v[0], d.ncomp);
    }
  }
  for (auto &x : s.atts) { bool in = false; for (auto &y : m.atts) if (y.name == x.name) in = true; if (!in) violate(prop, "att_list", "the mesh read has an attribute '%s' which the one written had not", x.name.c_str()); }
}
// compare a mesh read from a file with the reference
static void check_read(const RefMesh &m0, Mesh_ptr mesh, const char *prop, int atts) {   // atts 1: all there, 2: those that are there
  RefMesh m = m0;
  std::vector<Snap> s(1);
  s[0] = snapshot(mesh, m, SN_ATT | SN_UP);
  if (P("fmt") == F_EXO) {
    for (int k = 0; k <= m.dim; k++) if ((int)s[0].e[k].size() != m.n(k)) violate(prop, "entities", "the mesh read has %zu entities of kind %s, the one written %d", s[0].e[k].size(), kname(k), m.n(k));
    check_exo(m, s, prop, false);
    count("exodus.used");
    return;
  }
  for (int k = 0; k <= m.dim; k++) if ((int)s[0].e[k].size() != m.n(k)) violate(prop, "entities", "the mesh read has %zu entities of kind %s, the one written %d", s[0].e[k].size(), kname(k), m.n(k));
  OracleOpt o; o.p1 = prop;
  check_conserve(m, s, o);
  for (int k = 0; k < m.dim; k++) { std::set<int> have; for (auto &e : s[0].e[k]) have.insert(e.ref); for (int i = 0; i < m.n(k); i++) if (!have.count(i)) { violate(prop, "entities", "the mesh read lacks %s", ent_name(k, i, m).c_str()); break; } }
  m.sets.clear(); s[0].sets.clear();               // the native format has no sets
  if (atts) check_file_atts(m, s[0], prop, atts);
  mix_result(snap_hash(s[0]));
}
// a mesh read from a file in a reduced representation: vertices and cells
static void check_reduced(const RefMesh &m, Mesh_ptr mesh, const char *prop, int atts) {
  int kd = m.dim == 2 ? 2 : 3;
  if (MESH_Num_Vertices(mesh) != m.n(0) || (kd == 2 ? MESH_Num_Faces(mesh) : MESH_Num_Regions(mesh)) != m.n(kd)) { violate(prop, "entities", "the mesh read has %d vertices, %d faces, %d regions", MESH_Num_Vertices(mesh), MESH_Num_Faces(mesh), MESH_Num_Regions(mesh)); return; }
  std::unordered_map<void *, int> ref;
  std::set<int> seen;
  for (int i = 0; i < m.n(0); i++) {
    void *h = MESH_Vertex(mesh, i);
    double x[3]; MV_Coords(h, x);
    uint64_t b[3]; memcpy(b, x, sizeof b);
    auto it = m.vkey.find({{b[0], b[1], b[2]}});
    if (it == m.vkey.end()) { violate(prop, "garbled", "the mesh read has a vertex at (%.17g,%.17g,%.17g), the one written has none there", x[0], x[1], x[2]); return; }
    ref[h] = it->second; seen.insert(it->second);
    if (MV_GEntDim(h) != m.gdim[0][it->second] || MV_GEntID(h) != m.gid[0][it->second]) violate(prop, "classification", "%s is read with classification %d/%d", ent_name(0, it->second, m).c_str(), MV_GEntDim(h), MV_GEntID(h));
  }
  if ((int)seen.size() != m.n(0)) violate(prop, "entities", "vertices read twice");
  seen.clear();
  auto loop = [&](void *f, int dir) { List_ptr l = MF_Vertices(f, dir, 0); VI c; for (int q = 0; q < List_Num_Entries(l); q++) c.push_back(ref.count(List_Entry(l, q)) ? ref[List_Entry(l, q)] : -1); List_Delete(l); return c; };
  for (int i = 0; i < m.n(kd); i++) {
    int r = -1, gd, gi;
    if (kd == 2) {
      void *h = MESH_Face(mesh, i);
      VI c = loop(h, 1), key = c; std::sort(key.begin(), key.end());
      auto it = m.key[2].find(key);
      if (it == m.key[2].end()) { violate(prop, "garbled", "the mesh read has a face which the one written had not"); return; }
      r = it->second;
      if (!same_cycle(m.faces[r], c)) violate(prop, "orientation", "%s is read with other orientation", ent_name(2, r, m).c_str());
      gd = MF_GEntDim(h); gi = MF_GEntID(h);
    } else {
      void *h = MESH_Region(mesh, i);
      List_ptr l = MR_Faces(h);
      int n = List_Num_Entries(l);
      std::set<int> vs; std::set<VI> fk;
      std::map<VI, VI> out;
      for (int q = 0; q < n; q++) {
        void *f = List_Entry(l, q);
        VI c = loop(f, MR_FaceDir_i(h, q)), key = c; std::sort(key.begin(), key.end());
        for (int v : c) vs.insert(v);
        fk.insert(key); out[key] = c;
      }
      List_Delete(l);
      VI key(vs.begin(), vs.end());
      for (int q = 0; q < m.n(3); q++) if (m.verts(3, q) == key) { std::set<VI> g; for (int f : m.rfaces[q]) g.insert(m.verts(2, f)); if (g == fk) r = q; }
      if (r < 0) { violate(prop, "garbled", "the mesh read has a region which the one written had not"); return; }
      for (size_t q = 0; q < m.rfaces[r].size(); q++) {
        int f = m.rfaces[r][q];
        VI c = m.faces[f]; if (!m.rdirs[r][q]) std::reverse(c.begin(), c.end());
        if (!same_cycle(c, out[m.verts(2, f)])) { violate(prop, "orientation", "a face of %s is read with other orientation", ent_name(3, r, m).c_str()); break; }
      }
      gd = MR_GEntDim(h); gi = MR_GEntID(h);
    }
    seen.insert(r); ref[kd == 2 ? MESH_Face(mesh, i) : MESH_Region(mesh, i)] = r;
    if (gd != m.gdim[kd][r] || gi != m.gid[kd][r]) violate(prop, "classification", "%s is read with classification %d/%d, was %d/%d", ent_name(kd, r, m).c_str(), gd, gi, m.gdim[kd][r], m.gid[kd][r]);
  }
  if ((int)seen.size() != m.n(kd)) violate(prop, "entities", "cells read twice");
  // upward and vertex-to-vertex adjacencies
  std::vector<std::set<int>> up((size_t)m.n(0)), nb((size_t)m.n(0));
  for (int c = 0; c < m.n(kd); c++) for (int v : m.verts(kd, c)) up[(size_t)v].insert(c);
  for (int e = 0; e < m.n(1); e++) { VI v = m.verts(1, e); nb[(size_t)v[0]].insert(v[1]); nb[(size_t)v[1]].insert(v[0]); }
  RepType rt = MESH_RepType(mesh);
  for (int i = 0; i < m.n(0); i++) {
    void *h = MESH_Vertex(mesh, i);
    int v = ref[h];
    List_ptr l = kd == 2 ? MV_Faces(h) : MV_Regions(h);
    int n = l ? List_Num_Entries(l) : 0; std::set<int> got;
    for (int q = 0; q < n; q++) { void *c = List_Entry(l, q); got.insert(ref.count(c) ? ref[c] : -1); }
    if (l) List_Delete(l);
    if (rt == F1 || rt == F4 || (kd == 3 && rt == R1)) if (got != up[(size_t)v] || n != (int)got.size()) { violate(prop, "adjacency", "%s is read with %d cells around it, has %zu", ent_name(0, v, m).c_str(), n, up[(size_t)v].size()); break; }
    if (!(rt == F1 || rt == F4 || (kd == 3 && rt == R1) || ((rt == R2 || rt == R4) && P("wrep") >= 2))) continue;   // a mesh of that kind does not know, or was not told
    l = MV_AdjVertices(h);
    n = l ? List_Num_Entries(l) : 0; got.clear();
    for (int q = 0; q < n; q++) { void *c = List_Entry(l, q); got.insert(ref.count(c) ? ref[c] : -1); }
    if (l) List_Delete(l);
    if (got != nb[(size_t)v] || n != (int)got.size()) { violate(prop, "adjacency", "%s is read with %d vertices next to it, has %zu (representation %d)", ent_name(0, v, m).c_str(), n, nb[(size_t)v].size(), (int)rt); break; }
  }
  // attributes of vertices and cells
  for (size_t a = 0; a < m.atts.size() && atts; a++) {
    auto &d = m.atts[a];
    void *at = MESH_AttribByName(mesh, d.name.c_str());
    for (int k : {0, kd}) {
      if (d.entdim != k && d.entdim != MALLTYPE) continue;
      int n = k == 0 ? MESH_Num_Vertices(mesh) : kd == 2 ? MESH_Num_Faces(mesh) : MESH_Num_Regions(mesh);
      for (int i = 0; i < n; i++) {
        void *h = k == 0 ? MESH_Vertex(mesh, i) : kd == 2 ? MESH_Face(mesh, i) : MESH_Region(mesh, i);
        std::vector<double> v, w((size_t)d.ncomp, 0.0);
        if (!m.att((int)a, ref[h], v, k)) v = w;
        if (at) { int iv = 0; double dv = 0; void *pv = nullptr; int ok = MEnt_Get_AttVal(h, at, &iv, &dv, &pv); if (ok && d.type == INT) w[0] = iv; else if (ok && d.type == DOUBLE) w[0] = dv; else if (ok && pv) w.assign((double *)pv, (double *)pv + d.ncomp); }
        else if (atts == 2) break;
        if (v != w) { violate(prop, "att_value", "attribute %s of %s is read as %.17g, written was %.17g (component 0 of %d)", d.name.c_str(), ent_name(k, ref[h], m).c_str(), w[0], v[0], d.ncomp); return; }
      }
    }
  }
}
// a file in representation R4 names, for each face of each region, the region on the other side
static void check_adjregions(const RefMesh &m, const std::string &img) {
  size_t a = img.find("regions face"), b = img.find("adjregions");
  if (a == std::string::npos || b == std::string::npos || b < a) { violate("C16", "adjacency", "the file does not say which regions are next to each other"); return; }
  const char *p = img.c_str() + a + 12, *q = img.c_str() + b + 10; char *e;
  int nr = m.n(3);
  std::vector<VI> fc((size_t)nr);
  std::map<long, VI> use;
  for (int r = 0; r < nr; r++) { long n = strtol(p, &e, 10); p = e; for (long i = 0; i < n; i++) { long f = labs(strtol(p, &e, 10)); p = e; fc[(size_t)r].push_back((int)f); use[f].push_back(r + 1); } strtol(p, &e, 10); p = e; strtol(p, &e, 10); p = e; }
  for (int r = 0; r < nr; r++) {
    long n = strtol(q, &e, 10); q = e;
    if (n != (long)fc[(size_t)r].size()) { violate("C16", "adjacency", "region %d of the file has %ld neighbours listed, %zu faces", r + 1, n, fc[(size_t)r].size()); return; }
    for (long i = 0; i < n; i++) {
      long g = strtol(q, &e, 10), w = 0; q = e;
      for (int x : use[fc[(size_t)r][(size_t)i]]) if (x != r + 1) w = x;
      if (g != w) { violate("C16", "adjacency", "the file says that region %ld is across face %ld of region %d, it is %ld", g, i + 1, r + 1, w); return; }
    }
  }
}
static RepType wrep() { static const RepType t[] = {UNKNOWN_REP, R1, R2, R4}; return t[P("wrep")]; }
static Mesh_ptr do_read(const std::string &file, int *ok) {
  set_where("read");
  static const RepType as[] = {UNKNOWN_REP, F1, F4, R1, R2, R4};
  Mesh_ptr mesh = MESH_New(P("readas") ? as[P("readas")] : P("readrep") ? (P("wrep") ? wrep() : P("rep") ? F4 : F1) : UNKNOWN_REP);
  *ok = MESH_ImportFromFile(mesh, file.c_str(), P("fmt") == F_EXO ? "exodusii" : "mstk", nullptr, P("commnull") ? (MSTK_Comm)0 : group_comm());
  count("op.read");
  return mesh;
}
static void run_file() {
  if (P("fmt") == F_EXO && P("mode") == 1 && P("fault") == 2 && !P("sticky") && P("shortw")) stop_run("skip: not generated");
  const char *q16 = P("fmt") == F_EXO ? "C19" : "C16", *q17 = P("fmt") == F_EXO && spec->prop == "C19" ? "C19" : "C17", *q18 = P("fmt") == F_EXO ? "C19" : "C18";
  RefMesh m = P("fmt") == F_EXO ? exo_ref() : ref_from_params();
  if (P("cscale")) { double f = std::pow(10.0, (double)P("cscale")); for (auto &x : m.xyz) for (auto &c : x) c *= f; m.reindex(); if ((int)m.vkey.size() != m.n(0)) stop_run("skip: coinciding vertices"); }
  int f = (int)P("fmt"), mode = (int)P("mode");
  std::string file = std::string("simfs_a") + std::string((size_t)P("lname"), 'l') + "." + fmtext[f];
  run_ranks(1, [&](int) {
    set_where("build");
    Built b = build(m, nullptr, P("rep") ? F4 : F1, (uint64_t)P("shuffle"), true);
    IoPlan none; none.bufsz = P("bufsz");
    IoPlan part = none; part.shortw = (int)P("shortw"); part.eintr = (int)P("eintr");
    std::string d0, d1;
    uint64_t h0 = mesh_state(b.mesh, m, &d0);
    char pr[100];
    if (mode == 0) {
      io_plan() = part;
      bool interrupted = P("eintr");
      if (interrupted) exit_filter = [](int c) { return c != 0; };
      int ok = do_write(b.mesh, file);
      if (ok != 1) { if (interrupted && io_stat().faults) stop_run("reported"); violate(q16, "write_failed", "writing the mesh returns %d although nothing failed", ok); return; }
      mix_result(mix(std::hash<std::string>()(io_get(file))));
      io_reset_stat();
      io_plan() = none; io_plan().shortr = (int)P("shortr"); io_plan().eintr = (int)P("eintr");
      Mesh_ptr r = do_read(file, &ok);
      if (ok != 1) { if (io_stat().faults) stop_run("reported"); violate(q16, "read_failed", "reading the file just written returns %d although nothing failed", ok); return; }
      io_plan() = none;
      if (P("wrep") == 3 && m.dim == 3) check_adjregions(m, io_get(file));
      if (P("wrep")) check_reduced(m, r, "C16", 1);
      else check_read(m, r, q16, 1);
      snprintf(pr, sizeof pr, "rt dim%d ctype%ld rep%ld wrep%ld natt%ld", m.dim, P("ctype"), P("rep"), P("wrep"), P("natt"));
    } else if (mode == 1) {
      // once without faults: the image a complete write leaves
      io_plan() = none; io_reset_stat();
      int ok = do_write(b.mesh, file);
      if (ok != 1) { violate(q17, "write_failed", "writing %s returns %d although nothing failed", fmtname[f], ok); return; }
      auto full = io_files();
      IoStat st = io_stat();
      if (mesh_state(b.mesh, m, &d1) != h0) violate(q17, "mesh_changed", "writing %s changes the mesh: before %s, after %s", fmtname[f], d0.c_str(), d1.c_str());
      if (io_open_fds) violate(q17, "left_open", "%d files are still open after writing %s", io_open_fds, fmtname[f]);
      io_remove_all();
      // again with a fault
      long at = P("at_ppm");
      auto pos = [&](long n) { return n <= 0 ? 0 : (long)((double)n * at / 1e6); };
      IoPlan q = part;
      switch (P("fault")) {
        case 0: case 1: q.enospc_at = pos(st.wr_bytes); break;
        case 2: q.wr_fail = pos(st.wr_ops); q.sticky = P("sticky"); break;
        case 3: q.open_fail = pos(st.opens); break;
        case 4: q.close_fail = pos(st.closes); q.lost = P("lost", 1); break;
        default: q.enospc_at = std::max(0L, st.wr_bytes - 1 - (at % 40)); break;    // the very last bytes
      }
      io_plan() = q; io_reset_stat();
      exit_filter = [&](int c) { return c != 0 && io_stat().faults > 0; };
      ok = do_write(b.mesh, file);
      exit_filter = nullptr;
      long faults = io_stat().faults;
      io_plan() = none; io_reset_stat();
      std::string df = diff_files(full, io_files());
      if (ok == 1 && !df.empty()) violate(q17, "silent", "writing %s reports success, but %s", fmtname[f], df.c_str());
      if (ok != 1 && !faults) violate(q17, "write_failed", "writing %s again returns %d although nothing failed", fmtname[f], ok);
      if (io_open_fds && f == F_EXO && faults) io_open_fds = 0;   // netCDF keeps a file it could not write out when closing it
      if (io_open_fds) violate(q17, "left_open", "%d files are still open after a write to %s that failed", io_open_fds, fmtname[f]);
      if (mesh_state(b.mesh, m, &d1) != h0) violate(q17, "mesh_changed", "a failed write to %s changes the mesh: before %s, after %s", fmtname[f], d0.c_str(), d1.c_str());
      // the fault is gone
      ok = do_write(b.mesh, file);
      df = diff_files(full, io_files());
      if (ok != 1) violate(q17, "rewrite", "after a failed write, writing %s again without faults returns %d", fmtname[f], ok);
      else if (!df.empty()) violate(q17, "rewrite", "after a failed write, writing %s again without faults leaves another file: %s", fmtname[f], df.c_str());
      mix_result((uint64_t)faults);
      snprintf(pr, sizeof pr, "wrfail %s dim%d fault%ld pos%ld", fmtname[f], m.dim, P("fault"), at / 100000);
    } else {
      io_plan() = none; io_reset_stat();
      int ok = do_write(b.mesh, file);
      if (ok != 1) stop_run("skip: cannot write");
      std::string img = io_get(file), bad = img;
      // what a correct file reads as
      IoPlan q = none; q.shortr = (int)P("shortr");
      long at = P("at_ppm");
      auto pos = [&](long n) { return n <= 0 ? 0 : (long)((double)n * at / 1e6); };
      long cut = pos((long)img.size());
      switch (P("fault")) {
        case 0: case 1: bad.resize((size_t)cut); count("fault.truncated_file"); break;
        case 2: { long e = std::min((long)img.size(), cut + P("len", 1)); for (long i = cut; i < e; i++) bad[(size_t)i] = 0; count("fault.zeroed_block"); break; }
        case 3: for (size_t i = (size_t)cut; i < bad.size(); i++) bad[i] = 0; count("fault.zeroed_tail"); break;
        default: q.rd_fail = -2; break;
      }
      // a file that ends in the middle of its last number is a complete file
      if (bad.size() < img.size() && !bad.empty()) {
        size_t z = bad.size();
        while (z < img.size() && !isspace((unsigned char)img[z])) z++;
        if (z > bad.size() && !isspace((unsigned char)bad.back()) && img.find_first_not_of(" \t\n", z) == std::string::npos) stop_run("skip: cut in the last number");
      }
      // ... and so is one that ends in a number of an attribute, apart from that value
      bool midnum = bad.size() < img.size() && !bad.empty() && !isspace((unsigned char)bad.back()) && !isspace((unsigned char)img[bad.size()]);
      io_put(file, bad);
      if (q.rd_fail == -2) {          // how many reads does a complete read take?
        long bs = P("bufsz"); if (bs <= 0) bs = 4096;
        q.rd_fail = pos((long)img.size() / bs + 2); q.sticky = P("sticky");
      }
      io_plan() = q; io_reset_stat();
      exit_filter = [](int c) { return c != 0; };
      Mesh_ptr r = do_read(file, &ok);
      exit_filter = nullptr;
      io_plan() = none;
      count(ok == 1 ? "damage.accepted" : "damage.returned");
      if (ok == 1) {
        if (P("wrep")) check_reduced(m, r, "C18", midnum ? 0 : P("fault") <= 1 || P("fault") == 3 ? 2 : 1);
        else check_read(m, r, q18, midnum ? 0 : P("fault") <= 1 || P("fault") == 3 ? 2 : 1);
      }
      snprintf(pr, sizeof pr, "damage dim%d rep%ld fault%ld pos%ld", m.dim, P("rep") + 2 * P("wrep"), P("fault"), at / 50000);
    }
    probe(pr);
  });
}
static Reg reg({"file", gen_file, run_file});
