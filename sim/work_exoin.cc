// Workload "exoin": an Exodus II file that another program could have written (with the Exodus library, without MSTK)
// is imported by one process, or by several which divide the mesh.
#include "work.h"
#include "io.h"
#include <exodusII.h>
#include <cstdio>
#include <cstring>
#include <algorithm>
static const char *PR = "C29";
static void gen_exoin(Rng &g, Params &p, const std::string &prop, bool thorough) {
  int n = g.chance(55) ? 1 : (int)(g.chance(15) ? g.range(5, 9) : g.range(2, 4));
  p.set("n", n);
  gen_mesh_params(g, p, thorough ? 60 : 30);
  while (p.get("nx") * p.get("ny") * std::max(1L, p.get("nz")) < 2 * n + 2) p.set("nx", p.get("nx") + 1);
  gen_partition(g, p);
  p.set("rep", 0);
  gen_exo_common(g, p);
  p.set("geosets", 0); p.set("bykind", !g.chance(25)); p.set("names", g.range(0, 3));
  p.set("ring2", g.chance(85) ? 1 : 0); p.set("imode", n > 1 && g.chance(40)); p.set("readrep", g.range(0, 1));
  p.set("with_attr", 1); p.set("weave", 1);
  p.set("wseed", g.range(1, 1000000));
  p.set("poly", g.chance(25) ? g.range(0, 100) : 0);       // percent of blocks of general cells although they need not be
  p.set("flat", g.chance(70)); p.set("nmap", g.chance(30)); p.set("emap", g.chance(30)); p.set("bname", g.chance(30));
  p.set("empty", g.chance(10)); p.set("high", g.chance(4)); p.set("steps", g.chance(8) ? 0 : g.range(1, 3)); p.set("distf", g.chance(25)); p.set("table", g.chance(50)); p.set("info", g.chance(20)); p.set("sname", g.chance(20));
  p.set("vec", g.chance(60)); p.set("omit", g.chance(50)); p.set("split", g.chance(40)); p.set("wmode", g.range(0, 2)); p.set("par", g.chance(50)); p.set("ppar", g.chance(50)); p.set("pad", g.chance(50)); p.set("renum", g.chance(30));
  gen_net(g, p);
  if (p.get("method") == 2) p.set("method", 1);
}
enum { S_TRI, S_QUAD, S_NSIDED, S_TET, S_PYR, S_WEDGE, S_HEX, S_NFACED };
static int shape(const RefMesh &m, int c) {
  if (m.dim == 2) return m.faces[c].size() == 3 ? S_TRI : m.faces[c].size() == 4 ? S_QUAD : S_NSIDED;
  int nt = 0, nq = 0, nv = (int)m.cellverts[c].size(), nf = (int)m.rfaces[c].size();
  for (int f : m.rfaces[c]) { nt += m.faces[f].size() == 3; nq += m.faces[f].size() == 4; }
  if (nt + nq != nf) return S_NFACED;
  return nt == 4 && !nq ? S_TET : nt == 4 && nq == 1 && nv == 5 ? S_PYR : nt == 2 && nq == 3 && nv == 6 ? S_WEDGE : !nt && nq == 6 && nv == 8 ? S_HEX : S_NFACED;
}
// the nodes of a standard cell in the order of the format, beginning anywhere
static VI nodes(const RefMesh &m, int c, int t, Rng &g) {
  if (m.dim == 2) { VI l = m.faces[c]; std::rotate(l.begin(), l.begin() + g.range(0, (long)l.size() - 1), l.end()); return l; }
  std::vector<VI> base; std::set<std::pair<int, int>> ed;
  for (size_t j = 0; j < m.rfaces[c].size(); j++) {
    VI l = m.faces[m.rfaces[c][j]];
    if (!m.rdirs[c][j]) std::reverse(l.begin(), l.end());
    for (size_t i = 0; i < l.size(); i++) { ed.insert({l[i], l[(i + 1) % l.size()]}); ed.insert({l[(i + 1) % l.size()], l[i]}); }
    if (l.size() == (t == S_TET || t == S_WEDGE ? 3u : 4u)) base.push_back(l);
  }
  VI b = base[(size_t)g.range(0, (long)base.size() - 1)];
  std::rotate(b.begin(), b.begin() + g.range(0, (long)b.size() - 1), b.end());
  VI o = {b[0]};
  for (size_t i = b.size() - 1; i > 0; i--) o.push_back(b[i]);
  size_t nb = b.size();
  if (t == S_TET || t == S_PYR) { for (int v : m.cellverts[c]) if (!std::count(b.begin(), b.end(), v)) o.push_back(v); return o; }
  for (size_t i = 0; i < nb; i++) for (int v : m.cellverts[c]) if (!std::count(b.begin(), b.end(), v) && ed.count({o[i], v})) o.push_back(v);
  return o;
}
// nodes of the sides of a standard cell, as indices
static std::vector<VI> sides(int t) {
  switch (t) {
    case S_TRI: return {{0, 1}, {1, 2}, {2, 0}};
    case S_QUAD: return {{0, 1}, {1, 2}, {2, 3}, {3, 0}};
    case S_TET: return {{0, 1, 3}, {1, 2, 3}, {0, 2, 3}, {0, 1, 2}};
    case S_PYR: return {{0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {0, 3, 4}, {0, 1, 2, 3}};
    case S_WEDGE: return {{0, 1, 3, 4}, {1, 2, 4, 5}, {0, 2, 3, 5}, {0, 1, 2}, {3, 4, 5}};
    default: return {{0, 1, 4, 5}, {1, 2, 5, 6}, {2, 3, 6, 7}, {0, 3, 4, 7}, {0, 1, 2, 3}, {4, 5, 6, 7}};
  }
}
template <class T> static void shuffle(std::vector<T> &v, Rng &g) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[(size_t)g.range(0, (long)i - 1)]); }
static std::string lower(std::string s) { for (auto &c : s) c = (char)tolower(c); return s; }
struct Block { int id, type; VI cells; std::vector<VI> conn; std::string tname; bool shell = false; };
// part: the process each cell goes to, if the mesh is cut into a file for each of them
static void put(RefMesh &m, const std::string &name, bool &haspyr, bool &mixed, bool &high, const VI &part = {}, int me = 0) {
  Rng g((uint64_t)P("wseed") * 17 + 5 + (uint64_t)me * 7919);
  auto here = [&](int c) { return part.empty() || part[c] == me; };
  bool flat = m.dim == 2 && P("flat"); for (auto &x : m.xyz) flat = flat && x[2] == 0;
  std::map<int, VI> byid;
  for (int c = 0; c < m.ncells(); c++) byid[m.gid[m.dim][c]].push_back(c);
  std::vector<Block> bl;
  for (auto &x : byid) {
    Block b; b.id = x.first; b.cells = x.second; shuffle(b.cells, g);
    std::set<int> k; for (int c : b.cells) k.insert(shape(m, c));
    b.type = k.size() == 1 && !g.chance((int)P("poly")) ? *k.begin() : m.dim == 2 ? S_NSIDED : S_NFACED;
    static const std::vector<std::string> tn[] = {{"TRI", "TRI3", "TRIANGLE"}, {"QUAD", "QUAD4"}, {"NSIDED"}, {"TET", "TETRA", "TET4", "TETRA4"}, {"PYRAMID", "PYRAMID5"}, {"WEDGE", "WEDGE6"}, {"HEX", "HEX8"}, {"NFACED"}};
    b.tname = tn[b.type][(size_t)g.range(0, (long)tn[b.type].size() - 1)];
    if (g.chance(30)) b.tname = lower(b.tname);
    if (!flat && m.dim == 2 && b.type != S_NSIDED && g.chance(30)) { b.shell = true; b.tname = g.chance(50) ? "SHELL" : b.type == S_TRI ? "SHELL3" : "SHELL4"; count("op.shells"); }
    haspyr = haspyr || b.type == S_PYR;
    VI l; for (int c : b.cells) if (here(c)) l.push_back(c);
    if (l.empty() && P("omit") && g.chance(50)) continue;               // no cell of this block here: it need not be mentioned
    if (l.empty()) count("op.empty_block");
    b.cells = l;
    bl.push_back(b);
  }
  if (P("empty")) {                      // a block without cells
    static const char *tn[] = {"TRI", "QUAD", "HEX", "TETRA"};
    Block b; b.id = 200001; b.type = m.dim == 2 ? (g.chance(50) ? S_TRI : S_QUAD) : g.chance(50) ? S_TET : S_HEX; b.tname = tn[b.type == S_TRI ? 0 : b.type == S_QUAD ? 1 : b.type == S_HEX ? 2 : 3];
    bl.push_back(b); count("op.empty_block");
  }
  shuffle(bl, g);
  bool std_ = false, gen = false; for (auto &b : bl) (b.type == S_NFACED ? gen : std_) = true;
  mixed = std_ && gen;
  VI order, num(m.xyz.size());            // order: nodes of the file; num: numbers of vertices there
  { std::vector<char> in(m.xyz.size(), part.empty()); for (int c = 0; c < m.ncells(); c++) if (here(c)) for (int v : m.down(m.dim, c, 0)) in[v] = 1; for (size_t i = 0; i < in.size(); i++) if (in[i]) order.push_back((int)i); }
  shuffle(order, g);
  for (size_t i = 0; i < order.size(); i++) num[order[i]] = (int)i + 1;
  // faces of general cells
  VI flist; std::map<int, int> fnum;
  for (auto &b : bl) if (b.type == S_NFACED) for (int c : b.cells) for (int f : m.rfaces[c]) if (fnum.emplace(f, 0).second) flist.push_back(f);
  shuffle(flist, g); for (size_t i = 0; i < flist.size(); i++) fnum[flist[i]] = (int)i + 1;
  VI cellno(m.ncells()), cellblk(m.ncells()); int no = 0;
  for (size_t q = 0; q < bl.size(); q++) for (int c : bl[q].cells) {
    cellno[c] = ++no; cellblk[c] = (int)q;
    VI l;
    if (bl[q].type == S_NFACED) { l = m.rfaces[c]; shuffle(l, g); } else l = nodes(m, c, bl[q].type, g);
    bl[q].conn.push_back(l);
  }
  if (P("high") && part.empty()) {                       // more nodes than corners, as quadratic cells have them
    VI can; for (size_t q = 0; q < bl.size(); q++) if (!bl[q].cells.empty() && bl[q].type != S_NSIDED && bl[q].type != S_NFACED) can.push_back((int)q);
    if (!can.empty()) {
      auto &b = bl[can[(size_t)g.range(0, (long)can.size() - 1)]];
      for (auto &l : b.conn) { size_t n = l.size(), want = b.type == S_TRI ? 6 : b.type == S_QUAD ? (b.id % 2 ? 8 : 9) : b.type == S_TET ? 10 : b.type == S_PYR ? 13 : b.type == S_WEDGE ? 15 : 20; for (size_t i = n; i < want; i++) l.push_back(l[i % n]); }
      high = true;
    }
  }
  auto err = [&](const char *w) { die(PR, "harness", "the file could not be made: %s", w); };
#define X(call) do { if ((call) < 0) err(#call); } while (0)
  int cw = 8, iw = 8, id = ex_create(name.c_str(), EX_CLOBBER, &cw, &iw);
  if (id < 0) err("ex_create");
  ex_opts(0);
  int nns = 0, nss = 0, nes = 0; for (auto &s : m.sets) (s.entdim == 0 ? nns : s.entdim == m.dim ? nes : nss)++;
  ex_init_params par; memset(&par, 0, sizeof par);
  strcpy(par.title, "a mesh of another program");
  par.num_dim = flat ? 2 : 3; par.num_nodes = (long)order.size(); par.num_elem = no; par.num_elem_blk = (long)bl.size(); par.num_node_sets = nns; par.num_side_sets = nss; par.num_elem_sets = nes;
  par.num_face = (long)flist.size(); par.num_face_blk = flist.empty() ? 0 : 1;
  X(ex_put_init_ext(id, &par));
  if (P("info")) { char a[4][33] = {"other", "1.0", "01/01/20", "00:00:00"}, *q[1][4] = {{a[0], a[1], a[2], a[3]}}, *in[1]; char line[81] = "some information"; in[0] = line; X(ex_put_qa(id, 1, q)); X(ex_put_info(id, 1, in)); }
  std::vector<double> x[3]; for (int v : order) for (int k = 0; k < 3; k++) x[k].push_back(m.xyz[v][k]);
  X(ex_put_coord(id, x[0].data(), x[1].data(), x[2].data()));
  if (g.chance(70)) { char a[3][33] = {"xcoor", "ycoor", "zcoor"}, *q[3] = {a[0], a[1], a[2]}; X(ex_put_coord_names(id, q)); }
  if (!flist.empty()) {
    VI cnt, con; for (int f : flist) { cnt.push_back((int)m.faces[f].size()); for (int v : m.faces[f]) con.push_back(num[v]); }
    X(ex_put_block(id, EX_FACE_BLOCK, 10, "nsided", (long)flist.size(), (long)con.size(), 0, 0, 0));
    X(ex_put_entity_count_per_polyhedra(id, EX_FACE_BLOCK, 10, cnt.data()));
    X(ex_put_conn(id, EX_FACE_BLOCK, 10, con.data(), nullptr, nullptr));
  }
  for (auto &b : bl) {
    VI cnt, con; long nc = (long)b.cells.size();
    for (auto &l : b.conn) { cnt.push_back((int)l.size()); for (int v : l) con.push_back(b.type == S_NFACED ? fnum[v] : num[v]); }
    bool gn = b.type == S_NFACED || b.type == S_NSIDED;
    if (b.type == S_NFACED) X(ex_put_block(id, EX_ELEM_BLOCK, b.id, b.tname.c_str(), nc, 0, 0, (long)con.size(), 0));
    else X(ex_put_block(id, EX_ELEM_BLOCK, b.id, b.tname.c_str(), nc, gn ? (long)con.size() : b.conn.empty() ? 0 : (long)b.conn[0].size(), 0, 0, 0));
    if (P("bname")) X(ex_put_name(id, EX_ELEM_BLOCK, b.id, ("part_" + std::to_string(b.id)).c_str()));
    if (gn) X(ex_put_entity_count_per_polyhedra(id, EX_ELEM_BLOCK, b.id, cnt.data()));
    if (b.type == S_NFACED) X(ex_put_conn(id, EX_ELEM_BLOCK, b.id, nullptr, nullptr, con.data()));
    else if (nc) X(ex_put_conn(id, EX_ELEM_BLOCK, b.id, con.data(), nullptr, nullptr));
  }
  VI cells; for (auto &b : bl) cells.insert(cells.end(), b.cells.begin(), b.cells.end());
  VI map[2];                            // the numbers of nodes and cells, in the order of the file
  for (int k = 0; k < 2; k++) {
    auto &o = k ? cells : order; VI all(k ? m.ncells() : m.xyz.size());
    Rng gm((uint64_t)P("wseed") * 31 + (uint64_t)k);
    for (size_t i = 0; i < all.size(); i++) all[i] = (int)i + 1;
    bool mp = P(k ? "emap" : "nmap");
    if (mp) { shuffle(all, gm); count(k ? "op.elem_map" : "op.node_map"); }
    for (size_t i = 0; i < o.size(); i++) map[k].push_back(mp || !part.empty() ? all[o[i]] : (int)i + 1);
    if (mp || !part.empty()) X(ex_put_id_map(id, k ? EX_ELEM_MAP : EX_NODE_MAP, map[k].data()));
  }
  for (size_t s = 0; s < m.sets.size(); s++) {
    auto &d = m.sets[s]; VI a, b; int sid = atoi(d.name.c_str() + d.name.find('_') + 1);
    for (int i = 0; i < m.n(d.entdim); i++) if (m.inset((int)s, d.entdim, i)) {
      if (d.entdim == 0) { if (num[i]) a.push_back(num[i]); }
      else if (d.entdim == m.dim) { if (cellno[i]) a.push_back(cellno[i]); }
      else {
        VI own; for (int c = 0; c < m.ncells(); c++) { VI l = m.down(m.dim, c, d.entdim); if (std::count(l.begin(), l.end(), i)) own.push_back(c); }
        size_t nown = own.size(); own.erase(std::remove_if(own.begin(), own.end(), [&](int c) { return !here(c); }), own.end());
        if (own.empty()) continue;
        shuffle(own, g);
        size_t q = nown > own.size() || (own.size() > 1 && g.chance(30)) ? own.size() : 1;     // listed for each of its cells, or for one of them
        for (size_t o = 0; o < q; o++) {
          int c = own[o]; auto &B = bl[cellblk[c]]; const VI &l = B.conn[(size_t)(std::find(B.cells.begin(), B.cells.end(), c) - B.cells.begin())];
          int side = 0; VI want = m.verts(d.entdim, i);
          if (B.type == S_NFACED) side = (int)(std::find(l.begin(), l.end(), i) - l.begin()) + 1;
          else {
            std::vector<VI> sd; if (B.type == S_NSIDED) for (int k = 0; k < (int)l.size(); k++) sd.push_back({k, (k + 1) % (int)l.size()}); else sd = sides(B.type);
            for (size_t k = 0; k < sd.size(); k++) { VI h; for (int z : sd[k]) h.push_back(l[z]); std::sort(h.begin(), h.end()); if (h == want) side = (int)k + 1; }
          }
          a.push_back(cellno[c]); b.push_back(side + (B.shell ? 2 : 0));    // sides 1 and 2 of a shell are the cell itself
        }
      }
    }
    ex_entity_type et = d.entdim == 0 ? EX_NODE_SET : d.entdim == m.dim ? EX_ELEM_SET : EX_SIDE_SET;
    VI pm(a.size()); for (size_t i = 0; i < pm.size(); i++) pm[i] = (int)i;
    shuffle(pm, g);
    VI a2, b2; for (int i : pm) { a2.push_back(a[i]); if (!b.empty()) b2.push_back(b[i]); }
    bool df = P("distf") && d.entdim == 0 && !a.empty();
    X(ex_put_set_param(id, et, sid, (long)a.size(), df ? (long)a.size() : 0));
    if (!a.empty()) X(ex_put_set(id, et, sid, a2.data(), et == EX_SIDE_SET ? b2.data() : nullptr));
    if (df) { std::vector<double> f(a.size(), 1.0); X(ex_put_set_dist_fact(id, et, sid, f.data())); }
    if (P("sname") && et == EX_SIDE_SET) { std::string nm = "side " + std::to_string(sid); X(ex_put_name(id, et, sid, nm.c_str())); d.name = nm; count("op.named_set"); }
  }
  // variables
  std::vector<std::pair<int, int>> av[2];           // attribute and component
  for (size_t a = 0; a < m.atts.size(); a++) for (int c = 0; c < m.atts[a].ncomp; c++) av[m.atts[a].entdim ? 1 : 0].push_back({(int)a, c});
  int steps = (int)P("steps", 1);
  VI tab; std::vector<double> v;
  for (int k = 0; k < 2; k++) if (!av[k].empty()) {
    ex_entity_type et = k ? EX_ELEM_BLOCK : EX_NODAL;
    X(ex_put_variable_param(id, et, (int)av[k].size()));
    std::vector<char *> nm; std::vector<std::string> ns; for (auto &a : av[k]) { auto &d = m.atts[a.first]; ns.push_back(d.type == DOUBLE ? d.name : d.name + "_veccomp" + std::to_string(a.second)); if (d.type != DOUBLE) count("op.vectors"); } for (auto &s : ns) nm.push_back(&s[0]);
    X(ex_put_variable_names(id, et, (int)nm.size(), nm.data()));
    if (k) {
      for (auto &b : bl) for (auto &ac : av[k]) {
        int a = ac.first;
        if (ac.second) { tab.push_back(tab.back()); continue; }
        if (P("table") && g.chance(35)) for (int c : b.cells) m.hide.insert({a, c});
        bool any = !P("table"); for (int c : b.cells) any = any || m.att(a, c, v);
        if (b.cells.empty()) any = g.chance(50);
        tab.push_back(any);
        if (!any) count("op.partial_variable");
      }
      if (P("table")) X(ex_put_truth_table(id, et, (int)bl.size(), (int)av[k].size(), tab.data()));
    }
  }
  if (!steps) { m.atts.clear(); m.hide.clear(); count("op.no_steps"); }         // nothing to be read
  for (int t = 1; t <= steps; t++) {
    double tm = t; X(ex_put_time(id, t, &tm));
    auto val = [&](std::pair<int, int> a, int i) { if (!m.att(a.first, i, v)) v.assign((size_t)m.atts[a.first].ncomp, 0.0); return t == 1 ? v[a.second] : v[a.second] + t; };
    for (size_t q = 0; q < av[0].size(); q++) { std::vector<double> w; for (int i : order) w.push_back(val(av[0][q], i)); X(ex_put_var(id, t, EX_NODAL, (int)q + 1, 1, (long)w.size(), w.data())); }
    for (size_t q = 0; q < av[1].size(); q++) for (size_t b = 0; b < bl.size(); b++) if (tab[b * av[1].size() + q] && !bl[b].cells.empty()) { std::vector<double> w; for (int c : bl[b].cells) w.push_back(val(av[1][q], c)); X(ex_put_var(id, t, EX_ELEM_BLOCK, (int)q + 1, bl[b].id, (long)w.size(), w.data())); }
  }
  X(ex_close(id));
  for (int k = 0; k < 2; k++) {
    AttDef d; d.name = k ? "elem_map" : "node_map"; d.type = INT; d.entdim = k ? m.dim : 0; d.ncomp = 1;
    auto &o = k ? cells : order; for (size_t i = 0; i < o.size(); i++) m.given[{(int)m.atts.size(), o[i]}] = map[k][i];
    m.atts.push_back(d);
  }
  auto only = [&](const std::string &nm, int k, const std::function<int(int)> &f) {
    AttDef d; d.name = nm; d.type = INT; d.entdim = k; d.ncomp = 1; int a = (int)m.atts.size(); m.atts.push_back(d);
    for (int i = 0; i < m.n(k); i++) { int x = f(i); if (x) m.given[{a, i}] = x; else m.hide.insert({a, i}); }
  };
  only("elemblock", m.dim, [&](int i) { return m.gid[m.dim][i]; });
  for (size_t q = 0; q < m.sets.size(); q++) if (m.sets[q].entdim == 0) only(m.sets[q].name, 0, [&](int i) { return m.inset((int)q, 0, i) ? atoi(m.sets[q].name.c_str() + 8) : 0; });
}
static void run_exoin() {
  RefMesh m = exo_ref();
  for (auto &d : m.atts) if (!P("vec") || d.name.size() > 22) { d.type = DOUBLE; d.ncomp = 1; }
  { std::set<std::string> nm; auto l = m.atts; m.atts.clear(); for (auto &d : l) if (nm.insert(d.name).second) m.atts.push_back(d); }
  int n = (int)P("n", 1);
  if (m.ncells() < n) stop_run("skip: fewer cells than processes");
  std::vector<Snap> s((size_t)n);
  bool split = n > 1 && P("split");       // a file for each process
  VI part;
  if (split) {
    part = own_parts(m, n, (int)P("wmode"), (uint64_t)P("wseed"));
    std::set<int> k(part.begin(), part.end()); if ((int)k.size() < n) stop_run("skip: a part is empty");
  }
  bool pyr = false, mixed = false, high = false;
  run_ranks(n, [&](int r) {
    std::string f = "simfs_other.exo";
    if (r == 0) {
      set_where("make the file");
      if (!split) put(m, f, pyr, mixed, high);
      else {
        RefMesh m0 = m;
        for (int q = 0; q < n; q++) {
          RefMesh t = m0; char b[64]; int nd = n >= 10 && P("pad") ? 2 : 1;
          snprintf(b, sizeof b, "simfs_other.%s.%d.%0*d", P("par") ? "par" : "exo", n, nd, q);
          put(t, b, pyr, mixed, high, part, q);
          m.hide.insert(t.hide.begin(), t.hide.end()); m.given.insert(t.given.begin(), t.given.end());
          m.atts = t.atts; m.sets = t.sets;
        }
      }
    }
    if (r == 0 && !(split && P("omit"))) {
      std::map<int, std::set<int>> of; for (int c = 0; c < m.ncells(); c++) of[m.gid[m.dim][c]].insert(c);
      for (auto &x : of) { SetDef d; d.name = "matset_" + std::to_string(x.first); d.entdim = m.dim; d.hashed = false; d.more = x.second; m.sets.push_back(d); }
    }
    if (n > 1) MPI_Barrier(group_comm());
    int imode = pyr || split ? 0 : (int)P("imode");       // the partial reader does not know pyramids, and says so
    set_where("MESH_ImportFromExodusII");
    Mesh_ptr back = MESH_New(P("readrep") ? F1 : UNKNOWN_REP);
    int po[5] = {1, imode, imode ? 1 : (int)P("ring2", 1), imode ? 0 : (int)P("method"), 0};
    if (high) exit_filter = [](int c) { if (c != 0) count("op.refused"); return c != 0; };
    int pn[3] = {1, (int)P("ring2", 1), (int)P("renum")};
    std::string fn = std::string("simfs_other.") + (P("par") && P("ppar") ? "par" : "exo");
    int ok = split ? MESH_ImportFromFile(back, fn.c_str(), "nemesisi", pn, group_comm()) : MESH_ImportFromFile(back, f.c_str(), "exodusii", n > 1 ? po : nullptr, n > 1 ? group_comm() : (MSTK_Comm)0);
    if (high) { if (ok == 1) violate(PR, "garbled", "process %d: cells with more nodes than corners are taken for ordinary ones", r); else count("op.refused"); stop_run("reported"); }
    if (ok != 1) die(PR, "read_failed", "process %d: MESH_ImportFromFile returns %d although nothing failed", r, ok);
    io_plan() = IoPlan();
    s[r] = snapshot(back, m, SN_ATT | SN_UP | (n > 1 ? SN_LOOKUP : 0));
    sync([&]() {
      check_exo(m, s, PR, n > 1, imode && n > 1 && !split);
      if (split) { Dist d = derive(m, s); for (int c = 0; c < m.ncells(); c++) if (d.owner[m.dim][c] != VI{part[c]}) { violate(PR, "cell_ownership", "%s is in the file of process %d and is owned by %zu processes", ent_name(m.dim, c, m).c_str(), part[c], d.owner[m.dim][c].size()); break; } count("op.split_files"); }
      for (int q = 0; q < n; q++) for (auto &e : s[q].e[m.dim]) if (e.ref >= 0 && (e.gdim != m.dim || e.gent != m.gid[m.dim][e.ref])) { violate(PR, "block", "%s of block %d is read with classification %d/%d", ent_name(m.dim, e.ref, m).c_str(), m.gid[m.dim][e.ref], e.gdim, e.gent); break; }
      if (n > 1) {
        OracleOpt o; o.ring = imode && !split ? 1 : (int)P("ring2", 1); o.p1 = o.p2 = o.p3 = PR; o.pb = false; o.ovl = o.ring; o.edge_order = false; o.loops = m.dim == 2; o.mink = m.dim;
        check_owner(m, s, o);
        check_ghost(m, s, o);
      }
      if (io_open_fds) violate(PR, "left_open", "%d files are still open", io_open_fds);
      count("op.exo_foreign"); count("exodus.used"); if (pyr) count("op.pyramids"); if (mixed) count("op.mixed_blocks");
      char b[200];
      snprintf(b, sizeof b, "exoin dim%d ctype%ld n%ld split%d imode%d ring2 %ld nblk%ld method%ld pyr%d mixed%d steps%ld table%ld", m.dim, P("ctype"), P("n"), split, imode, P("ring2"), P("nblk"), P("method"), pyr, mixed, P("steps"), P("table"));
      probe(b);
    });
  });
}
static Reg reg({"exoin", gen_exoin, run_exoin});
