#include "refmesh.h"
#include <algorithm>
#include <cstring>
#include <cmath>
#include <unordered_set>
using namespace sim;

const char *kname(int k) { static const char *n[] = {"vertex", "edge", "face", "region"}; return n[k]; }
static std::array<uint64_t, 3> bits(const XYZ &x) {
  std::array<uint64_t, 3> b;
  for (int i = 0; i < 3; i++) { double d = x[i]; if (d == 0) d = 0; memcpy(&b[i], &d, 8); }
  return b;
}
VI RefMesh::verts(int k, int i) const {
  if (k == 0) return {i};
  if (k == 1) { VI v = {edges[i][0], edges[i][1]}; std::sort(v.begin(), v.end()); return v; }
  if (k == 2) { VI v = faces[i]; std::sort(v.begin(), v.end()); return v; }
  std::set<int> s;
  for (int f : rfaces[i]) s.insert(faces[f].begin(), faces[f].end());
  return VI(s.begin(), s.end());
}
VI RefMesh::down(int k, int i, int kk) const {
  if (k == kk) return {i};
  if (kk == 0) return verts(k, i);
  if (k == 2) return fedges[i];
  if (kk == 2) return rfaces[i];
  std::set<int> s;
  for (int f : rfaces[i]) s.insert(fedges[f].begin(), fedges[f].end());
  return VI(s.begin(), s.end());
}
void RefMesh::reindex() {
  vkey.clear();
  for (int k = 0; k < 4; k++) key[k].clear();
  for (size_t i = 0; i < xyz.size(); i++) vkey[bits(xyz[i])] = (int)i;
  for (int k = 1; k < 4; k++) for (int i = 0; i < n(k); i++) key[k][verts(k, i)] = i;
  cellverts.clear();
  for (int i = 0; i < ncells(); i++) cellverts.push_back(verts(dim, i));
}
bool RefMesh::att(int a, int i, std::vector<double> &v, int k) const {
  const AttDef &d = atts[a];
  uint64_t h = mix(mix(attseed + a * 1315423911ULL) + i * 2654435761ULL + 17 + (d.entdim == MALLTYPE ? k * 7368787ULL : 0));
  v.clear();
  int kk = d.entdim == MALLTYPE ? k : d.entdim;
  if (!hide.empty() && hide.count({a, i})) return false;
  if (!given.empty()) { auto g = given.find({a, i}); if (g != given.end()) { v.assign(1, g->second); return true; } }
  if (h % 7 == 0 || (attcut && a % 2 == 0 && i * 8 >= n(kk) * attcut)) return false;
  int nc = d.type == INT || d.type == DOUBLE ? 1 : d.ncomp;
  for (int c = 0; c < nc; c++) {
    h = mix(h + c + 1);
    double x;
    switch (h % 6) {
      case 0: x = 0; break;
      case 1: x = -(double)((h >> 8) % 1000); break;
      case 2: x = 1; break;
      default: x = (double)((h >> 8) % 100000); break;
    }
    if (d.type != INT && (h >> 40) % 2) x += (double)((h >> 20) % 4096) / 4096.0;
    if (attscale) {
      if (d.type == INT) { if ((h >> 44) % 8 == 0) x = (h >> 47) % 2 ? 2147483647.0 : -2147483648.0; }
      else x *= std::pow(10.0, (double)((long)((h >> 50) % (uint64_t)(2 * attscale + 1)) - attscale));
    }
    v.push_back(x);
  }
  return true;
}
bool RefMesh::inset(int s, int k, int i) const {
  if (k == sets[s].entdim && sets[s].more.count(i)) return true;
  if (!sets[s].hashed) return false;
  if (sets[s].entdim != MALLTYPE) { if (k != sets[s].entdim) return false; k = 0; }
  uint64_t h = mix(mix(attseed * 3 + s * 7919 + 11 + k * 104729) + i * 2654435761ULL);
  int density = (int)(mix(attseed + s * 31) % 4);     // some sets empty
  return density == 0 ? false : (int)(h % 100) < density * 25;
}

void gen_mesh_params(Rng &g, Params &p, int maxcells, const std::string &pre, int dimwanted) {
  int dim = dimwanted ? dimwanted : (int)g.range(2, 3);
  p.set(pre + "dim", dim);
  p.set(pre + "mseed", g.range(1, 1000000));
  if (dim == 2) {
    long nx = g.range(1, 7), ny = g.range(1, 7);
    while (nx * ny > maxcells) { if (nx > ny) nx--; else ny--; }
    p.set(pre + "nx", nx); p.set(pre + "ny", ny); p.set(pre + "nz", 0);
    p.set(pre + "ctype", g.range(0, 3));
  } else {
    long nx = g.range(1, 4), ny = g.range(1, 4), nz = g.range(1, 4);
    while (nx * ny * nz > maxcells) { if (nx >= ny && nx >= nz) nx--; else if (ny >= nz) ny--; else nz--; }
    p.set(pre + "nx", nx); p.set(pre + "ny", ny); p.set(pre + "nz", nz);
    p.set(pre + "ctype", g.range(0, 5));
  }
  if (p.get(pre + "ctype") == (dim == 2 ? 3 : 5) && g.chance(40)) {
    p.set(pre + "poly", g.range(3, 13));
    if (g.chance(50)) { p.set(pre + "nx", g.range(4, dim == 2 ? 14 : 10)); while (p.get(pre + "nx") * p.get(pre + "ny") * std::max(1L, p.get(pre + "nz")) > maxcells && p.get(pre + "ny") * std::max(1L, p.get(pre + "nz")) > 1) { if (p.get(pre + "ny") >= p.get(pre + "nz")) p.set(pre + "ny", p.get(pre + "ny") - 1); else p.set(pre + "nz", p.get(pre + "nz") - 1); } }
  }
  p.set(pre + "holes", g.chance(30) ? g.range(5, 30) : 0);
  p.set(pre + "gaps", g.chance(20) ? g.range(1, 60) : 0);
  p.set(pre + "flips", g.range(0, 1));
  p.set(pre + "classn", g.range(0, 1));
  p.set(pre + "jit", g.range(0, 1));
  // Exodus files do not hold face directions and the reader works them out from the geometry: a long polyhedron with moved vertices is beyond that
  if (dim == 3 && p.get(pre + "poly", 2) > 2) p.set(pre + "jit", 0);
}
// less usual meshes: large, closed surfaces, surfaces with fins (edges of three faces), large model IDs, no classification
void gen_mesh_extra(Rng &g, Params &p, int maxcells) {
  bool d2 = p.get("dim") == 2;
  if (g.chance(3)) {
    int f = (int)g.range(2, 10); long lim = d2 ? 24 : 9;
    for (const char *a : {"nx", "ny", "nz"}) if (a[1] != 'z' || !d2) p.set(a, g.range(1, lim));
    while (p.get("nx") * p.get("ny") * std::max(1L, p.get("nz")) > maxcells * f) { if (p.get("nx") >= p.get("ny") && p.get("nx") >= p.get("nz")) p.set("nx", p.get("nx") - 1); else if (p.get("ny") >= p.get("nz")) p.set("ny", p.get("ny") - 1); else p.set("nz", p.get("nz") - 1); }
  }
  if (d2 && g.chance(12)) p.set("ctype", 4);
  if (d2 && g.chance(12)) { p.set("wrap", g.range(1, 2)); p.set("jit", 0); p.set("nx", std::max(3L, p.get("nx"))); if (p.get("wrap") == 2) p.set("ny", std::max(3L, p.get("ny"))); }
  if (g.chance(10)) p.set("classn", 2);
  if (g.chance(15)) p.set("bigg", 1);
}

RefMesh make_ref(const Params &p, const std::string &pre) {
  RefMesh m;
  m.dim = (int)p.get(pre + "dim", 2);
  uint64_t seed = (uint64_t)p.get(pre + "mseed", 1);
  Rng g(seed);
  m.gaps = (int)p.get(pre + "gaps", 0);
  int nx = (int)std::max(1L, p.get(pre + "nx", 2)), ny = (int)std::max(1L, p.get(pre + "ny", 2)), nz = m.dim == 3 ? (int)std::max(1L, p.get(pre + "nz", 2)) : 0;
  int ctype = (int)p.get(pre + "ctype", 0), holes = (int)p.get(pre + "holes", 0);
  bool jit = p.get(pre + "jit", 1) != 0, flips = p.get(pre + "flips", 0) != 0;
  std::vector<XYZ> X;
  int wrap = m.dim == 2 ? (int)p.get(pre + "wrap", 0) : 0;       // 1 cylinder, 2 torus
  if (wrap) nx = std::max(nx, 3);
  if (wrap == 2) ny = std::max(ny, 3);
  auto vid = [&](int i, int j, int k) { if (wrap) i %= nx; if (wrap == 2) j %= ny; return (k * (ny + 1) + j) * (nx + 1) + i; };
  for (int k = 0; k <= nz; k++) for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) {
    XYZ x = {{(double)i, (double)j, (double)k}};
    Rng v(seed * 1000003 + vid(i, j, k));
    if (jit) for (int c = 0; c < m.dim; c++) x[c] += 0.3 * (v.unit() - 0.5);
    if (jit && p.get(pre + "jit", 1) == 2) { Rng u(seed * 1000003 + vid(i, j, 0)); for (int c = 0; c < m.dim - 1; c++) x[c] = (c ? j : i) + 0.3 * (u.unit() - 0.5); }   // straight columns
    if (jit && m.dim == 2 && seed % 3 == 0) x[2] += v.unit();
    if (seed % 4 == 1) for (int c = 0; c < m.dim; c++) x[c] -= 2.0;     // negative coordinates
    if (wrap) { double a = 2 * M_PI * i / nx, b = wrap == 2 ? 2 * M_PI * j / ny : 0, R = wrap == 2 ? 3 + cos(b) : 1; x = {{R * cos(a), R * sin(a), wrap == 2 ? sin(b) : (double)j}}; }
    X.push_back(x);
  }
  auto hash = [&](int a, int b, int c, int salt) { return mix(seed * 77 + a * 1009 + b * 9176 + c * 131071 + salt * 7777777ULL); };
  std::vector<std::vector<VI>> cells;   // 2D: one loop; 3D: outward loops
  auto hole = [&](int i, int j, int k) { return holes > 0 && (int)(hash(i, j, k, 1) % 100) < holes && !(i == 0 && j == 0 && k == 0); };
  if (m.dim == 2) {
    std::set<std::pair<int, int>> used;
    for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
      if (hole(i, j, 0) || used.count({i, j})) continue;
      int a = vid(i, j, 0), b = vid(i + 1, j, 0), c = vid(i + 1, j + 1, 0), d = vid(i, j + 1, 0);
      uint64_t h = hash(i, j, 0, 2);
      bool tri = ctype == 1 || (ctype >= 2 && h % 3 == 0);
      bool poly = ctype == 3 && h % 3 == 1 && i + 1 < nx && !hole(i + 1, j, 0) && !used.count({i + 1, j});
      if (poly) {
        int L = 2, lmax = std::min((int)p.get(pre + "poly", 2), 2 + (int)((h >> 20) % 12));   // quads in a row
        while (L < lmax && i + L < nx - (wrap ? 2 : 0) && !hole(i + L, j, 0) && !used.count({i + L, j})) L++;
        VI c1;
        for (int q = 0; q <= L; q++) { c1.push_back(vid(i + q, j, 0)); if (q && q < L) used.insert({i + q, j}); }
        for (int q = L; q >= 0; q--) c1.push_back(vid(i + q, j + 1, 0));
        cells.push_back({c1});
      } else if (tri) {
        if ((h >> 8) & 1) { cells.push_back({{a, b, c}}); cells.push_back({{a, c, d}}); }
        else { cells.push_back({{a, b, d}}); cells.push_back({{b, c, d}}); }
      } else cells.push_back({{a, b, c, d}});
    }
    if (ctype == 4) {                       // fins
      std::map<int, int> top;
      auto up = [&](int v) { auto it = top.find(v); if (it != top.end()) return it->second; int t = (int)X.size(); XYZ x = X[v]; x[0] += 0.01; x[2] += 1.25; X.push_back(x); top[v] = t; return t; };
      for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) for (int d = 0; d < 2; d++) {
        if (hash(i, j, d, 6) % 7 || (d == 0 ? i == nx : j == ny) || (wrap && i == nx) || (wrap == 2 && j == ny)) continue;
        int a = vid(i, j, 0), b = d == 0 ? vid(i + 1, j, 0) : vid(i, j + 1, 0), bt = up(b), at = up(a);
        cells.push_back({{a, b, bt, at}});
      }
    }
  } else {
    std::set<std::array<int, 3>> used;
    for (int k = 0; k < nz; k++) for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
      if (hole(i, j, k) || used.count({{i, j, k}})) continue;
      int v[8] = {vid(i, j, k), vid(i + 1, j, k), vid(i + 1, j + 1, k), vid(i, j + 1, k), vid(i, j, k + 1), vid(i + 1, j, k + 1), vid(i + 1, j + 1, k + 1), vid(i, j + 1, k + 1)};
      uint64_t h = hash(i, j, k, 3), hcol = hash(i, j, 0, 4);
      auto hexfaces = [&](const int *w) { return std::vector<VI>{{w[0], w[3], w[2], w[1]}, {w[4], w[5], w[6], w[7]}, {w[0], w[1], w[5], w[4]}, {w[1], w[2], w[6], w[5]}, {w[2], w[3], w[7], w[6]}, {w[3], w[0], w[4], w[7]}}; };
      bool prism = ctype == 1 || (ctype == 3 && hcol % 2);
      bool pyr = ctype == 4 && h % 2;
      bool poly = ctype == 5 && h % 3 == 0 && i + 1 < nx && !hole(i + 1, j, k) && !used.count({{i + 1, j, k}});
      if (ctype == 2) {     // Kuhn: six tets along the main diagonal
        static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
        for (auto &pm : perm) {
          int off[3] = {0, 0, 0}, t[4];
          t[0] = vid(i, j, k);
          for (int s = 0; s < 3; s++) { off[pm[s]] = 1; t[s + 1] = vid(i + off[0], j + off[1], k + off[2]); }
          int sgn = (pm[0] == 0 && pm[1] == 1) || (pm[0] == 1 && pm[1] == 2) || (pm[0] == 2 && pm[1] == 0) ? 1 : -1;
          if (sgn < 0) std::swap(t[2], t[3]);
          cells.push_back({{t[0], t[2], t[1]}, {t[0], t[1], t[3]}, {t[1], t[2], t[3]}, {t[2], t[0], t[3]}});
        }
      } else if (prism) {
        auto pr = [&](int a, int b, int c, int d, int e, int f) { cells.push_back({{a, c, b}, {d, e, f}, {a, b, e, d}, {b, c, f, e}, {c, a, d, f}}); };
        pr(v[0], v[1], v[2], v[4], v[5], v[6]);
        pr(v[0], v[2], v[3], v[4], v[6], v[7]);
      } else if (pyr) {
        int c = (int)X.size();
        XYZ x = {{0, 0, 0}};
        for (int q = 0; q < 8; q++) for (int d = 0; d < 3; d++) x[d] += X[v[q]][d] / 8;
        X.push_back(x);
        for (auto &f : hexfaces(v)) {
          std::vector<VI> pf = {f};
          for (size_t q = 0; q < 4; q++) pf.push_back({f[(q + 1) % 4], f[q], c});
          cells.push_back(pf);
        }
      } else if (poly) {
        int L = 2, lmax = std::min((int)p.get(pre + "poly", 2), 2 + (int)((h >> 20) % 12));   // hexes in a row
        while (L < lmax && i + L < nx && !hole(i + L, j, k) && !used.count({{i + L, j, k}})) L++;
        std::vector<VI> c;
        for (int s = 0; s < L; s++) {
          if (s) used.insert({{i + s, j, k}});
          int w[8] = {vid(i + s, j, k), vid(i + s + 1, j, k), vid(i + s + 1, j + 1, k), vid(i + s, j + 1, k), vid(i + s, j, k + 1), vid(i + s + 1, j, k + 1), vid(i + s + 1, j + 1, k + 1), vid(i + s, j + 1, k + 1)};
          std::vector<VI> b = hexfaces(w);
          for (size_t q = 0; q < 6; q++) if ((q != 3 || s == L - 1) && (q != 5 || s == 0)) c.push_back(b[q]);
        }
        cells.push_back(c);
      } else cells.push_back(hexfaces(v));
    }
  }
  // keep used vertices, shuffled numbering
  VI mapv(X.size(), -1), usedv;
  std::set<int> us;
  for (auto &c : cells) for (auto &l : c) for (int v : l) us.insert(v);
  usedv.assign(us.begin(), us.end());
  for (size_t i = usedv.size(); i > 1; i--) std::swap(usedv[i - 1], usedv[(size_t)g.range(0, (long)i - 1)]);
  for (size_t i = 0; i < usedv.size(); i++) { mapv[usedv[i]] = (int)i; m.xyz.push_back(X[usedv[i]]); }
  std::map<std::pair<int, int>, int> em;
  auto edge = [&](int a, int b) {
    auto k = std::minmax(a, b);
    auto it = em.find(k);
    if (it != em.end()) return it->second;
    int id = (int)m.edges.size();
    if (flips && g.chance(50)) m.edges.push_back({{b, a}}); else m.edges.push_back({{a, b}});
    em[k] = id;
    return id;
  };
  std::map<VI, int> fm;
  for (auto &c : cells) {
    VI rf, rd;
    for (auto &l0 : c) {
      VI l;
      for (int v : l0) l.push_back(mapv[v]);
      VI s = l; std::sort(s.begin(), s.end());
      auto it = fm.find(s);
      int f, d;
      if (it == fm.end()) {
        f = (int)m.faces.size();
        d = 1;
        VI st = l;
        if (m.dim == 3 && flips && g.chance(50)) { std::reverse(st.begin(), st.end()); d = 0; }
        if (flips) std::rotate(st.begin(), st.begin() + g.range(0, (long)st.size() - 1), st.end());
        m.faces.push_back(st);
        VI fe;
        for (size_t i = 0; i < st.size(); i++) fe.push_back(edge(st[i], st[(i + 1) % st.size()]));
        m.fedges.push_back(fe);
        fm[s] = f;
      } else {
        f = it->second;
        d = same_cycle(m.faces[f], l) ? 1 : 0;
      }
      rf.push_back(f); rd.push_back(d);
    }
    if (m.dim == 3) { m.rfaces.push_back(rf); m.rdirs.push_back(rd); }
  }
  bool classn = p.get(pre + "classn", 1) != 0, none = p.get(pre + "classn", 1) == 2;
  unsigned gmax = p.get(pre + "bigg", 0) ? 30000000 : 6;
  for (int k = 0; k < 4; k++) for (int i = 0; i < m.n(k); i++) {
    uint64_t h = hash(k, i, 0, 9);
    if (none && h % 3) { m.gdim[k].push_back(4); m.gid[k].push_back(0); }       // what MSTK gives new entities
    else if (classn) { m.gdim[k].push_back(k + (int)(h % (unsigned)(m.dim - k + 1 > 0 ? m.dim - k + 1 : 1))); m.gid[k].push_back(1 + (int)((h >> 16) % gmax)); }
    else { m.gdim[k].push_back(m.dim); m.gid[k].push_back(1); }
  }
  m.reindex();
  return m;
}
bool same_cycle(const VI &a, const VI &b) {
  if (a.size() != b.size() || a.empty()) return false;
  size_t n = a.size();
  for (size_t s = 0; s < n; s++) if (b[s] == a[0]) {
    bool ok = true;
    for (size_t i = 0; i < n && ok; i++) ok = a[i] == b[(s + i) % n];
    if (ok) return true;
  }
  return false;
}
void add_atts_sets(RefMesh &m, const Params &p, const std::string &pre) {
  m.attseed = (uint64_t)p.get(pre + "attseed", 1);
  m.attscale = (int)p.get(pre + "attscale", 0);
  int na = (int)p.get(pre + "natt", 0), ns = (int)p.get(pre + "nset", 0);
  Rng g(m.attseed * 13 + 5);
  for (int a = 0; a < na; a++) {
    AttDef d;
    static const int ty[] = {INT, DOUBLE, VECTOR, TENSOR};
    d.type = ty[g.range(0, 3)];
    d.entdim = (int)g.range(0, m.dim);
    if (p.get(pre + "mixatts", 0) && g.chance(30)) d.entdim = MALLTYPE;
    d.ncomp = d.type == INT || d.type == DOUBLE ? 1 : (int)g.range(p.get(pre + "minc", 2), 5);
    char b[64];
    static const char *pat[] = {"a%d", "attribute_%d", "x y %d", "a_rather_long_attribute_name_no_%d"};
    snprintf(b, sizeof b, pat[p.get(pre + "names", 0) % 4 == 2 && p.get(pre + "nospace", 0) ? 1 : p.get(pre + "names", 0) % 4], a + (int)g.range(0, 3) * 100);
    d.name = b;
    m.atts.push_back(d);
  }
  for (int s = 0; s < ns; s++) {
    SetDef d;
    d.entdim = (int)g.range(0, m.dim);
    if (p.get(pre + "mixsets", 0) && g.chance(25)) d.entdim = MALLTYPE;
    char b[64];
    snprintf(b, sizeof b, p.get(pre + "names", 0) % 2 ? "a_set_of_entities_%d" : "s%d", s + (int)g.range(0, 3) * 100);
    d.name = b;
    m.sets.push_back(d);
  }
}

static void ent_set_g(int k, void *h, int gd, int gi) {
  switch (k) {
    case 0: MV_Set_GEntDim(h, gd); MV_Set_GEntID(h, gi); break;
    case 1: ME_Set_GEntDim(h, gd); ME_Set_GEntID(h, gi); break;
    case 2: MF_Set_GEntDim(h, gd); MF_Set_GEntID(h, gi); break;
    case 3: MR_Set_GEntDim(h, gd); MR_Set_GEntID(h, gi); break;
  }
}
void put_atts_sets(const RefMesh &m, Built &b) {
  if (int t = (int)P("ptratt", 0)) {       // a pointer attribute: the program's own business
    int k = (t - 1) % (m.dim + 1); static int something;
    MAttrib_ptr at = MAttrib_New(b.mesh, "a pointer", POINTER, t > 4 ? MALLTYPE : (MType)k);
    for (size_t i = 0; i < b.h[k].size(); i++) if (b.h[k][i] && i % 3) MEnt_Set_AttVal(b.h[k][i], at, 0, 0.0, &something);
  }
  for (size_t a = 0; a < m.atts.size(); a++) {
    const AttDef &d = m.atts[a];
    MAttrib_ptr at = d.type == INT || d.type == DOUBLE ? MAttrib_New(b.mesh, d.name.c_str(), (MAttType)d.type, (MType)d.entdim)
                                                       : MAttrib_New(b.mesh, d.name.c_str(), (MAttType)d.type, (MType)d.entdim, d.ncomp);
    for (int k = 0; k <= m.dim; k++) for (int i = 0; i < m.n(k); i++) {
      if (k != d.entdim && d.entdim != MALLTYPE) break;
      void *h = b.h[k][i];
      std::vector<double> v;
      if (!h || !m.att((int)a, i, v, k)) continue;
      if (d.type == INT) MEnt_Set_AttVal(h, at, (int)v[0], 0.0, nullptr);
      else if (d.type == DOUBLE) MEnt_Set_AttVal(h, at, 0, v[0], nullptr);
      else {
        extern void *sim_lib_alloc(size_t);
        double *p = (double *)sim_lib_alloc(v.size() * 8);
        memcpy(p, v.data(), v.size() * 8);
        MEnt_Set_AttVal(h, at, 0, 0.0, p);
      }
    }
  }
  for (size_t s = 0; s < m.sets.size(); s++) {
    MSet_ptr st = MSet_New(b.mesh, m.sets[s].name.c_str(), (MType)m.sets[s].entdim);
    for (int k = 0; k <= m.dim; k++) for (int i = 0; i < m.n(k); i++) if (b.h[k][i] && m.inset((int)s, k, i)) MSet_Add(st, b.h[k][i]);
  }
}
void *sim_lib_alloc(size_t n) { return heap_alloc(n, false); }

Built build(const RefMesh &m, const VI *cells, RepType rep, uint64_t shuffle, bool with_atts, bool flip) {
  Built b;
  b.mesh = MESH_New(rep);
  std::vector<char> use[4];
  for (int k = 0; k < 4; k++) { use[k].assign(m.n(k), cells ? 0 : 1); b.h[k].assign(m.n(k), nullptr); }
  if (cells) for (int c : *cells) for (int k = 0; k <= m.dim; k++) for (int i : m.down(m.dim, c, k)) use[k][i] = 1;
  Rng g(shuffle);
  auto order = [&](int k) {
    VI o;
    for (int i = 0; i < m.n(k); i++) if (use[k][i]) o.push_back(i);
    if (shuffle) for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[(size_t)g.range(0, (long)i - 1)]);
    return o;
  };
  // entities that are deleted before the mesh is used: they leave gaps in the local IDs
  Rng jg(shuffle * 7919 + 13);
  std::vector<void *> junk[4];
  auto add_junk = [&](int k) {
    if (!m.gaps || !jg.chance(m.gaps)) return;
    MVertex_ptr v[4];
    for (int q = 0; q < (k == 0 ? 1 : k + 1); q++) {
      if (!junk[0].empty() && k && jg.chance(30)) { v[q] = junk[0][(size_t)jg.range(0, (long)junk[0].size() - 1)]; bool dup = false; for (int w = 0; w < q; w++) dup |= v[w] == v[q]; if (!dup) continue; }
      double x[3] = {1e3 + (double)junk[0].size(), 0.5 * q, 1.5};
      v[q] = MV_New(b.mesh); MV_Set_Coords(v[q], x); junk[0].push_back(v[q]);
    }
    if (k == 1) { MEdge_ptr e = ME_New(b.mesh); ME_Set_Vertex(e, 0, v[0]); ME_Set_Vertex(e, 1, v[1]); }
    if (k == 2) { MFace_ptr f = MF_New(b.mesh); MF_Set_Vertices(f, 3, v); }
    if (k == 3) { MRegion_ptr r = MR_New(b.mesh); MR_Set_Vertices(r, 4, v, 0, NULL); }
  };
  auto drop_junk = [&] {
    for (int k = 3; k >= 1; k--) {
      std::vector<void *> l; std::set<void *> in;
      for (void *v : junk[0]) { List_ptr a = k == 3 ? (m.dim == 3 ? MV_Regions(v) : NULL) : k == 2 ? MV_Faces(v) : MV_Edges(v); if (!a) continue; for (int q = 0; q < List_Num_Entries(a); q++) if (in.insert(List_Entry(a, q)).second) l.push_back(List_Entry(a, q)); List_Delete(a); }
      for (void *h : l) { if (k == 3) MR_Delete(h, 0); else if (k == 2) MF_Delete(h, 0); else ME_Delete(h, 0); }
    }
    for (void *v : junk[0]) MV_Delete(v, 0);
  };
  for (int i : order(0)) {
    add_junk(0);
    MVertex_ptr v = MV_New(b.mesh);
    double x[3] = {m.xyz[i][0], m.xyz[i][1], m.xyz[i][2]};
    MV_Set_Coords(v, x);
    b.h[0][i] = v;
  }
  for (int i : order(1)) {
    add_junk(1);
    MEdge_ptr e = ME_New(b.mesh);
    int f = flip ? (int)g.range(0, 1) : 0;
    ME_Set_Vertex(e, 0, b.h[0][m.edges[i][f]]);
    ME_Set_Vertex(e, 1, b.h[0][m.edges[i][1 - f]]);
    b.h[1][i] = e;
  }
  VI fo = order(2);
  std::vector<char> ffl(m.n(2), 0);
  for (int i : fo) {
    add_junk(2);
    MFace_ptr f = MF_New(b.mesh);
    VI loop = m.faces[i], fe = m.fedges[i];
    int n = (int)loop.size();
    if (flip && m.dim == 3 && g.chance(50)) {   // reversed face: independent parts may disagree
      ffl[i] = 1;
      std::reverse(loop.begin(), loop.end());
      VI r;
      for (int q = 0; q < n; q++) r.push_back(fe[(2 * n - 2 - q) % n]);
      fe = r;
    }
    if (flip) { long s = g.range(0, n - 1); std::rotate(loop.begin(), loop.begin() + s, loop.end()); std::rotate(fe.begin(), fe.begin() + s, fe.end()); }
    std::vector<MEdge_ptr> es; VI dirs;
    for (int q = 0; q < n; q++) { MEdge_ptr e = b.h[1][fe[q]]; es.push_back(e); dirs.push_back(ME_Vertex(e, 0) == b.h[0][loop[q]] ? 1 : 0); }
    MF_Set_Edges(f, n, es.data(), dirs.data());
    b.h[2][i] = f;
  }
  for (int i : order(3)) {
    add_junk(3);
    MRegion_ptr r = MR_New(b.mesh);
    std::vector<MFace_ptr> fs; VI dirs = m.rdirs[i];
    for (size_t q = 0; q < m.rfaces[i].size(); q++) { fs.push_back(b.h[2][m.rfaces[i][q]]); if (ffl[m.rfaces[i][q]]) dirs[q] = !dirs[q]; }
    MR_Set_Faces(r, (int)fs.size(), fs.data(), dirs.data());
    b.h[3][i] = r;
  }
  for (int k = 0; k < 4; k++) for (int i = 0; i < m.n(k); i++) if (b.h[k][i]) ent_set_g(k, b.h[k][i], m.gdim[k][i], m.gid[k][i]);
  drop_junk();
  if (with_atts) put_atts_sets(m, b);
  return b;
}

std::string ent_name(int k, int ref, const RefMesh &m) {
  char b[200];
  if (ref < 0) { snprintf(b, sizeof b, "unknown %s", kname(k)); return b; }
  std::string s = kname(k);
  s += "(vertices";
  for (int v : m.verts(k, ref)) { snprintf(b, sizeof b, " %d", v); s += b; }
  return s + ")";
}

Snap snapshot(Mesh_ptr mesh, const RefMesh &m, int flags, const std::vector<XYZ> *coords) {
  Snap s;
  s.ok = true;
  std::map<std::array<uint64_t, 3>, int> alt;
  const std::map<std::array<uint64_t, 3>, int> *vk = &m.vkey;
  if (coords) { for (size_t i = 0; i < coords->size(); i++) alt[bits((*coords)[i])] = (int)i; vk = &alt; }
  std::unordered_map<void *, int> at[4];     // handle -> index in e
  char buf[300];
  auto err = [&](const std::string &t) { if (s.errs.size() < 5) s.errs.push_back(t); };
  int cnt[4] = {MESH_Num_Vertices(mesh), MESH_Num_Edges(mesh), MESH_Num_Faces(mesh), MESH_Num_Regions(mesh)};
  auto refof = [&](int k, void *h) -> int { auto it = at[k].find(h); return it == at[k].end() ? -1 : s.e[k][it->second].ref; };
  for (int k = 0; k < 4; k++) {
    if (k == 1 && (flags & SN_FACES_ONLY)) {}
    for (int i = 0; i < cnt[k]; i++) {
      Ent e;
      void *h = k == 0 ? MESH_Vertex(mesh, i) : k == 1 ? MESH_Edge(mesh, i) : k == 2 ? MESH_Face(mesh, i) : MESH_Region(mesh, i);
      if (!h) { snprintf(buf, sizeof buf, "%s number %d is null", kname(k), i); err(buf); continue; }
      e.h = h;
      e.lid = MEnt_ID(h); e.gid = MEnt_GlobalID(h); e.pt = MEnt_PType(h); e.master = MEnt_MasterParID(h);
      e.onpb = k < 3 ? (k == 0 ? MV_OnParBoundary(h) : k == 1 ? ME_OnParBoundary(h) : MF_OnParBoundary(h)) : 0;
      for (int b = 1; b <= 32; b++) if (MEnt_IsMarked(h, b)) { snprintf(buf, sizeof buf, "%s with global ID %d is still marked with marker %d", kname(k), e.gid, b); violate("C22", "mark", "%s", buf); break; }
      e.gdim = MEnt_GEntDim(h); e.gent = MEnt_GEntID(h);
      if (k == 0) {
        double x[3]; MV_Coords(h, x);
        e.x = {{x[0], x[1], x[2]}};
        auto it = vk->find(bits(e.x));
        if (it == vk->end()) { snprintf(buf, sizeof buf, "a vertex (global ID %d) lies at (%.17g,%.17g,%.17g), where the mesh has none", e.gid, x[0], x[1], x[2]); err(buf); }
        else e.ref = it->second;
      } else if (k == 1) {
        void *a = ME_Vertex(h, 0), *b = ME_Vertex(h, 1);
        e.conn = {refof(0, a), refof(0, b)};
        VI key = e.conn; std::sort(key.begin(), key.end());
        auto it = m.key[1].find(key);
        if (it == m.key[1].end()) { snprintf(buf, sizeof buf, "an edge (global ID %d) joins vertices %d and %d, which no edge of the mesh joins", e.gid, key[0], key[1]); err(buf); }
        else e.ref = it->second;
      } else if (k == 2) {
        List_ptr l = MF_Vertices(h, 1, 0);
        int n = List_Num_Entries(l);
        for (int q = 0; q < n; q++) e.conn.push_back(refof(0, List_Entry(l, q)));
        List_Delete(l);
        VI key = e.conn; std::sort(key.begin(), key.end());
        auto it = m.key[2].find(key);
        if (it == m.key[2].end()) { std::string t = "a face joins vertices"; for (int v : key) t += " " + std::to_string(v); t += ", which no face of the mesh joins"; err(t); }
        else e.ref = it->second;
        if (!(flags & SN_FACES_ONLY)) {
          l = MF_Edges(h, 1, 0);
          n = List_Num_Entries(l);
          VI loop;
          for (int q = 0; q < n; q++) {
            void *ed = List_Entry(l, q);
            int d = MF_EdgeDir_i(h, q);
            auto iz = at[1].find(ed);
            if (iz == at[1].end()) { err("a face has an edge that is not in the mesh"); break; }
            loop.push_back(s.e[1][iz->second].conn[d ? 0 : 1]);
          }
          List_Delete(l);
          if (!same_cycle(e.conn, loop)) err("the edges and directions of " + ent_name(2, e.ref, m) + " do not give its vertex loop");
        }
      } else {
        List_ptr l = MR_Faces(h);
        int n = List_Num_Entries(l);
        std::set<int> vs;
        for (int q = 0; q < n; q++) {
          void *f = List_Entry(l, q);
          auto iz = at[2].find(f);
          if (iz == at[2].end()) { err("a region has a face that is not in the mesh"); continue; }
          const Ent &fe = s.e[2][iz->second];
          e.conn.push_back(fe.ref);
          int d = MR_FaceDir_i(h, q);
          // direction relative to the reference loop of the face
          if (fe.ref >= 0 && !same_cycle(fe.conn, m.faces[fe.ref])) d = !d;
          e.dirs.push_back(d);
          for (int v : fe.conn) vs.insert(v);
        }
        List_Delete(l);
        auto it = m.key[3].find(VI(vs.begin(), vs.end()));
        if (it == m.key[3].end()) { snprintf(buf, sizeof buf, "a region (global ID %d, %d faces, %d vertices) is none of the mesh", e.gid, n, (int)vs.size()); err(buf); }
        else e.ref = it->second;
      }
      if (e.ref >= 0) {
        if (s.idx[k].count(e.ref)) err(ent_name(k, e.ref, m) + " is there twice on one process");
        s.idx[k][e.ref] = (int)s.e[k].size();
      }
      at[k][h] = (int)s.e[k].size();
      s.e[k].push_back(e);
    }
  }
  // ghost and overlap lists
  for (int k = 0; k < 4; k++) {
    int idx = 0; void *h;
    auto nextg = [&]() -> void * { return k == 0 ? MESH_Next_GhostVertex(mesh, &idx) : k == 1 ? MESH_Next_GhostEdge(mesh, &idx) : k == 2 ? MESH_Next_GhostFace(mesh, &idx) : MESH_Next_GhostRegion(mesh, &idx); };
    auto nexto = [&]() -> void * { return k == 0 ? MESH_Next_OverlapVertex(mesh, &idx) : k == 1 ? MESH_Next_OverlapEdge(mesh, &idx) : k == 2 ? MESH_Next_OverlapFace(mesh, &idx) : MESH_Next_OverlapRegion(mesh, &idx); };
    int ng = k == 0 ? MESH_Num_GhostVertices(mesh) : k == 1 ? MESH_Num_GhostEdges(mesh) : k == 2 ? MESH_Num_GhostFaces(mesh) : MESH_Num_GhostRegions(mesh);
    int no = k == 0 ? MESH_Num_OverlapVertices(mesh) : k == 1 ? MESH_Num_OverlapEdges(mesh) : k == 2 ? MESH_Num_OverlapFaces(mesh) : MESH_Num_OverlapRegions(mesh);
    if (ng) while ((h = nextg())) { auto it = at[k].find(h); s.ghosts[k].push_back(it == at[k].end() ? -1 : it->second); }
    idx = 0;
    if (no) while ((h = nexto())) { auto it = at[k].find(h); s.overlaps[k].push_back(it == at[k].end() ? -1 : it->second); }
    if ((int)s.ghosts[k].size() != ng) { snprintf(buf, sizeof buf, "%d ghost %s entities counted, %zu enumerated", ng, kname(k), s.ghosts[k].size()); s.lookup_err = buf; }
    if ((int)s.overlaps[k].size() != no) { snprintf(buf, sizeof buf, "%d overlap %s entities counted, %zu enumerated", no, kname(k), s.overlaps[k].size()); s.lookup_err = buf; }
  }
  if (flags & SN_LOOKUP) {
    MESH_Enable_GlobalIDSearch(mesh);
    for (int k = 0; k < 4; k++) {
      if (s.e[k].empty()) continue;      // nothing of this kind, nothing to look up
      int maxg = 0;
      for (auto &e : s.e[k]) {
        maxg = std::max(maxg, e.gid);
        void *h = k == 0 ? MESH_VertexFromGlobalID(mesh, e.gid) : k == 1 ? MESH_EdgeFromGlobalID(mesh, e.gid) : k == 2 ? MESH_FaceFromGlobalID(mesh, e.gid) : MESH_RegionFromGlobalID(mesh, e.gid);
        if (h != e.h) { snprintf(buf, sizeof buf, "looking up the global ID %d gives %s", e.gid, h ? "another entity" : "nothing"); s.lookup_err = ent_name(k, e.ref, m) + ": " + buf; }
      }
      std::set<int> have;
      for (auto &e : s.e[k]) have.insert(e.gid);
      for (int t = 1; t <= maxg + 1; t++) if (!have.count(t)) {
        void *h = k == 0 ? MESH_VertexFromGlobalID(mesh, t) : k == 1 ? MESH_EdgeFromGlobalID(mesh, t) : k == 2 ? MESH_FaceFromGlobalID(mesh, t) : MESH_RegionFromGlobalID(mesh, t);
        if (h) { snprintf(buf, sizeof buf, "looking up the %s global ID %d, which no entity here has, finds one", kname(k), t); s.lookup_err = buf; }
      }
    }
    MESH_Disable_GlobalIDSearch(mesh);
  }
  if (flags & SN_UP) {
    std::map<std::pair<int, void *>, std::set<void *>> upw[4];
    // vertex->edges, edge->faces, face->regions from downward queries
    std::unordered_map<void *, std::set<void *>> ve, ef, fr;
    for (auto &e : s.e[1]) { ve[ME_Vertex(e.h, 0)].insert(e.h); ve[ME_Vertex(e.h, 1)].insert(e.h); }
    for (auto &f : s.e[2]) { List_ptr l = MF_Edges(f.h, 1, 0); for (int q = 0; q < List_Num_Entries(l); q++) ef[List_Entry(l, q)].insert(f.h); List_Delete(l); }
    for (auto &r : s.e[3]) { List_ptr l = MR_Faces(r.h); for (int q = 0; q < List_Num_Entries(l); q++) fr[List_Entry(l, q)].insert(r.h); List_Delete(l); }
    auto cmp = [&](int k, const Ent &e, List_ptr l, std::set<void *> &want) {
      std::set<void *> got;
      int n = 0;
      if (l) { n = List_Num_Entries(l); for (int q = 0; q < n; q++) got.insert(List_Entry(l, q)); List_Delete(l); }
      if (got != want || n != (int)want.size()) { snprintf(buf, sizeof buf, " is used by %zu entities of dimension %d but answers %d", want.size(), k + 1, n); s.up_err = ent_name(k, e.ref, m) + buf; }
    };
    for (auto &e : s.e[0]) cmp(0, e, MV_Edges(e.h), ve[e.h]);
    for (auto &e : s.e[1]) cmp(1, e, ME_Faces(e.h), ef[e.h]);
    if (!s.e[3].empty()) for (auto &e : s.e[2]) cmp(2, e, MF_Regions(e.h), fr[e.h]);
  }
  if (flags & SN_ATT) {
    int idx = 0; MAttrib_ptr a;
    std::vector<MAttrib_ptr> al;
    while ((a = MESH_Next_Attrib(mesh, &idx))) {
      char nm[256]; MAttrib_Get_Name(a, nm);
      AttDef d{nm, (int)MAttrib_Get_Type(a), (int)MAttrib_Get_EntDim(a), (int)MAttrib_Get_NumComps(a)};
      if (d.type == POINTER) continue;     // bookkeeping of the library, not data
      s.atts.push_back(d); al.push_back(a);
    }
    for (int k = 0; k < 4; k++) for (auto &e : s.e[k]) {
      e.atts.resize(s.atts.size());
      e.attset.assign(s.atts.size(), 0);
      for (size_t q = 0; q < s.atts.size(); q++) {
        auto &d = s.atts[q];
        if (d.entdim != k && d.entdim != MALLTYPE) continue;
        if (d.type == POINTER) continue;
        int iv = 0; double dv = 0; void *pv = nullptr;
        int ok = MEnt_Get_AttVal(e.h, al[q], &iv, &dv, &pv);
        e.attset[q] = ok;
        if (!ok) { e.atts[q].assign(d.type == INT || d.type == DOUBLE ? 1 : d.ncomp, 0.0); continue; }
        if (d.type == INT) e.atts[q] = {(double)iv};
        else if (d.type == DOUBLE) e.atts[q] = {dv};
        else {
          if (pv) {
            std::string why;
            if (!heap_range_ok(pv, 8 * (size_t)d.ncomp, &why)) { err("the value of attribute " + d.name + " on " + ent_name(k, e.ref, m) + " is memory that is " + why); e.atts[q].assign(d.ncomp, -12345.0); }
            else e.atts[q].assign((double *)pv, (double *)pv + d.ncomp);
          } else e.atts[q].assign(d.ncomp, 0.0);
        }
      }
    }
    idx = 0; MSet_ptr st;
    while ((st = MESH_Next_MSet(mesh, &idx))) {
      char nm[256]; MSet_Name(st, nm);
      s.sets.push_back({nm, (int)MSet_EntDim(st)});
      VI mem; int dup = 0; std::set<int> seen;
      int n = MSet_Num_Entries(st);
      for (int q = 0; q < n; q++) {
        void *h = MSet_Entry(st, q);
        int k = s.sets.back().entdim;
        if (k == MALLTYPE) for (k = 0; k < 4 && refof(k, h) < 0; k++) {}
        int r = k >= 0 && k < 4 ? refof(k, h) : -1;
        if (r >= 0) r = 4 * r + k;
        if (r < 0) err("set " + s.sets.back().name + " has a member that is not an entity of the mesh of its kind");
        mem.push_back(r);
        if (!seen.insert(r).second) dup++;
      }
      s.setmem.push_back(mem); s.setdup.push_back(dup);
    }
  }
  return s;
}
uint64_t snap_hash(const Snap &s) {
  uint64_t h = 7;
  auto put = [&](uint64_t v) { h = mix(h * 0x100000001b3ULL + v + 1); };
  for (int k = 0; k < 4; k++) {
    put(s.e[k].size());
    for (auto &e : s.e[k]) {
      put(e.ref); put(e.lid); put(e.gid); put(e.pt); put(e.master); put(e.onpb); put(e.gdim); put(e.gent);
      for (int c : e.conn) put(c);
      for (int c : e.dirs) put(c);
      for (auto &a : e.atts) for (double d : a) { uint64_t b; memcpy(&b, &d, 8); put(b); }
    }
    for (int g : s.ghosts[k]) put(g);
    for (int g : s.overlaps[k]) put(g);
  }
  for (auto &a : s.atts) { for (char c : a.name) put(c); put(a.type); put(a.entdim); put(a.ncomp); }
  for (size_t q = 0; q < s.sets.size(); q++) { for (char c : s.sets[q].name) put(c); for (int r : s.setmem[q]) put(r); }
  return h;
}
