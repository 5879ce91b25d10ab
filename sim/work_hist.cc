// Workload "hist": a distributed or woven mesh lives through a history of attribute
// changes, updates, gather-scatters, exchanges, moves, coordinate updates, renumberings
// and checks; a plain model of all values on all processes is kept beside it.
#include "work.h"
#include <cstdio>
#include <cmath>
#include <algorithm>
#include <cstring>

enum { O_NOP, O_SET, O_UPD1, O_UPDALL, O_GS, O_XCHG, O_MOVE, O_COORDS, O_RENUM, O_CHECK, O_CORRUPT, O_GIDS, O_DEL, O_NKIND };
static void gen_hist(Rng &g, Params &p, const std::string &prop, bool thorough) {
  if (g.chance(40)) {
    gen_weave(g, p, prop, thorough);
    p.set("start", 1); p.set("wflip", g.range(0, 1));
  } else {
    extern void gen_dist(Rng &, Params &, const std::string &, bool);
    gen_dist(g, p, "", thorough);
    p.set("start", 0);
  }
  int nh = (int)g.range(1, 4), dim = (int)p.get("dim");
  bool xch = prop == "C09";
  for (int j = 0; j < 4; j++) {
    static const int ty[] = {INT, DOUBLE, VECTOR, TENSOR};
    int t = ty[g.range(0, 3)], k = xch && g.chance(80) ? dim - 1 : (int)g.range(0, dim);
    int nc = t == INT || t == DOUBLE ? 1 : t == TENSOR ? (int)g.range(2, 6) : (int)g.range(1, 4);
    p.set("h" + std::to_string(j), j < nh ? 1 + t + 10 * k + 100 * nc : 0);
  }
  p.set("big", g.chance(25));
  int nops = (int)g.range(2, thorough ? 14 : 8);
  for (int i = 0; i < 14; i++) {
    int w[O_NKIND] = {0, 6, 3, 2, 2, 2, 2, 2, 2, 1, 1, 1, 2};
    if (prop == "C06") { w[O_RENUM] = 12; w[O_GIDS] = 9; }
    if (prop == "C07") { w[O_UPD1] = 10; w[O_UPDALL] = 5; w[O_SET] = 12; }
    if (prop == "C08") { w[O_GS] = 14; w[O_SET] = 10; }
    if (prop == "C09") { w[O_XCHG] = 14; w[O_SET] = 10; }
    if (prop == "C10") { w[O_MOVE] = 10; w[O_COORDS] = 10; }
    if (prop == "C14") { w[O_CHECK] = 6; w[O_CORRUPT] = 14; }
    int tot = 0; for (int x : w) tot += x;
    int x = (int)g.range(0, tot - 1), o = 0;
    while (x >= w[o]) x -= w[o++];
    p.set("o" + std::string(i < 10 ? "0" : "") + std::to_string(i), i < nops ? o + 16 * g.range(0, 4095) : 0);
  }
}
namespace {
struct HA { std::string name; int type, k, nc; std::vector<MAttrib_ptr> a; };
typedef std::vector<double> V;
struct Model {
  std::vector<HA> atts;
  // per attribute, rank: ref -> value
  std::vector<std::vector<std::map<int, V>>> val;
  std::vector<std::map<int, XYZ>> pos;
  std::vector<std::map<int, std::array<int, 3>>> lab[4];  // gid, ptype, master
};
}
static V read_att(void *h, MAttrib_ptr a, int type, int nc) {
  int iv = 0; double rv = 0; void *pv = nullptr;
  MEnt_Get_AttVal(h, a, &iv, &rv, &pv);
  V v;
  if (type == INT) v.push_back(iv);
  else if (type == DOUBLE) v.push_back(rv);
  else for (int c = 0; c < nc; c++) v.push_back(pv ? ((double *)pv)[c] : 0.0);
  return v;
}
static void collect(const std::vector<Snap> &s, Model &m, const std::vector<Mesh_ptr> &, bool first) {
  int n = (int)s.size();
  m.val.assign(m.atts.size(), std::vector<std::map<int, V>>(n));
  m.pos.assign(n, {});
  for (int k = 0; k < 4; k++) m.lab[k].assign(n, {});
  for (int r = 0; r < n; r++) {
    for (size_t a = 0; a < m.atts.size(); a++) {
      HA &h = m.atts[a];
      for (auto &e : s[r].e[h.k]) m.val[a][r][e.ref] = read_att(e.h, h.a[r], h.type, h.nc);
    }
    for (auto &e : s[r].e[0]) { XYZ x; MV_Coords(e.h, x.data()); m.pos[r][e.ref] = x; }
    for (int k = 0; k < 4; k++) for (auto &e : s[r].e[k]) m.lab[k][r][e.ref] = {{MEnt_GlobalID(e.h), (int)MEnt_PType(e.h), (int)MEnt_MasterParID(e.h)}};
  }
}
static std::string S(const V &v) { std::string s; char b[40]; for (double x : v) { snprintf(b, sizeof b, "%s%.17g", s.empty() ? "" : ",", x); s += b; } return s; }
static bool near(const V &a, const V &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i] && !(std::fabs(a[i] - b[i]) <= 1e-12 * std::fabs(b[i]))) return false;
  return true;
}
static double norm2(const V &v) { double s = 0; for (double x : v) s += x * x; return s; }
static int owner_of(const Model &m, int k, int ref, const VI &cp) { for (int r : cp) if (m.lab[k][r].at(ref)[1] != PGHOST) return r; return -1; }

static void set_values(uint64_t seed, int rank, const Snap &s, const Model &m, bool big) {
  int dens = (int)(mix(seed) % 4);
  for (size_t a = 0; a < m.atts.size(); a++) {
    const HA &h = m.atts[a];
    if (mix(seed * 5 + a) % 4 == 0) continue;
    for (auto &e : s.e[h.k]) {
      Rng g(mix(seed * 977 + a * 31 + rank * 7919) ^ mix(e.ref + 1));
      if ((int)g.range(0, 3) < dens && dens < 3) continue;
      if (g.chance(12)) { MEnt_Rem_AttVal(e.h, h.a[rank]); continue; }
      V v;
      int z = (int)g.range(0, 5);
      if (g.chance(6)) { v.assign(h.nc, (double)g.range(-1, 1)); MEnt_Set_AttVal(e.h, h.a[rank], (int)v[0], v[0], h.type == VECTOR || h.type == TENSOR ? v.data() : nullptr); continue; }
      for (int c = 0; c < h.nc; c++) {
        double x = z == 0 ? 0 : z == 1 ? (double)g.range(-5, 5) : (double)g.range(-100000, 100000);
        if (z > 2 && g.chance(30)) x = 0;
        if (h.type != INT && g.chance(50)) x += g.range(-8, 8) / 8.0;
        if (big && g.chance(15)) x = h.type == INT ? (g.chance(50) ? -2147483647.0 - 1 : 2147483647.0) : (g.chance(50) ? 1 : -1) * (g.chance(50) ? 1e300 : 5e-324);
        v.push_back(x);
      }
      MEnt_Set_AttVal(e.h, h.a[rank], h.type == INT ? (int)v[0] : 0, v[0], h.type == VECTOR || h.type == TENSOR ? v.data() : nullptr);
    }
  }
}
// one copy of one shared entity made to disagree with the others, and put right again
struct Corruption {
  int k = -1, ref = -1, rank = -1, kind = 0; long val = 0; double dx = 0; int old1 = 0; XYZ x; std::string text;
  void apply(void *h, bool undo) {
    if (kind == 0) { XYZ y; if (!undo) { MV_Coords(h, x.data()); y = x; y[old1] += dx; } else y = x; MV_Set_Coords(h, y.data()); return; }
    int now = kind == 1 ? MEnt_GlobalID(h) : kind == 2 ? MEnt_MasterParID(h) : kind == 3 ? (int)MEnt_PType(h) : kind == 4 ? MEnt_GEntID(h) : MEnt_GEntDim(h);
    int v = undo ? old1 : (int)val;
    if (!undo) old1 = now;
    switch (kind) {
      case 1: if (k == 0) MV_Set_GlobalID(h, v); else if (k == 1) ME_Set_GlobalID(h, v); else if (k == 2) MF_Set_GlobalID(h, v); else MR_Set_GlobalID(h, v); break;
      case 2: if (k == 0) MV_Set_MasterParID(h, v); else if (k == 1) ME_Set_MasterParID(h, v); else if (k == 2) MF_Set_MasterParID(h, v); else MR_Set_MasterParID(h, v); break;
      case 3: if (k == 0) MV_Set_PType(h, (PType)v); else if (k == 1) ME_Set_PType(h, (PType)v); else if (k == 2) MF_Set_PType(h, (PType)v); else MR_Set_PType(h, (PType)v); break;
      case 4: if (k == 0) MV_Set_GEntID(h, v); else if (k == 1) ME_Set_GEntID(h, v); else if (k == 2) MF_Set_GEntID(h, v); else MR_Set_GEntID(h, v); break;
      case 5: if (k == 0) MV_Set_GEntDim(h, v); else if (k == 1) ME_Set_GEntDim(h, v); else if (k == 2) MF_Set_GEntDim(h, v); else MR_Set_GEntDim(h, v); break;
    }
  }
};
static bool pick_corruption(Corruption &c, Rng g, const RefMesh &m, const Model &md, const std::vector<VI> *copies, int n) {
  std::vector<VI> sh(4); VI kinds;
  for (int k = 0; k <= m.dim; k++) { for (int i = 0; i < m.n(k); i++) if (copies[k][i].size() > 1) sh[k].push_back(i); if (sh[k].size()) kinds.push_back(k); }
  if (kinds.empty()) return false;
  c.k = kinds[g.range(0, (long)kinds.size() - 1)];
  c.ref = sh[c.k][g.range(0, (long)sh[c.k].size() - 1)];
  const VI &cp = copies[c.k][c.ref];
  c.rank = cp[g.range(0, (long)cp.size() - 1)];
  auto lab = md.lab[c.k][c.rank].at(c.ref);
  bool ghost = lab[1] == PGHOST;
  c.kind = (int)g.range(c.k == 0 ? 0 : 1, 5);
  char b[200];
  const char *what[] = {"coordinates", "global ID", "master process", "parallel label", "model entity ID", "model entity dimension"};
  if (c.kind == 0) { c.old1 = (int)g.range(0, m.dim - 1); c.dx = (g.chance(50) ? 1 : -1) * (g.chance(50) ? 1e-6 : 0.3); }
  if (c.kind == 1) {
    int mx = 0; for (int q = 0; q < n; q++) for (auto &x : md.lab[c.k][q]) mx = std::max(mx, x.second[0]);
    c.val = mx + g.range(1, 50);
    if (c.k < 2 && g.chance(50)) { int o = (int)g.range(0, m.n(c.k) - 1); if (o != c.ref && copies[c.k][o].size()) c.val = md.lab[c.k][copies[c.k][o][0]].at(o)[0]; }
  }
  if (c.kind == 2) { do c.val = g.range(0, n - 1); while (c.val == lab[2]); }
  if (c.kind == 3) c.val = ghost ? (g.chance(50) ? POVERLAP : PINTERIOR) : (g.chance(50) ? PGHOST : PINTERIOR);
  if (c.kind == 4) c.val = m.gid[c.k][c.ref] + 1 + g.range(0, 3);
  if (c.kind == 5 && m.gdim[c.k][c.ref] == MUNKNOWNTYPE) { c.kind = 4; c.val = m.gid[c.k][c.ref] + 1; }   // unknown goes with everything
  if (c.kind == 5) { do c.val = g.range(c.k, 3); while (c.val == m.gdim[c.k][c.ref] && c.k < 3); if (c.k == 3) { c.kind = 4; c.val = m.gid[3][c.ref] + 1; } }
  snprintf(b, sizeof b, "%s of the %s copy of %s on process %d (%ld)", what[c.kind], ghost ? "ghost" : "owned", ent_name(c.k, c.ref, m).c_str(), c.rank, c.val);
  c.text = b;
  snprintf(b, sizeof b, "corrupt k%d kind%d ghost%d dim%d n%d", c.k, c.kind, ghost, m.dim, n); probe(b);
  return true;
}
static void run_hist() {
  RefMesh m = ref_from_params();
  int n = (int)P("n", 2);
  bool weave = P("start");
  if (!weave && m.ncells() < n) stop_run("skip: fewer cells than processes");
  VI part; if (weave) part = own_parts(m, n, (int)P("wmode"), (uint64_t)P("wseed"));
  std::vector<Snap> s(n);
  std::vector<Mesh_ptr> mesh(n);
  std::vector<long> ops;
  for (int i = 0; i < 14; i++) { long o = P(("o" + std::string(i < 10 ? "0" : "") + std::to_string(i)).c_str()); if (o) ops.push_back(o); }
  Model md, pre;
  for (int j = 0; j < 4; j++) {
    long h = P(("h" + std::to_string(j)).c_str()) - 1;
    if (h < 0) continue;
    HA a; a.name = "hist" + std::to_string(j); a.type = (int)(h % 10); a.k = std::min((int)(h / 10 % 10), m.dim); a.nc = std::max(1, (int)(h / 100));
    if (a.type == POINTER || a.type > TENSOR) a.type = DOUBLE;
    if (a.type == INT || a.type == DOUBLE) a.nc = 1;
    a.a.resize(n);
    md.atts.push_back(a);
  }
  bool posok = true;                       // ghost coordinates equal their owners'
  std::vector<VI> copies[4];
  std::set<int> dead, gone[4]; bool havedel = false;   // cells deleted everywhere, and what goes with them
  Corruption cor; bool havecor = false;
  std::vector<int> ret(n);
  std::string done;
  run_ranks(n, [&](int r) {
    Mesh_ptr mine = weave ? do_weave(m, r, part) : do_distribute(m, r);
    mesh[r] = mine;
    s[r] = snapshot(mine, m, 0);
    for (auto &h : md.atts) {
      if (h.type == INT || h.type == DOUBLE) h.a[r] = MAttrib_New(mine, h.name.c_str(), (MAttType)h.type, (MType)h.k);
      else h.a[r] = MAttrib_New(mine, h.name.c_str(), (MAttType)h.type, (MType)h.k, h.nc);
    }
    sync([&]() {
      Dist d = derive(m, s);
      for (int k = 0; k < 4; k++) copies[k] = d.copies[k];
      for (int q = 0; q < n; q++) if (!s[q].errs.empty()) die("C01", "garbled", "process %d: %s", q, s[q].errs[0].c_str());
      for (int k = 0; k <= m.dim; k++) for (int i = 0; i < m.n(k); i++) if (copies[k][i].size() && d.owner[k][i].size() != 1) die("C02", "owners", "%s has %zu owners", ent_name(k, i, m).c_str(), d.owner[k][i].size());
      collect(s, md, mesh, true);
    });
    for (size_t oi = 0; oi < ops.size(); oi++) {
      int op = (int)(ops[oi] % 16); long arg = ops[oi] / 16;
      HA *h = md.atts.empty() ? nullptr : &md.atts[arg % md.atts.size()];
      int ai = h ? (int)(arg % md.atts.size()) : -1;
      long sub = arg / 8;
      const char *pr = spec->prop.c_str(); int code = 1, want = 1;
      bool is = true;
      int aop = ATTOP_MAX + (int)(sub % 4);
      int rk = -1; long gfac = 1, gadd = 0;
      char nm[80] = "";
      switch (op) {
        case O_SET: set_values((uint64_t)arg * 64 + oi, r, s[r], md, P("big")); snprintf(nm, sizeof nm, "set"); break;
        case O_UPD1: if (!h) { is = false; break; }
          snprintf(nm, sizeof nm, "MESH_Update1Attribute"); set_where(nm); pr = "C07";
          code = MESH_Update1Attribute(mine, h->a[r], group_comm()); break;
        case O_UPDALL: snprintf(nm, sizeof nm, "MESH_UpdateAttributes"); set_where(nm); pr = "C07";
          code = MESH_UpdateAttributes(mine, group_comm()); break;
        case O_GS: {
          pr = "C08"; if (!h) { is = false; break; }
          bool big = false;                // sums and norms of the values would not be exact
          for (int q = 0; q < n; q++) for (auto &x : md.val[ai][q]) for (double y : x.second) if (std::fabs(y) > 1e6 || (y != 0 && std::fabs(y) < 1e-6)) big = true;
          if ((h->type == INT && aop == ATTOP_AVG) || (big && (aop == ATTOP_SUM || aop == ATTOP_AVG || h->type == VECTOR || h->type == TENSOR))) { is = false; break; }
          snprintf(nm, sizeof nm, "MESH_GathScat1Attribute op %d", aop); set_where(nm);
          want = n > 1 ? 1 : 0;
          code = MESH_GathScat1Attribute(mine, h->a[r], (MAttOpType)aop, group_comm()); break; }
        case O_XCHG:
          pr = "C09"; if (!h || h->k != m.dim - 1) { is = false; break; }
          snprintf(nm, sizeof nm, "MESH_XchngEdgeFaceAttrib"); set_where(nm);
          want = n > 1 ? 1 : 0;
          code = MESH_XchngEdgeFaceAttrib(mine, h->a[r], group_comm()); break;
        case O_MOVE: {
          snprintf(nm, sizeof nm, "move");
          for (auto &e : s[r].e[0]) {
            Rng g(mix((uint64_t)arg * 131 + oi) ^ mix(e.ref * 2 + 1) ^ (uint64_t)(md.lab[0][r][e.ref][1] == PGHOST ? r + 5 : 0));
            if (g.chance(30)) continue;
            XYZ x = m.xyz[e.ref];
            for (int d = 0; d < 3; d++) x[d] += (g.unit() - 0.5) * (arg % 3 == 0 ? 1e-3 : arg % 3 == 1 ? 1 : 1e6);
            MV_Set_Coords(e.h, x.data());
          }
          break; }
        case O_GIDS: {                      // the client gives entities global IDs with gaps, in the same order
          static const long mul[] = {1, 1, 2, 3, 7}; long fac = mul[sub % 5], add = fac == 1 ? 1 + sub % 90 : sub % 3;
          rk = (int)(sub / 5 % 5) == 4 ? MALLTYPE : (int)(sub / 5 % (m.dim + 1));
          snprintf(nm, sizeof nm, "gaps in the global IDs of %s", rk == MALLTYPE ? "all kinds" : kname(rk));
          long mx = 0; for (int k = 0; k <= m.dim; k++) for (int q = 0; q < n; q++) for (auto &x : md.lab[k][q]) mx = std::max(mx, (long)x.second[0]);
          if (mx > 10000000) { is = false; break; }
          gfac = fac; gadd = add;
          for (int k = 0; k <= m.dim; k++) if (rk == MALLTYPE || rk == k) for (auto &e : s[r].e[k]) { int x = (int)(md.lab[k][r].at(e.ref)[0] * fac + add); if (k == 0) MV_Set_GlobalID(e.h, x); else if (k == 1) ME_Set_GlobalID(e.h, x); else if (k == 2) MF_Set_GlobalID(e.h, x); else MR_Set_GlobalID(e.h, x); }
          break; }
        case O_DEL: {                       // all processes delete their copies of some cells and of what bounds no other
          snprintf(nm, sizeof nm, "deletion");
          sync([&]() {
            Rng g((uint64_t)arg * 23 + oi);
            for (auto &x : gone) x.clear();
            std::vector<int> left(n, 0); VI alive;
            for (int c = 0; c < m.ncells(); c++) if (copies[m.dim][c].size()) { alive.push_back(c); left[owner_of(md, m.dim, c, copies[m.dim][c])]++; }
            int want = (int)g.range(1, std::max(1, (int)alive.size() / 4)), k0 = m.dim;
            while (want-- > 0) {
              int c = alive[g.range(0, (long)alive.size() - 1)];
              if (gone[k0].count(c)) continue;
              int &l = left[owner_of(md, k0, c, copies[k0][c])];
              if (l < 2) continue;
              l--; gone[k0].insert(c); dead.insert(c);
            }
            havedel = !gone[k0].empty();
            if (!havedel) return;
            for (int k = 0; k < k0; k++) {
              std::set<int> used;
              for (int c : alive) if (!gone[k0].count(c)) for (int i : m.down(k0, c, k)) used.insert(i);
              for (int i = 0; i < m.n(k); i++) if (copies[k][i].size() && !used.count(i)) gone[k].insert(i);
            }
          });
          if (!havedel) { is = false; break; }
          set_where("MF_Delete");
          for (int k = m.dim; k >= 0; k--) {
            std::vector<Ent> keep;
            VI ord; for (size_t q = 0; q < s[r].e[k].size(); q++) ord.push_back((int)q);
            Rng g((uint64_t)arg * 29 + (uint64_t)r); for (size_t q = ord.size(); q > 1; q--) std::swap(ord[q - 1], ord[g.range(0, (long)q - 1)]);
            for (int q : ord) {
              Ent &e = s[r].e[k][q];
              if (!gone[k].count(e.ref)) continue;
              int ix = 0; MSet_ptr st;
              while ((st = MESH_Next_MSet(mine, &ix))) if (MSet_Contains(st, e.h)) MSet_Rem(st, e.h);
              if (k == 0) MV_Delete(e.h, 0); else if (k == 1) ME_Delete(e.h, 0); else if (k == 2) MF_Delete(e.h, 0); else MR_Delete(e.h, 0);
            }
            for (auto &e : s[r].e[k]) if (!gone[k].count(e.ref)) keep.push_back(e);
            s[r].e[k] = keep; s[r].idx[k].clear();
            for (size_t q = 0; q < keep.size(); q++) s[r].idx[k][keep[q].ref] = (int)q;
          }
          sync([&]() { for (int k = 0; k <= m.dim; k++) for (int i : gone[k]) copies[k][i].clear(); });
          break; }
        case O_COORDS: snprintf(nm, sizeof nm, "MESH_UpdateVertexCoords"); set_where(nm); pr = "C10";
          code = MESH_UpdateVertexCoords(mine, group_comm()); break;
        case O_RENUM: rk = (int)(sub % 5) == 4 ? MALLTYPE : (int)(sub % (m.dim + 1)); pr = "C06";
          snprintf(nm, sizeof nm, "MESH_Renumber_GlobalIDs of %s", rk == MALLTYPE ? "all kinds" : kname(rk)); set_where(nm);
          code = MESH_Renumber_GlobalIDs(mine, (MType)rk, 0, nullptr, group_comm()); break;
        case O_CHECK: snprintf(nm, sizeof nm, "MESH_Parallel_Check"); set_where(nm); pr = "C14";
          code = MESH_Parallel_Check(mine, group_comm()); break;
        case O_CORRUPT: {
          snprintf(nm, sizeof nm, "MESH_Parallel_Check"); set_where(nm); pr = "C14";
          sync([&]() { cor = Corruption(); havecor = n > 1 && posok && pick_corruption(cor, Rng((uint64_t)arg * 17 + oi), m, md, copies, n); });
          if (!havecor) { is = false; break; }
          if (cor.rank == r) cor.apply(s[r].e[cor.k][s[r].idx[cor.k].at(cor.ref)].h, false);
          ret[r] = MESH_Parallel_Check(mine, group_comm());
          sync([&]() {
            int bad = 0; for (int q = 0; q < n; q++) bad += ret[q] != 1;
            if (!bad) violate("C14", "accepted", "MESH_Parallel_Check succeeds on all processes although the %s was changed", cor.text.c_str());
            count("fault.corruption");
          });
          if (cor.rank == r) cor.apply(s[r].e[cor.k][s[r].idx[cor.k].at(cor.ref)].h, true);
          break; }
        default: is = false;
      }
      ret[r] = code;
      sync([&]() {
        if (!is) return;
        done += (done.empty() ? "" : ", ") + std::string(nm);
        count((std::string("op.") + (op == O_SET ? "set" : op == O_UPD1 ? "update1" : op == O_UPDALL ? "updateall" : op == O_GS ? "gathscat" : op == O_XCHG ? "xchng" : op == O_MOVE ? "move" : op == O_COORDS ? "coords" : op == O_RENUM ? "renumber" : op == O_CORRUPT ? "corrupt" : op == O_GIDS ? "gid_gaps" : op == O_DEL ? "delete" : "check")).c_str());
        pre = md;
        collect(s, md, mesh, false);
        bool eq = true;
        for (int i = 0; i < m.n(0); i++) for (int q : copies[0][i]) for (int d = 0; d < 3; d++) if (std::fabs(md.pos[q][i][d] - md.pos[copies[0][i][0]][i][d]) > 1e-12) eq = false;
        posok = eq;
        if (op == O_CHECK) {
          int bad = 0; for (int q = 0; q < n; q++) bad += ret[q] != 1;
          if (posok && bad) violate("C14", "rejected", "MESH_Parallel_Check fails on %d processes for a consistent mesh (after: %s)", bad, done.c_str());
          if (!posok && !bad) violate("C14", "accepted", "MESH_Parallel_Check succeeds everywhere although ghost coordinates differ from their owners' (after: %s)", done.c_str());
        } else for (int q = 0; q < n; q++) if (ret[q] != want) violate(pr, "retcode", "%s returned %d on process %d (after: %s)", nm, ret[q], q, done.c_str());
        // attribute values
        for (size_t a = 0; a < md.atts.size(); a++) {
          if (op == O_SET) break;
          HA &x = md.atts[a];
          bool target = (op == O_UPDALL) || ((op == O_UPD1 || op == O_GS || op == O_XCHG) && (int)a == ai);
          for (int i = 0; i < m.n(x.k); i++) {
            const VI &cp = copies[x.k][i];
            if (cp.empty()) continue;
            int ow = owner_of(pre, x.k, i, cp);
            std::vector<V> in; for (int q : cp) in.push_back(pre.val[a][q][i]);
            // other side of a partition boundary
            int other = -1; std::set<int> cr; bool lost = false;   // lost: a cell of it has been deleted, on an edge of several the process that had it still has a copy
            if (op == O_XCHG && target) {
              
              for (int c = 0; c < m.ncells(); c++) { VI dn = m.down(m.dim, c, x.k); if (std::find(dn.begin(), dn.end(), i) != dn.end()) { lost = lost || dead.count(c); for (int q : copies[m.dim][c]) if (pre.lab[m.dim][q][c][1] != PGHOST) cr.insert(q); } }
              if (cr.size() == 2 && cr.count(ow) && !lost) other = *cr.begin() == ow ? *cr.rbegin() : *cr.begin();
              if (cr.size() == 2 && !cr.count(ow) && dead.empty()) violate("C02", "owners", "%s is owned by process %d, which owns none of its cells", ent_name(x.k, i, m).c_str(), ow);
            }
            for (int q : cp) {
              const V &got = md.val[a][q][i]; const V &was = pre.val[a][q][i];
              std::vector<V> ok;
              if (!target || n == 1) ok.push_back(was);
              else if (op == O_UPD1 || op == O_UPDALL) ok.push_back(pre.val[a][ow][i]);
              else if (op == O_GS) {
                if (cp.size() == 1) ok.push_back(was);
                else if (aop == ATTOP_SUM || aop == ATTOP_AVG) {
                  V t(x.nc, 0.0); for (auto &v : in) for (int c = 0; c < x.nc; c++) t[c] += v[c];
                  if (aop == ATTOP_AVG) for (double &y : t) y /= cp.size();
                  ok.push_back(t);
                } else if (x.type == INT || x.type == DOUBLE) {
                  V t = in[0]; for (auto &v : in) if (aop == ATTOP_MAX ? v[0] > t[0] : v[0] < t[0]) t = v;
                  ok.push_back(t);
                } else {
                  double b = norm2(in[0]); for (auto &v : in) b = aop == ATTOP_MAX ? std::max(b, norm2(v)) : std::min(b, norm2(v));
                  for (auto &v : in) if (norm2(v) == b) ok.push_back(v);
                }
              } else if (op == O_XCHG) {
                if (other >= 0 && (q == ow || q == other)) ok.push_back(pre.val[a][q == ow ? other : ow][i]);
                else { ok.push_back(was); if (q != ow) ok.push_back(pre.val[a][ow][i]); if (cr.size() > 2) for (int o : cr) ok.push_back(pre.val[a][o][i]); if (!(cr.size() == 2 && cr.count(ow) && !lost) && !dead.empty()) for (auto &v : in) ok.push_back(v); }   // no other side for an edge of several
              }
              bool match = false;
              for (auto &v : ok) if (op == O_GS ? near(got, v) : got == v) match = true;
              if (!match) violate(pr, "value", "%s: %s attribute (%d components) of %s: process %d (%s) has %s, should have %s, had %s (after: %s)", nm, x.type == INT ? "INT" : x.type == DOUBLE ? "DOUBLE" : x.type == VECTOR ? "VECTOR" : "TENSOR", x.nc, ent_name(x.k, i, m).c_str(), q, q == ow ? "owner" : "ghost", S(got).c_str(), S(ok[0]).c_str(), S(was).c_str(), done.c_str());
              if (op == O_GS && target && got != md.val[a][ow][i]) violate(pr, "disagree", "%s: copies of %s on processes %d and %d differ afterwards", nm, ent_name(x.k, i, m).c_str(), q, ow);
            }
          }
        }
        // coordinates
        if (op != O_MOVE) for (int i = 0; i < m.n(0); i++) {
          const VI &cp = copies[0][i];
          if (cp.empty()) continue;
          int ow = owner_of(pre, 0, i, cp);
          for (int q : cp) {
            const XYZ &w = op == O_COORDS ? pre.pos[ow][i] : pre.pos[q][i];
            if (memcmp(w.data(), md.pos[q][i].data(), 24)) violate(pr, "coords", "%s: %s is at %g %g %g on process %d (%s), should be at %g %g %g (after: %s)", nm, ent_name(0, i, m).c_str(), md.pos[q][i][0], md.pos[q][i][1], md.pos[q][i][2], q, q == ow ? "owner" : "ghost", w[0], w[1], w[2], done.c_str());
          }
        }
        // labels and IDs
        for (int k = 0; k <= m.dim; k++) {
          std::map<int, int> seen; int N = 0;
          bool re = op == O_RENUM && (rk == MALLTYPE || rk == k);
          for (int i = 0; i < m.n(k); i++) {
            const VI &cp = copies[k][i];
            if (cp.empty()) continue;
            N++;
            int ow = owner_of(pre, k, i, cp), g = md.lab[k][ow][i][0];
            for (int q : cp) {
              auto &x = md.lab[k][q][i], &y = pre.lab[k][q][i];
              if (x[1] != y[1] || x[2] != y[2]) violate(pr, "labels", "%s: %s on process %d was labelled %d, master %d, now %d, master %d", nm, ent_name(k, i, m).c_str(), q, y[1], y[2], x[1], x[2]);
              if (op == O_GIDS && (rk == MALLTYPE || rk == k)) continue;
              if (!re && x[0] != y[0]) violate(pr, "gids", "%s: global ID of %s on process %d changed from %d to %d", nm, ent_name(k, i, m).c_str(), q, y[0], x[0]);
              if (re && x[0] != g) violate(pr, "gids", "%s: %s has global ID %d on process %d and %d on its owner %d (after: %s)", nm, ent_name(k, i, m).c_str(), x[0], q, g, ow, done.c_str());
            }
            if (re && seen.count(g)) violate(pr, "gids", "%s: %s and %s both have global ID %d", nm, ent_name(k, i, m).c_str(), ent_name(k, seen[g], m).c_str(), g);
            seen[g] = i;
          }
          if (re && N && (seen.begin()->first != 1 || seen.rbegin()->first != N)) violate(pr, "gids", "%s: the global IDs of %d %s run from %d to %d", nm, N, kname(k), seen.begin()->first, seen.rbegin()->first);
        }
      });
    }
    if (!posok) { set_where("MESH_UpdateVertexCoords"); MESH_UpdateVertexCoords(mine, group_comm()); }
    std::vector<XYZ> xs = m.xyz;
    for (int i = 0; i < m.n(0); i++) if (copies[0][i].size()) {
      int ow = owner_of(md, 0, i, copies[0][i]);
      for (auto &e : s[ow].e[0]) if (e.ref == i) MV_Coords(e.h, xs[i].data());
    }
    set_where("");
    Snap t = snapshot(mine, m, SN_ATT | SN_UP | SN_LOOKUP, &xs);
    sync([&]() {});
    s[r] = t;
    sync([&]() {
      const char *pr = spec->prop.c_str();
      OracleOpt o;
      o.ring = (int)P("ring", 1); o.p1 = o.p2 = o.p3 = pr; o.dead = dead;
      if (weave) { o.pb = false; o.ovl = o.ring; o.edge_order = !P("wflip"); o.loops = !P("wflip") || m.dim == 2; }
      check_conserve(m, s, o);
      check_owner(m, s, o);
      check_ghost(m, s, o);
      RefMesh mm = m;
      for (int q = 0; q < n; q++) {
        size_t have = s[q].atts.size(), wantn = md.atts.size() + (!weave && P("with_attr") ? m.atts.size() : 0);
        if (have != wantn) { std::string l; for (auto &x : s[q].atts) l += " '" + x.name + "'"; violate(pr, "att_list", "process %d has %zu attributes (%s), should have %zu (after: %s)", q, have, l.c_str(), wantn, done.c_str()); }
      }
      for (auto &x : s) mix_result(snap_hash(x));
      for (auto &x : md.atts) { char b[120]; snprintf(b, sizeof b, "hist att dim%d k%d type%d nc%d start%d ring%ld n%d wmode%ld", m.dim, x.k, x.type, x.nc, (int)weave, P("ring"), n, weave ? P("wmode") : P("pmode") + 10); probe(b); }
      for (size_t i = 1; i < ops.size(); i++) { char b[120]; snprintf(b, sizeof b, "hist ops %ld %ld start%d dim%d", ops[i - 1] % 16, ops[i] % 16, (int)weave, m.dim); probe(b); }
      count("op.history");
    });
  });
}
static Reg reg({"hist", gen_hist, run_hist});
