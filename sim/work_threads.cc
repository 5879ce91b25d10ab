// Workload "threads": simulated threads of one process share a mesh. Mode 0 (marker-enabled build):
// they take, use and free markers. Mode 1: they only query the mesh.
#include "work.h"
#include <cstdio>
#include <algorithm>
namespace sim { void threads_begin(); void threads_end(); }
extern "C" {
int MSTK_GetMarker(void) __attribute__((weak));
void MSTK_FreeMarker(int) __attribute__((weak));
}
static void gen_threads(Rng &g, Params &p, const std::string &prop, bool thorough) {
  p.set("n", g.chance(10) ? 1 : g.range(2, 6));
  p.set("mode", prop == "C21" ? 0 : 1);
  gen_mesh_params(g, p, thorough ? 40 : 16);
  p.set("rep", g.range(0, 1));
  p.set("steps", g.range(3, thorough ? 60 : 25));
  p.set("tseed", g.range(1, 1000000));
  p.set("preempt_p", g.chance(10) ? 0 : g.range(5, 100));
  p.set("hold", g.range(1, p.get("mode") == 0 && g.chance(25) ? 40 : 6));
  if (p.get("mode") == 0 && g.chance(15)) { p.set("hoard", 1); p.set("hold", g.range(5, 40)); }   // markers a thread holds at most
  p.set("natt", g.range(0, 3)); p.set("nset", g.range(1, 4)); p.set("attseed", g.range(1, 100000)); p.set("with_attr", 1);
  p.set("heapfill", g.range(0, 4)); p.set("heapseed", g.range(1, 1000)); p.set("stkfill", g.range(0, 3));
  p.set("shuffle", g.chance(70) ? g.range(1, 1000) : 0);
  if (g.chance(40)) p.set("start_p", g.range(20, 100));
}
struct Shared {
  Built b;
  std::vector<std::vector<std::pair<int, int>>> up;     // unused
  std::map<void *, std::pair<int, int>> ref;            // handle -> kind, index
  VI upto[4][4];
  std::vector<VI> adj[4][4];                            // adj[k][kk][i]
  std::map<int, int> held;                              // marker -> thread
  int asking = 0, other = 0;                            // other: markers possibly taken inside the library or being freed
};
static std::string setstr(const std::set<int> &s) { std::string r; for (int x : s) r += " " + std::to_string(x); return r; }
static void run_threads() {
  RefMesh m = ref_from_params();
  int n = (int)P("n", 2), mode = (int)P("mode");
  if (mode == 0 && !MSTK_GetMarker) stop_run("skip: built without markers");
  const char *pr = mode == 0 ? "C21" : "C23";
  Shared S;
  for (int k = 0; k <= m.dim; k++) for (int kk = 0; kk <= m.dim; kk++) S.adj[k][kk].assign(m.n(k), {});
  for (int k = 1; k <= m.dim; k++) for (int kk = 0; kk < k; kk++) for (int i = 0; i < m.n(k); i++) for (int j : m.down(k, i, kk)) { S.adj[k][kk][i].push_back(j); S.adj[kk][k][j].push_back(i); }
  int left = n;
  long allbits = 0;
  exit_filter = nullptr;
  threads_begin();
  run_ranks(n, [&](int r) {
    set_where("setup");
    if (r == 0) {
      threads_end();
      S.b = build(m, nullptr, P("rep") ? F4 : F1, (uint64_t)P("shuffle"), true);
      for (int k = 0; k <= m.dim; k++) for (int i = 0; i < m.n(k); i++) S.ref[S.b.h[k][i]] = {k, i};
      if (mode == 0) exit_filter = [&](int) {
        // giving up is right only when no marker was free
        if ((int)S.held.size() + S.other + S.asking < 33) violate("C21", "exhausted", "out of markers with %zu held and %d being asked for", S.held.size(), S.asking);
        count("marker.exhausted");
        return true;
      };
    }
    sync([&]() { threads_begin(); });
    Rng g((uint64_t)P("tseed") * 101 + r);
    Mesh_ptr own = nullptr; MSet_ptr os[2] = {nullptr, nullptr};
    std::vector<void *> ov;
    if (mode == 0 && P("tseed") % 2) {        // a mesh of its own for set operations
      own = MESH_New(F1);
      for (int i = 0; i < 8; i++) ov.push_back(MV_New(own));
      for (int t = 0; t < 2; t++) { char nm[20]; snprintf(nm, sizeof nm, "t%d_%d", r, t); os[t] = MSet_New(own, nm, MVERTEX); for (int i = 0; i < 8; i++) if (g.chance(50)) MSet_Add(os[t], ov[i]); }
    }
    std::map<int, std::set<void *>> mine;     // marker -> what this thread marked with it
    auto free_one = [&](int mk) {
      set_where("MEnt_Unmark");
      for (void *h : mine[mk]) { MEnt_Unmark(h, mk); if (MEnt_IsMarked(h, mk)) violate(pr, "mark", "thread %d: unmarked with marker %d, still marked", r, mk); }
      mine.erase(mk);
      S.held.erase(mk);
      set_where("MSTK_FreeMarker");
      S.other++;
      MSTK_FreeMarker(mk);
      S.other--;
      count("op.free_marker");
    };
    auto anyent = [&]() -> std::pair<int, int> { int k = (int)g.range(0, m.dim); return {k, (int)g.range(0, m.n(k) - 1)}; };
    for (int st = 0; st < P("steps"); st++) {
      if (mode == 0) {
        int op = (int)g.range(0, 9);
        if ((op < 3 || (op < 9 && P("hoard")) || mine.empty()) && (int)mine.size() < P("hold")) {
          set_where("MSTK_GetMarker");
          S.asking++;
          int mk = MSTK_GetMarker();
          S.asking--;
          count("op.get_marker");
          if (mk < 1 || mk > 32) { violate(pr, "marker", "thread %d got the marker %d", r, mk); stop_run("bad marker"); }
          if (S.held.count(mk)) { violate(pr, "marker", "thread %d got marker %d, which thread %d holds", r, mk, S.held[mk]); stop_run("bad marker"); }
          S.held[mk] = r; mine[mk];
          char b[80]; snprintf(b, sizeof b, "threads%d held%zu", n, S.held.size()); probe(b);
          for (int q = 0; q < 3; q++) { auto e = anyent(); if (MEnt_IsMarked(S.b.h[e.first][e.second], mk)) violate(pr, "mark", "thread %d: an entity is marked with the fresh marker %d", r, mk); }
        } else if (op < 6 && mine.size()) {
          auto it = mine.begin(); std::advance(it, g.range(0, (long)mine.size() - 1));
          auto e = anyent(); void *h = S.b.h[e.first][e.second];
          set_where("MEnt_Mark");
          count("op.mark");
          if (g.chance(70)) { MEnt_Mark(h, it->first); it->second.insert(h); }
          else { MEnt_Unmark(h, it->first); it->second.erase(h); }
          if ((MEnt_IsMarked(h, it->first) != 0) != (it->second.count(h) != 0)) violate(pr, "mark", "thread %d: an entity is %smarked with its marker %d", r, it->second.count(h) ? "not " : "", it->first);
        } else if (op < 7 && own && (int)S.held.size() + 2 * n < 28) {
          set_where("MSets_Union");
          int w = (int)g.range(0, 2);
          S.other += 2;
          MSet_ptr u = w == 0 ? MSets_Union(os[0], os[1]) : w == 1 ? MSets_Intersect(os[0], os[1]) : MSets_Subtract(os[0], os[1]);
          S.other -= 2;
          count("op.set_algebra");
          for (int i = 0; i < 8; i++) {
            bool a = MSet_Contains(os[0], ov[i]), b = MSet_Contains(os[1], ov[i]), want = w == 0 ? a || b : w == 1 ? a && b : a && !b;
            if ((u && MSet_Contains(u, ov[i])) != want) { violate(pr, "sets", "thread %d: a set operation is wrong while other threads use markers", r); break; }
          }
          if (u) MSet_Delete(u);
        } else if (mine.size()) {
          auto it = mine.begin(); std::advance(it, g.range(0, (long)mine.size() - 1));
          if (g.chance(40)) free_one(it->first);
          else for (void *h : it->second) if (!MEnt_IsMarked(h, it->first)) { violate(pr, "mark", "thread %d: an entity lost its mark %d", r, it->first); break; }
        }
      } else {
        auto e = anyent(); int k = e.first, i = e.second; void *h = S.b.h[k][i];
        auto check = [&](const char *q, List_ptr l, const VI &want, int kk) {
          count("op.query");
          std::set<int> w(want.begin(), want.end()), have; int nn = 0;
          if (l) { nn = List_Num_Entries(l); for (int q = 0; q < nn; q++) { auto it = S.ref.find(List_Entry(l, q)); have.insert(it == S.ref.end() || it->second.first != kk ? -1 : it->second.second); } List_Delete(l); }
          if (w != have || ((int)have.size() != nn && k != kk))   // regions sharing several faces are repeated
            violate(pr, "query", "thread %d: %s of %s gives%s, should be%s", r, q, ent_name(k, i, m).c_str(), setstr(have).c_str(), setstr(w).c_str());
        };
        int op = (int)g.range(0, 11);
        char b[60]; snprintf(b, sizeof b, "query dim%d kind%d op%d threads%d", m.dim, k, op, n); probe(b);
        if (op < 5) {
          int kk = (int)g.range(0, m.dim);
          if (kk == k) {
            std::set<int> w; int via = k == 0 ? 1 : k - 1;
            for (int f : S.adj[k][via][i]) for (int j : S.adj[via][k][f]) if (j != i) w.insert(j);
            VI wv(w.begin(), w.end());
            set_where("same-kind adjacency");
            if (k == 0) check("MV_AdjVertices", MV_AdjVertices(h), wv, 0);
            else if (k == 3) check("MR_AdjRegions", MR_AdjRegions(h), wv, 3);
            continue;
          }
          const VI &w = S.adj[k][kk][i];
          set_where("adjacency");
          if (k == 0) check("MV", kk == 1 ? MV_Edges(h) : kk == 2 ? MV_Faces(h) : MV_Regions(h), w, kk);
          else if (k == 1) { if (kk == 0) { if (ME_Vertex(h, 0) != S.b.h[0][m.edges[i][0]] || ME_Vertex(h, 1) != S.b.h[0][m.edges[i][1]]) violate(pr, "query", "thread %d: wrong vertices of an edge", r); } else check("ME", kk == 2 ? ME_Faces(h) : ME_Regions(h), w, kk); }
          else if (k == 2) check("MF", kk == 0 ? MF_Vertices(h, 1, 0) : kk == 1 ? MF_Edges(h, 1, 0) : MF_Regions(h), w, kk);
          else check("MR", kk == 0 ? MR_Vertices(h) : kk == 1 ? MR_Edges(h) : MR_Faces(h), w, kk);
        } else if (op == 5) {
          set_where("coordinates");
          double x[256][3]; int nn = 0;
          count("op.query");
          if (k == 0) { MV_Coords(h, x[0]); nn = 1; } else if (k == 2) MF_Coords(h, &nn, x); else if (k == 3) MR_Coords(h, &nn, x); else continue;
          std::set<int> have, w;
          for (int q = 0; q < nn; q++) { int v = -1; for (int u : m.verts(k, i)) if (m.xyz[u][0] == x[q][0] && m.xyz[u][1] == x[q][1] && m.xyz[u][2] == x[q][2]) v = u; have.insert(v); }
          VI ww = m.verts(k, i); w.insert(ww.begin(), ww.end());
          if (have != w || nn != (int)w.size()) violate(pr, "query", "thread %d: wrong coordinates of %s", r, ent_name(k, i, m).c_str());
        } else if (op == 6) {
          set_where("iteration");
          count("op.query");
          int idx = 0, c = 0; void *x; std::set<void *> seen;
          while ((x = k == 0 ? MESH_Next_Vertex(S.b.mesh, &idx) : k == 1 ? MESH_Next_Edge(S.b.mesh, &idx) : k == 2 ? MESH_Next_Face(S.b.mesh, &idx) : MESH_Next_Region(S.b.mesh, &idx))) { c++; seen.insert(x); }
          if (c != m.n(k) || (int)seen.size() != c) violate(pr, "query", "thread %d: a loop over the %s entities visits %d, %zu different, of %d", r, kname(k), c, seen.size(), m.n(k));
        } else if (op == 7) {
          set_where("attributes");
          for (size_t a = 0; a < m.atts.size(); a++) if (m.atts[a].entdim == k) {
            count("op.query");
            MAttrib_ptr at = MESH_AttribByName(S.b.mesh, m.atts[a].name.c_str());
            std::vector<double> v; bool set = m.att((int)a, i, v);
            int iv = 0; double dv = 0; void *pv = nullptr;
            int ok = at ? MEnt_Get_AttVal(h, at, &iv, &dv, &pv) : 0;
            bool good = at && (ok != 0) == set;
            if (good && set) { if (m.atts[a].type == INT) good = iv == (int)v[0]; else if (m.atts[a].type == DOUBLE) good = dv == v[0]; else { good = pv != nullptr; for (size_t q = 0; good && q < v.size(); q++) good = ((double *)pv)[q] == v[q]; } }
            if (!good) violate(pr, "query", "thread %d: wrong value of attribute %s of %s", r, m.atts[a].name.c_str(), ent_name(k, i, m).c_str());
          }
        } else if (op == 8) {
          set_where("sets");
          for (size_t t = 0; t < m.sets.size(); t++) {
            count("op.query");
            MSet_ptr ms = MESH_MSetByName(S.b.mesh, m.sets[t].name.c_str());
            if (!ms || (MSet_Contains(ms, h) != 0) != m.inset((int)t, k, i)) violate(pr, "query", "thread %d: wrong membership of %s in set %s", r, ent_name(k, i, m).c_str(), m.sets[t].name.c_str());
          }
        } else if (op == 9) {
          set_where("common entities");
          count("op.query");
          if (k == 1) { if (MVs_CommonEdge(S.b.h[0][m.edges[i][0]], S.b.h[0][m.edges[i][1]]) != h) violate(pr, "query", "thread %d: MVs_CommonEdge is wrong", r); }
          else if (k == 2) {
            std::vector<void *> vs; for (int v : m.faces[i]) vs.push_back(S.b.h[0][v]);
            if (MVs_CommonFace((int)vs.size(), vs.data()) != h) violate(pr, "query", "thread %d: MVs_CommonFace is wrong", r);
            std::vector<void *> es; for (int x : m.fedges[i]) es.push_back(S.b.h[1][x]);
            if (MEs_CommonFace((int)es.size(), es.data()) != h) violate(pr, "query", "thread %d: MEs_CommonFace is wrong", r);
          }
        } else if (op == 10) {
          set_where("directions");
          count("op.query");
          if (k == 3) { for (size_t q = 0; q < m.rfaces[i].size(); q++) if (MR_FaceDir(h, S.b.h[2][m.rfaces[i][q]]) != m.rdirs[i][q]) { violate(pr, "query", "thread %d: a face direction is wrong", r); break; } }
          else if (k == 2) { for (size_t q = 0; q < m.fedges[i].size(); q++) if (MF_EdgeDir(h, S.b.h[1][m.fedges[i][q]]) != (m.edges[m.fedges[i][q]][0] == m.faces[i][q] ? 1 : 0)) { violate(pr, "query", "thread %d: an edge direction is wrong", r); break; } }
        } else {
          set_where("counts");
          count("op.query");
          bool good = MEnt_Dim(h) == k && MEnt_GEntDim(h) == m.gdim[k][i] && MEnt_GEntID(h) == m.gid[k][i];
          if (k == 2) good = good && MF_Num_Vertices(h) == (int)m.faces[i].size() && MF_Num_Edges(h) == (int)m.faces[i].size();
          if (k == 3) good = good && MR_Num_Faces(h) == (int)m.rfaces[i].size() && MR_Num_Vertices(h) == (int)m.verts(3, i).size();
          if (k == 0) good = good && MV_Num_Edges(h) == (int)S.adj[0][1][i].size() && MV_Num_Faces(h) == (int)S.adj[0][2][i].size();
          if (k == 1) good = good && ME_Num_Faces(h) == (int)S.adj[1][2][i].size();
          if (!good) violate(pr, "query", "thread %d: wrong kind, classification or number of neighbours of %s", r, ent_name(k, i, m).c_str());
        }
      }
      if (!outcome().viols.empty()) stop_run("violated");
    }
    if (mode == 0) {
      while (mine.size()) free_one(mine.begin()->first);
      if (--left == 0) {                       // all free again: 32 different ones can be had
        for (int k = 0; k <= m.dim; k++) for (int i = 0; i < m.n(k); i++) for (int b = 1; b <= 32; b++) if (MEnt_IsMarked(S.b.h[k][i], b)) { violate(pr, "mark", "at the end an entity is still marked with marker %d", b); k = 9; break; }
        set_where("MSTK_GetMarker");
        for (int q = 0; q < 32; q++) { S.asking = 1; int mk = MSTK_GetMarker(); if (mk < 1 || mk > 32 || (allbits >> mk) & 1) { violate(pr, "marker", "of 32 markers asked for one is %d, which is no marker or was given before", mk); break; } allbits |= 1L << mk; S.held[mk] = r; S.asking = 0; }
      }
    }
  });
  threads_end();
  mix_result((uint64_t)allbits);
}
static Reg reg({"threads", gen_threads, run_threads});
