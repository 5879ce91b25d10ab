#include "work.h"
#include <algorithm>

Dist derive(const RefMesh &m, const std::vector<Snap> &s) {
  Dist d;
  for (int k = 0; k < 4; k++) { d.owner[k].resize(m.n(k)); d.copies[k].resize(m.n(k)); }
  for (size_t r = 0; r < s.size(); r++) for (int k = 0; k < 4; k++) for (auto &e : s[r].e[k]) if (e.ref >= 0) {
    d.copies[k][e.ref].push_back((int)r);
    if (e.pt != PGHOST) d.owner[k][e.ref].push_back((int)r);
  }
  return d;
}
static std::string L(const VI &v) { std::string s; for (int x : v) s += (s.empty() ? "" : ",") + std::to_string(x); return s.empty() ? "none" : s; }

void check_conserve(const RefMesh &m, const std::vector<Snap> &s, const OracleOpt &o) {
  Dist d = derive(m, s);
  for (size_t r = 0; r < s.size(); r++) for (auto &e : s[r].errs) violate(o.p1, "garbled", "process %zu: %s", r, e.c_str());
  for (int c = 0; c < m.ncells(); c++)
    if (d.owner[m.dim][c].size() != (o.dead.count(c) ? 0u : 1u))
      violate(o.p1, "cell_ownership", "%s is owned by processes %s", ent_name(m.dim, c, m).c_str(), L(d.owner[m.dim][c]).c_str());
  for (size_t r = 0; r < s.size(); r++) {
    for (int k = 0; k < 4; k++) for (auto &e : s[r].e[k]) {
      if (e.ref < 0) continue;
      std::string n = ent_name(k, e.ref, m);
      if (k == 1 && o.edge_order) {
        if (e.conn[0] != m.edges[e.ref][0] || e.conn[1] != m.edges[e.ref][1]) violate(o.p1, "edge_direction", "process %zu: %s runs from %d to %d", r, n.c_str(), e.conn[0], e.conn[1]);
      }
      if (k == 2) {
        VI rev = m.faces[e.ref]; std::reverse(rev.begin(), rev.end());
        bool same = same_cycle(e.conn, m.faces[e.ref]);
        if (!same && (o.loops || !same_cycle(e.conn, rev))) violate(o.p1, "face_loop", "process %zu: %s has the loop %s, in the input %s", r, n.c_str(), L(e.conn).c_str(), L(m.faces[e.ref]).c_str());
      }
      if (k == 3) {
        std::set<std::pair<int, int>> a, b;
        for (size_t q = 0; q < e.conn.size(); q++) a.insert({e.conn[q], e.dirs[q]});  // relative to the input's face loops
        for (size_t q = 0; q < m.rfaces[e.ref].size(); q++) b.insert({m.rfaces[e.ref][q], m.rdirs[e.ref][q]});
        if (a != b || e.conn.size() != m.rfaces[e.ref].size()) violate(o.p1, "region_faces", "process %zu: %s has other faces or face directions than in the input", r, n.c_str());
      }
      if (o.classn && k >= o.mink && (e.gdim != m.gdim[k][e.ref] || e.gent != m.gid[k][e.ref]))
        violate(o.p1, "classification", "process %zu: %s is classified on model entity %d of dimension %d, in the input %d of dimension %d", r, n.c_str(), e.gent, e.gdim, m.gid[k][e.ref], m.gdim[k][e.ref]);
    }
    if (!s[r].up_err.empty()) violate(o.p1, "upward", "process %zu: %s", r, s[r].up_err.c_str());
  }
}

void check_owner(const RefMesh &m, const std::vector<Snap> &s, const OracleOpt &o) {
  Dist d = derive(m, s);
  for (int k = 0; k <= m.dim; k++) {
    std::map<int, int> gid2ref;
    for (int i = 0; i < m.n(k); i++) {
      auto &cp = d.copies[k][i];
      if (cp.empty()) continue;
      std::string n = ent_name(k, i, m);
      if (d.owner[k][i].size() != 1) { violate(o.p2, "owners", "%s has copies on processes %s and is owned by %s", n.c_str(), L(cp).c_str(), L(d.owner[k][i]).c_str()); continue; }
      int ow = d.owner[k][i][0];
      int g = s[ow].byref(k, i)->gid;
      if (o.gids) {
        if (g <= 0) violate(o.p2, "gid", "%s has the global ID %d", n.c_str(), g);
        if (gid2ref.count(g)) violate(o.p2, "gid", "%s and %s have the same global ID %d", n.c_str(), ent_name(k, gid2ref[g], m).c_str(), g);
        gid2ref[g] = i;
      }
      for (int r : cp) {
        const Ent &e = *s[r].byref(k, i);
        if (e.gid != g && o.gids) violate(o.p2, "gid", "%s has global ID %d on process %d and %d on its owner %d", n.c_str(), e.gid, r, g, ow);
        if (e.master != ow) violate(o.p2, "master", "%s: process %d records process %d as master, the owner is %d", n.c_str(), r, e.master, ow);
      }
      int want = cp.size() > 1 ? POVERLAP : PINTERIOR, got = s[ow].byref(k, i)->pt;
      if (o.ovl && got != want) violate(o.p2, "overlap", "%s: owner %d labels it %d, %s (copies on %s)", n.c_str(), ow, got, want == POVERLAP ? "but other processes hold copies" : "but no other process holds a copy", L(cp).c_str());
    }
    for (size_t r = 0; r < s.size(); r++) {
      VI g = s[r].ghosts[k], ov = s[r].overlaps[k], wg, wo;
      for (size_t q = 0; q < s[r].e[k].size(); q++) { if (s[r].e[k][q].pt == PGHOST) wg.push_back((int)q); if (s[r].e[k][q].pt == POVERLAP) wo.push_back((int)q); }
      std::sort(g.begin(), g.end()); std::sort(ov.begin(), ov.end());
      if (g != wg) violate(o.p2, "ghostlist", "process %zu: the ghost %s list has %zu entries, %zu are labelled ghosts, or other ones", r, kname(k), g.size(), wg.size());
      if (ov != wo) violate(o.p2, "overlaplist", "process %zu: the overlap %s list has %zu entries, %zu are labelled overlap, or other ones", r, kname(k), ov.size(), wo.size());
    }
  }
  for (size_t r = 0; r < s.size(); r++) {
    if (!s[r].lookup_err.empty()) violate(o.p2, "lookup", "process %zu: %s", r, s[r].lookup_err.c_str());
  }
}

void check_ghost(const RefMesh &m, const std::vector<Snap> &s, const OracleOpt &o) {
  Dist d = derive(m, s);
  std::vector<VI> vcells(m.n(0));
  for (int c = 0; c < m.ncells(); c++) if (!o.dead.count(c)) for (int v : m.cellverts[c]) vcells[v].push_back(c);
  for (size_t r = 0; r < s.size(); r++) {
    std::set<int> want[4];
    for (int c = 0; c < m.ncells(); c++) if (std::count(d.owner[m.dim][c].begin(), d.owner[m.dim][c].end(), (int)r)) {
      want[m.dim].insert(c);
    }
    for (int l = 0; l < o.ring; l++) {
      std::set<int> next = want[m.dim];
      for (int c : want[m.dim]) for (int v : m.cellverts[c]) next.insert(vcells[v].begin(), vcells[v].end());
      want[m.dim].swap(next);
    }
    for (int k = 0; k < m.dim; k++) for (int c : want[m.dim]) for (int i : m.down(m.dim, c, k)) want[k].insert(i);
    for (int k = 0; k <= m.dim; k++) {
      std::set<int> have;
      for (auto &e : s[r].e[k]) if (e.ref >= 0) have.insert(e.ref);
      for (int i : want[k]) if (!have.count(i)) { violate(o.p3, "missing", "process %zu lacks %s", r, ent_name(k, i, m).c_str()); break; }
      if (o.dead.empty()) for (int i : have) if (!want[k].count(i)) { violate(o.p3, "extra", "process %zu holds %s, which bounds none of the cells it should hold", r, ent_name(k, i, m).c_str()); break; }
    }
    if (o.pb && o.dead.empty()) {
      for (int k = 0; k < m.dim; k++) for (auto &e : s[r].e[k]) {
        if (e.ref < 0) continue;
        // processes owning a cell this entity bounds
        std::set<int> ows; std::set<int> mine;
        VI vs = m.verts(k, e.ref);
        for (int c : vcells[vs[0]]) {
          VI dn = m.down(m.dim, c, k);
          if (std::find(dn.begin(), dn.end(), e.ref) != dn.end()) for (int w : d.owner[m.dim][c]) ows.insert(w);
        }
        bool wantpb = ows.size() > 1 && ows.count((int)r);
        bool judge = ows.count((int)r);
        if (judge && (e.onpb != 0) != wantpb) violate(o.p3, "onparboundary", "process %zu: %s is %sflagged as on the partition boundary; it bounds cells owned by %zu processes", r, ent_name(k, e.ref, m).c_str(), e.onpb ? "" : "not ", ows.size());
      }
    }
  }
}

static bool any_value(const RefMesh &m, int a) {
  std::vector<double> v;
  for (int i = 0; i < m.n(m.atts[(size_t)a].entdim); i++) if (m.att(a, i, v)) for (double x : v) if (x != 0) return true;
  return false;
}
void check_atts(const RefMesh &m, const std::vector<Snap> &s, const char *prop) {
  for (size_t r = 0; r < s.size(); r++) {
    auto &sn = s[r];
    size_t lacks = 0;
    for (size_t a = 0; a < m.atts.size(); a++) {
      int f = -1;
      for (size_t q = 0; q < sn.atts.size(); q++) if (sn.atts[q].name == m.atts[a].name) { if (f >= 0) violate(prop, "att_list", "process %zu has the attribute %s twice", r, m.atts[a].name.c_str()); f = (int)q; }
      if (f < 0 && P("fromfile") && !any_value(m, (int)a)) { lacks++; continue; }   // attributes set nowhere need not be in a file
      if (f < 0) { violate(prop, "att_list", "process %zu lacks the attribute %s", r, m.atts[a].name.c_str()); continue; }
      if (sn.atts[f].type != m.atts[a].type || sn.atts[f].entdim != m.atts[a].entdim || sn.atts[f].ncomp != m.atts[a].ncomp) { violate(prop, "att_list", "process %zu: attribute %s has type %d, entity dimension %d, %d components", r, m.atts[a].name.c_str(), sn.atts[f].type, sn.atts[f].entdim, sn.atts[f].ncomp); continue; }
      for (auto &e : sn.e[m.atts[a].entdim]) {
        if (e.ref < 0) continue;
        std::vector<double> v;
        if (!m.att((int)a, e.ref, v)) v.assign(m.atts[a].ncomp, 0.0);
        if (e.atts[f] != v) violate(prop, "att_value", "process %zu: attribute %s (type %d) of %s is %g, in the input %g (component 0 of %d)", r, m.atts[a].name.c_str(), m.atts[a].type, ent_name(m.atts[a].entdim, e.ref, m).c_str(), e.atts[f].empty() ? -0.5 : e.atts[f][0], v[0], m.atts[a].ncomp);
      }
    }
    if (sn.atts.size() + lacks != m.atts.size()) { std::string l; for (auto &x : sn.atts) l += " '" + x.name + "'"; violate(prop, "att_list", "process %zu has %zu attributes (%s), the input %zu", r, sn.atts.size(), l.c_str(), m.atts.size()); }
    for (size_t t = 0; t < m.sets.size(); t++) {
      int f = -1;
      for (size_t q = 0; q < sn.sets.size(); q++) if (sn.sets[q].name == m.sets[t].name) f = (int)q;
      if (f < 0) { violate(prop, "set_list", "process %zu lacks the set %s", r, m.sets[t].name.c_str()); continue; }
      if (sn.sets[f].entdim != m.sets[t].entdim) { violate(prop, "set_list", "process %zu: set %s is of dimension %d", r, m.sets[t].name.c_str(), sn.sets[f].entdim); continue; }
      std::set<int> want, have(sn.setmem[f].begin(), sn.setmem[f].end());
      for (int k = 0; k <= m.dim; k++) for (auto &e : sn.e[k]) if (e.ref >= 0 && m.inset((int)t, k, e.ref)) want.insert(4 * e.ref + k);
      if (want != have) violate(prop, "set_members", "process %zu: set %s has %zu members here, of the entities here %zu were in it, or others", r, m.sets[t].name.c_str(), have.size(), want.size());
      if (sn.setdup[f]) violate(prop, "set_members", "process %zu: set %s holds %d members more than once", r, m.sets[t].name.c_str(), sn.setdup[f]);
    }
    if (sn.sets.size() != m.sets.size()) violate(prop, "set_list", "process %zu has %zu sets, the input %zu", r, sn.sets.size(), m.sets.size());
  }
}
