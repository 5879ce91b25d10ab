// Link-time seams other than MPI, heap and files: MSTK_Report, partitioners.
#include "sim.h"
#include <dlfcn.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <map>
#include <metis.h>
#include <mpi.h>
using namespace sim;
std::map<void *, int> *part_override = nullptr;

extern "C" {
typedef enum { MSTK_MESG_ = 0, MSTK_WARN_, MSTK_ERROR_, MSTK_FATAL_ } ET;
void MSTK_Report(const char *fn, const char *msg, int type);
void simhook_MSTK_Report(const char *fn, const char *msg, int type) {
  // the sentinel type FATAL ends the program; remember why
  static const char *tn[] = {"message", "warning", "error", "fatal"};
  const char *t = type >= 0 && type < 4 ? tn[type] : "?";
  note("MSTK_Report %s %s: %s", t, fn, msg);
  std::string s = std::string(fn ? fn : "") + ": " + (msg ? msg : "");
  outcome().report = s;
  count(type == 3 ? "mstk.fatal" : type == 2 ? "mstk.error" : "mstk.message");
  MSTK_Report(fn, msg, type);
}

int MESH_Get_Partitioning(void *mesh, int method, int **part, MPI_Comm comm);
int MESH_Num_Regions(void *);
int MESH_Num_Faces(void *);
void *MESH_Next_Region(void *, int *);
void *MESH_Next_Face(void *, int *);
// Zoltan's random numbers are started anew for each partition of the workload.
void Zoltan_Srand(unsigned, unsigned *);
// The documented precondition of distribution is that every part gets at least one cell.
int simhook_MESH_Get_Partitioning(void *mesh, int method, int **part, MPI_Comm comm) {
  if (!aside()) Zoltan_Srand(123456789U + (unsigned)P("pseed", 0), nullptr);
  int ok = MESH_Get_Partitioning(mesh, method, part, comm);
  if (aside()) return ok;
  if (lrank() == 0 && *part && part_override) {      // any assignment of cells to parts is a legal answer
    int idx = 0, i = 0; void *h;
    if (MESH_Num_Regions(mesh)) { while ((h = MESH_Next_Region(mesh, &idx))) (*part)[i++] = (*part_override)[h]; }
    else while ((h = MESH_Next_Face(mesh, &idx))) (*part)[i++] = (*part_override)[h];
    count("fault.arbitrary_partition");
  }
  if (lrank() == 0 && *part) {
    int n = MESH_Num_Regions(mesh);
    if (!n) n = MESH_Num_Faces(mesh);
    std::vector<int> c(nranks(), 0);
    for (int i = 0; i < n; i++) if ((*part)[i] >= 0 && (*part)[i] < nranks()) c[(*part)[i]]++; else die("C01", "badpart", "cell %d is assigned to part %d of %d", i, (*part)[i], nranks());
    if (std::count(c.begin(), c.end(), 0)) stop_run("skip: a part is empty");
  }
  return ok;
}

// METIS: the real one, or an arbitrary partition drawn from the parameters. Any assignment
// of cells to parts in which no part is empty is a legal answer of a partitioner.
static bool stub_part(idx_t n, idx_t np, const idx_t *xadj, const idx_t *adj, idx_t *part) {
  int mode = (int)P("pmode", 0);
  if (!mode) return false;
  Rng g((uint64_t)P("pseed", 1));
  if (mode == 1) for (idx_t i = 0; i < n; i++) part[i] = (idx_t)g.range(0, np - 1);
  else if (mode == 2) for (idx_t i = 0; i < n; i++) part[i] = (idx_t)((long)i * np / n);
  else if (mode == 4) for (idx_t i = 0; i < n; i++) part[i] = 0;      // skewed: one big part, others one cell each
  else {                                                            // grow parts on the cell graph
    std::vector<std::vector<idx_t>> fr(np);
    for (idx_t i = 0; i < n; i++) part[i] = -1;
    for (idx_t p = 0; p < np; p++) { idx_t s = (idx_t)g.range(0, n - 1); if (part[s] < 0) { part[s] = p; fr[p].push_back(s); } }
    long left = n;
    for (int it = 0; left > 0 && it < 100000; it++) {
      idx_t p = (idx_t)g.range(0, np - 1);
      if (fr[p].empty()) continue;
      idx_t c = fr[p][(size_t)g.range(0, (long)fr[p].size() - 1)];
      for (idx_t k = xadj[c]; k < xadj[c + 1]; k++) if (adj[k] >= 0 && adj[k] < n && part[adj[k]] < 0) { part[adj[k]] = p; fr[p].push_back(adj[k]); break; }
      if (it % 64 == 0) left = std::count(part, part + n, -1);
    }
    for (idx_t i = 0; i < n; i++) if (part[i] < 0) part[i] = (idx_t)g.range(0, np - 1);
  }
  // no empty part
  for (idx_t p = 0; p < np; p++) {
    std::vector<long> c(np, 0);
    for (idx_t i = 0; i < n; i++) c[part[i]]++;
    if (c[p]) continue;
    for (int t = 0; t < 1000; t++) { idx_t i = (idx_t)g.range(0, n - 1); if (c[part[i]] > 1) { part[i] = p; break; } }
  }
  count("fault.arbitrary_partition");
  return true;
}
typedef int (*metisfn)(idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, real_t *, real_t *, idx_t *, idx_t *, idx_t *);
#define METISFN(name) \
int name(idx_t *nv, idx_t *nc, idx_t *xadj, idx_t *adj, idx_t *vw, idx_t *vs, idx_t *aw, idx_t *np, real_t *tp, real_t *ub, idx_t *opt, idx_t *cut, idx_t *part) { \
  std::string why; \
  if (!heap_range_ok(xadj, sizeof(idx_t) * (size_t)(*nv + 1), &why) || !heap_range_ok(adj, sizeof(idx_t) * (size_t)xadj[*nv], &why) || !heap_range_ok(part, sizeof(idx_t) * (size_t)*nv, &why)) \
    violate("C13", "buffer", #name ": an array passed to the partitioner is %s", why.c_str()); \
  if (stub_part(*nv, *np, xadj, adj, part)) { *cut = 0; return METIS_OK; } \
  static metisfn f = (metisfn)dlsym(RTLD_NEXT, #name); \
  count("metis.real"); \
  int st = f(nv, nc, xadj, adj, vw, vs, aw, np, tp, ub, opt, cut, part); \
  for (idx_t p = 0; p < *np; p++) if (!std::count(part, part + *nv, p)) stop_run("skip: a part is empty"); \
  return st; }
METISFN(METIS_PartGraphRecursive)
METISFN(METIS_PartGraphKway)
}
