// The processes that are not in the workload's group: they are idle, or distribute or weave a mesh of their own and use it.
// Around this, all processes exchange messages of the program itself on the communicator of all.
#include "work.h"
#include <cstring>
#include <cmath>
static double val(double x, double y) { return 3 * x - 7 * y + 0.25; }
static Mesh_ptr grid(int x0, int x1, int ny) {
  Mesh_ptr m = MESH_New(F1);
  std::map<std::pair<int, int>, MVertex_ptr> v;
  for (int j = 0; j <= ny; j++) for (int i = x0; i <= x1; i++) { double x[3] = {(double)i, (double)j, 0}; v[{i, j}] = MV_New(m); MV_Set_Coords(v[{i, j}], x); }
  for (int j = 0; j < ny; j++) for (int i = x0; i < x1; i++) {
    MVertex_ptr q[4] = {v[{i, j}], v[{i + 1, j}], v[{i + 1, j + 1}], v[{i, j + 1}]};
    MFace_ptr f = MF_New(m); MF_Set_Vertices(f, 4, q); MF_Set_GEntDim(f, 2); MF_Set_GEntID(f, 1);
  }
  return m;
}
static std::map<std::pair<int, int>, std::vector<int>> owned_by;    // group, job of the group -> cells owned by each process
static int jobs[128];
static void other(int r, int n, int gr) {            // gr: 0 the other group, 1 the workload's group, 2.. groups its processes form for this
  int mode = gr ? 3 : (int)P("grpmode"), job = jobs[rank()]++;
  if (mode == 0 || n < 2) { count("group.idle"); return; }
  if (mode == 3) mode = 1 + job % 2;
  int ny = 3, nx = 3 * n, ok;
  Mesh_ptr m = nullptr;
  if (mode == 1) {
    Mesh_ptr g = r == 0 ? grid(0, nx, ny) : nullptr; int dim = r == 0 ? 2 : 0;
    set_where("the other group's MSTK_Mesh_Distribute");
    ok = MSTK_Mesh_Distribute(g, &m, &dim, 1, 0, (int)P("grpseed") % 2, 1, group_comm());
  } else {
    m = grid(3 * r, 3 * r + 3, ny);
    set_where("the other group's MSTK_Weave_DistributedMeshes");
    ok = MSTK_Weave_DistributedMeshes(m, 2, 1, 0, group_comm());
  }
  if (ok != 1) { violate("C24", "other_group", "process %d of the other group: no mesh (%d)", r, ok); return; }
  set_where("the other group's renumbering");
  MESH_Renumber_GlobalIDs(m, MALLTYPE, 0, nullptr, group_comm());
  MAttrib_ptr a = MAttrib_New(m, "other", DOUBLE, MVERTEX);
  MVertex_ptr v; int idx = 0; double x[3];
  while ((v = MESH_Next_Vertex(m, &idx))) { MV_Coords(v, x); MEnt_Set_AttVal(v, a, 0, MV_PType(v) == PGHOST ? -1.0 : val(x[0], x[1]), nullptr); }
  set_where("the other group's MESH_Update1Attribute");
  MESH_Update1Attribute(m, a, group_comm());
  idx = 0;
  while ((v = MESH_Next_Vertex(m, &idx))) { int i; double d = 0; void *p; MV_Coords(v, x); MEnt_Get_AttVal(v, a, &i, &d, &p); if (d != val(x[0], x[1])) { violate("C24", "other_group", "process %d of the other group: wrong value of a vertex after an update", r); break; } }
  set_where("the other group's MESH_Parallel_Check");
  if (!MESH_Parallel_Check(m, group_comm())) violate("C24", "other_group", "process %d of the other group: its mesh is found inconsistent", r);
  int own = 0, maxid = 0; MFace_ptr f; idx = 0;
  while ((f = MESH_Next_Face(m, &idx))) { own += MF_PType(f) != PGHOST; maxid = std::max(maxid, MF_GlobalID(f)); }
  auto &o = owned_by[{gr, job}]; o.push_back(own);
  if ((int)o.size() == n) { int t = 0; for (int c : o) t += c; if (t != nx * ny) violate("C24", "other_group", "the other group owns %d cells of a mesh of %d", t, nx * ny); }
  if (maxid > nx * ny) violate("C24", "other_group", "process %d of the other group: global ID %d of %d cells", r, maxid, nx * ny);
  set_where("the other group");
  MESH_Delete(m);
  count(!gr ? "group.jobs" : gr == 1 ? "group.jobs_between" : "group.jobs_other_ranks");
}
static struct Mail { int out[3], in[3]; MPI_Request rq[2]; } mail[64];
static void around(bool end) {
  if (!P("grpmsg")) return;
  int w, n; MPI_Comm_rank(MPI_COMM_WORLD, &w); MPI_Comm_size(MPI_COMM_WORLD, &n);
  Mail &q = mail[w];
  int prev = (w + n - 1) % n, next = (w + 1) % n;
  auto fill = [](int s, int *b) { for (int i = 0; i < 3; i++) b[i] = 1000 * s + i; };
  if (!end) {
    set_where("message of the program");
    fill(w, q.out); for (int &x : q.in) x = -1;
    MPI_Irecv(q.in, 3, MPI_INT, MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &q.rq[0]);
    MPI_Isend(q.out, 3, MPI_INT, next, (int)((P("grpseed") + w) % (n + 1)), MPI_COMM_WORLD, &q.rq[1]);
    return;
  }
  set_where("message of the program");
  MPI_Status st[2];
  MPI_Waitall(2, q.rq, st);
  int want[3]; fill(prev, want);
  if (memcmp(want, q.in, sizeof want) || st[0].MPI_SOURCE != prev) violate("C24", "message", "a message of the program itself to process %d is lost or changed", w);
  count("group.messages");
}
static int reg = (group_other = other, group_around = around, 0);
