#pragma once
#include "refmesh.h"
using namespace sim;
#include <mpi.h>
MPI_Comm group_comm();                             // the communicator of the group the process belongs to
struct Workload {
  const char *name;
  void (*gen)(Rng &g, Params &p, const std::string &prop, bool thorough); // draw parameters
  void (*run)();
};
extern std::vector<Workload> &workloads();
struct Reg { Reg(Workload w) { workloads().push_back(w); } };
// properties -> workloads with weights
struct Use { const char *prop; const char *workload; int weight; };
extern const std::vector<Use> uses;

void gen_net(Rng &g, Params &p, int level = -1);
void gen_partition(Rng &g, Params &p, bool columns = false);
Mesh_ptr do_distribute(const RefMesh &m, int rank, Built *gb = nullptr, Mesh_ptr *global = nullptr);
RefMesh ref_from_params();
// parts of a mesh for weaving: owner of each cell
VI own_parts(const RefMesh &m, int n, int mode, uint64_t seed);
void gen_weave(Rng &g, Params &p, const std::string &prop, bool thorough);
Mesh_ptr do_weave(const RefMesh &m, int rank, const VI &part);
// oracles over the snapshots of all ranks
struct Dist {                         // facts derived from the snapshots
  std::vector<VI> owner[4];           // per ref: ranks with an owning copy
  std::vector<VI> copies[4];          // per ref: ranks with any copy
};
Dist derive(const RefMesh &m, const std::vector<Snap> &s);
struct OracleOpt { bool edge_order = true; int ring = 1; bool pb = true; bool loops = true; const char *p1 = "C01", *p2 = "C02", *p3 = "C03"; bool classn = true; int mink = 0; bool gids = true; bool ovl = true; std::set<int> dead; };
void check_conserve(const RefMesh &m, const std::vector<Snap> &s, const OracleOpt &o);
void check_owner(const RefMesh &m, const std::vector<Snap> &s, const OracleOpt &o);
void check_ghost(const RefMesh &m, const std::vector<Snap> &s, const OracleOpt &o);
void check_atts(const RefMesh &m, const std::vector<Snap> &s, const char *prop);
void check_file_atts(const RefMesh &m, const Snap &s, const char *prop, int mode);
// Exodus II
RefMesh exo_ref();
void gen_exo_common(Rng &g, Params &p);
void check_exo(const RefMesh &m, const std::vector<Snap> &s, const char *prop, bool par, bool onesided = false);
