// Reference meshes (plain data), building them through the MSTK API, reading them back.
#pragma once
#include "sim.h"
#include <array>
#include <unordered_map>
#include <set>
#include "MSTK.h"
// private setters used to prepare inputs (weaving by global ID) and to plant disagreements
extern "C" {
void MESH_Set_Prtn(Mesh_ptr mesh, unsigned int partition, unsigned int numpartitions);
void MESH_Flag_Has_Ghosts_From_Prtn(Mesh_ptr mesh, unsigned int prtn, MType mtype);
int MESH_Get_OverlapAdj_From_GhostAdj(Mesh_ptr mesh, MSTK_Comm comm);
void MV_Set_PType(MVertex_ptr v, PType ptype);
void MV_Set_MasterParID(MVertex_ptr v, int masterparid);
void MV_Set_GlobalID(MVertex_ptr v, int globalid);
void ME_Set_PType(MEdge_ptr, PType); void MF_Set_PType(MFace_ptr, PType); void MR_Set_PType(MRegion_ptr, PType);
void ME_Set_MasterParID(MEdge_ptr, int); void MF_Set_MasterParID(MFace_ptr, int); void MR_Set_MasterParID(MRegion_ptr, int);
void ME_Set_GlobalID(MEdge_ptr, int); void MF_Set_GlobalID(MFace_ptr, int); void MR_Set_GlobalID(MRegion_ptr, int);
int MESH_XchngEdgeFaceAttrib(Mesh_ptr mesh, MAttrib_ptr attrib, MPI_Comm comm);
}

typedef std::vector<int> VI;
typedef std::array<double, 3> XYZ;

struct AttDef { std::string name; int type; int entdim; int ncomp; };
struct SetDef { std::string name; int entdim; bool hashed = true; std::set<int> more = {}; };   // members: by inset()'s hash, and others besides

struct RefMesh {
  int dim = 2;
  std::vector<XYZ> xyz;
  std::vector<std::array<int, 2>> edges;
  std::vector<VI> faces;                 // vertex loops
  std::vector<VI> fedges;                // edges of the loop
  std::vector<VI> rfaces, rdirs;         // regions
  VI gdim[4], gid[4];
  std::vector<AttDef> atts;
  std::vector<SetDef> sets;
  std::vector<VI> cellverts;             // vertices of each cell
  std::map<std::vector<int>, int> key[4]; // sorted vertices -> index
  std::map<std::array<uint64_t, 3>, int> vkey;
  uint64_t attseed = 0;
  std::set<std::pair<int, int>> hide;    // attribute, entity: no value
  std::map<std::pair<int, int>, double> given;   // attribute, entity: this value
  int gaps = 0;                          // chance (%) of an entity that is made and deleted again after another one
  int attscale = 0, attcut = 0;                      // magnitudes of real values spread over 10^(+-attscale)
  int n(int k) const { return k == 0 ? (int)xyz.size() : k == 1 ? (int)edges.size() : k == 2 ? (int)faces.size() : (int)rfaces.size(); }
  int ncells() const { return dim == 2 ? n(2) : n(3); }
  VI verts(int k, int i) const;          // sorted vertex list of an entity
  VI down(int k, int i, int kk) const;   // kk-dim entities bounding entity i of kind k (kk<k), incl. itself if kk==k
  void reindex();
  // attribute value of an entity; returns false if unset
  bool att(int a, int i, std::vector<double> &v, int k = 0) const;   // k: kind, for attributes of all kinds
  bool inset(int s, int k, int i) const;
};

// parameters (prefix) -> mesh
void gen_mesh_extra(sim::Rng &g, sim::Params &p, int maxcells);
RefMesh make_ref(const sim::Params &p, const std::string &pre = "");
void gen_mesh_params(sim::Rng &g, sim::Params &p, int maxcells, const std::string &pre = "", int dimwanted = 0);
void add_atts_sets(RefMesh &m, const sim::Params &p, const std::string &pre = "");

struct Built { Mesh_ptr mesh; std::vector<void *> h[4]; };
// build the closure of the given cells (all if null) as an MSTK mesh; order shuffled by seed
Built build(const RefMesh &m, const VI *cells, RepType rep, uint64_t shuffle, bool with_atts, bool flip = false);
void put_atts_sets(const RefMesh &m, Built &b);

struct Ent {
  int ref = -1, lid = 0, gid = 0, pt = 0, master = 0, onpb = 0, gdim = 0, gent = 0;
  VI conn, dirs;                         // refs of the entities one dimension down (vertex loop for faces)
  std::vector<std::vector<double>> atts; // per attribute of this dimension
  VI attset;
  VI sets;                               // indices in snapshot's set list
  XYZ x{{0, 0, 0}};
  void *h = nullptr;
};
struct Snap {
  bool ok = false;
  int prtn = -1;
  std::vector<Ent> e[4];
  std::vector<std::string> errs;         // what could not be identified
  VI ghosts[4], overlaps[4];             // indices into e[k], in list order; -1 unknown
  std::vector<AttDef> atts;
  std::vector<SetDef> sets;
  std::vector<VI> setmem;                // per set: refs of members in order
  VI setdup;
  std::string lookup_err;
  std::string up_err;                    // upward adjacency inconsistent
  const Ent *byref(int k, int ref) const {
    auto it = idx[k].find(ref);
    return it == idx[k].end() ? nullptr : &e[k][it->second];
  }
  std::unordered_map<int, int> idx[4];
};
enum SnapFlags { SN_ATT = 1, SN_UP = 2, SN_LOOKUP = 4, SN_FACES_ONLY = 8 };
Snap snapshot(Mesh_ptr mesh, const RefMesh &m, int flags, const std::vector<XYZ> *coords = nullptr);
uint64_t snap_hash(const Snap &s);
std::string ent_name(int k, int ref, const RefMesh &m);
const char *kname(int k);
// same loop, same orientation
bool same_cycle(const VI &a, const VI &b);
