// Reference mesh model, generators of valid meshes, builders into MSTK and
// the extraction / comparison oracles used by the properties.
#pragma once
#include "pbt.h"
#include <unordered_map>
#include <unordered_set>
#include "MSTK.h"

typedef std::array<double, 3> V3;
using pbt::Case; using pbt::Src;

inline V3 operator-(const V3& a, const V3& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline V3 operator+(const V3& a, const V3& b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
inline V3 operator*(double s, const V3& a) { return {s * a[0], s * a[1], s * a[2]}; }
inline double dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline V3 cross(const V3& a, const V3& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
inline double len(const V3& a) { return std::sqrt(dot(a, a)); }

typedef std::vector<int> VI;

struct RFace { VI v, e, d; };              // e[i] joins v[i], v[i+1]; d[i]=1 iff E[e[i]] = (v[i],v[i+1])
struct RReg { VI f, d; int type = POLYHED; VI sv; };  // d=1: face normal points out; sv: standard vertex order (model)
struct RMesh {
  int topo = 2;
  std::vector<V3> X;
  std::vector<std::array<int, 2>> E;
  std::vector<RFace> F;
  std::vector<RReg> R;
  VI gd[4], gi[4];  // classification per entity dimension
  int n(int d) const { return d == 0 ? (int)X.size() : d == 1 ? (int)E.size() : d == 2 ? (int)F.size() : (int)R.size(); }
  // derived
  std::vector<VI> vE, eF, fR;     // upward, each once (fR may hold 1 or 2)
  void derive();
  VI vertsOf(int d, int i) const;              // vertices of an entity (set order: definition)
  VI regVerts(int r) const, regEdges(int r) const;
  VI up(int d, int i, int D) const;            // entities of dim D incident on entity i of dim d (d<D), sorted
  std::vector<VI> upc[3][4]; bool upok = false;
  void buildUp();
  double faceArea(int f) const; V3 faceVecArea(int f) const; double regVolume(int r) const;
  double totalVolume() const; double totalArea() const;
  int edgeBetween(int a, int b) const;
};

// A "soup" describes elements by vertices only
struct Cell { int type; VI v; std::vector<VI> fv; int reg = 1; };  // standard: v in MSTK order; polyhedron: fv outward cycles
struct Soup {
  int topo = 2;
  std::vector<V3> X;
  std::vector<VI> F; VI Freg;             // 2D elements
  std::vector<Cell> C;           // 3D elements
  std::vector<VI> danglingF;     // extra faces (3D)
  std::vector<std::array<int, 2>> danglingE;
  bool extraV = false;
};

struct GenOpt {
  bool planar = true;      // faces planar (affine images of lattice cells)
  bool jitter = true;      // allow non-affine perturbations when !planar
  bool polys = true;       // polygons / polyhedra
  bool standardOnly = false;
  bool simplex = false;    // only triangles / tets
  bool surface3d = true;   // 2D: bend into 3D surfaces
  bool nonmanifold = true; // 2D: T junctions, touching cells; 3D holes
  bool holes = true;
  bool extras = false;     // dangling edges, free vertices, dangling faces
  bool orientFlips = true; // 2D: random face orientation
  bool materials = false;  // several element regions ids
  bool closedSurf = true;
  int maxcells = 24;
};

Soup genSoup2D(Case& c, const GenOpt& o);
Soup genSoup3D(Case& c, const GenOpt& o);
RMesh assemble(Case& c, const Soup& s, const GenOpt& o, bool permute = true);
RMesh genMesh2D(Case& c, const GenOpt& o);
RMesh genMesh3D(Case& c, const GenOpt& o);
RMesh genMesh(Case& c, const GenOpt& o);  // either
// sets plausible classification: elements on their material, boundaries on lower entities
void classify(Case& c, RMesh& m, const VI& elemreg);
std::string describe(const RMesh& m);

extern const int STD_NF[5];
extern const int STD_FV[5][6][5];

// ---- MSTK side -----------------------------------------------------------
struct BM {
  Mesh_ptr m = nullptr;
  std::vector<void*> ent[4];
  std::unordered_map<void*, int> idx[4];
  void put(int d, int i, void* p) { if ((int)ent[d].size() <= i) ent[d].resize(i + 1, nullptr); ent[d][i] = p; idx[d][p] = i; }
  int find(int d, void* p) const { auto it = idx[d].find(p); return it == idx[d].end() ? -1 : it->second; }
};
enum Route { EXPLICIT, FACEVERTS, REGVERTS };
// Builds rm as an MSTK mesh.  For FACEVERTS/REGVERTS implicit entities are
// looked up and rm's orientation of edges/faces is aligned with the mesh.
BM build(Case& c, RMesh& rm, RepType rep, Route route, bool useGenDesc = false);
void alignImplicit(Case& c, BM& b, RMesh& rm, bool edges, bool faces);

// Reads the mesh through downward queries only.
RMesh extract(Case& c, Mesh_ptr m, BM& b);
// Every adjacency query of an F1/F4 mesh against the model
void checkAdjacency(Case& c, const BM& b, const RMesh& m, const char* tag, int level = 2);
// ordering and orientation queries against the model
void checkOrientation(Case& c, const BM& b, const RMesh& m, const char* tag);
void checkRegionOrder(Case& c, const BM& b, const RMesh& m, const char* tag);
// counts, index access, iteration, IDs, FromID
void checkDatabase(Case& c, const BM& b, const char* tag, bool contiguous = false);
void checkClassifn(Case& c, const BM& b, const RMesh& m, const char* tag);
void checkCoords(Case& c, const BM& b, const RMesh& m, const char* tag, double tol = 0);
// structural validity of a model (closed regions, simple faces, sides ok)
void checkValid(Case& c, const RMesh& m, const char* tag, bool closedRegions = true);

VI toIdx(Case& c, const BM& b, int d, List_ptr l, const char* what, bool del = true);
VI sorted(VI v);
bool sameCycle(const VI& a, const VI& b, bool allowReverse);
std::string str(const VI& v);
double rtol(double a, double b);

// ---- matching a mesh to a model by coordinates and connectivity -----------
struct Match { BM b; RMesh x; VI to[4]; void* at(int d, int i) const { return b.ent[d][to[d][i]]; } VI rev; };
struct MatchOpt { double tol = 0; bool orient2 = true; bool edges = true; bool adjacency = true; };
bool distinctPoints(const RMesh& m, double tol);
bool distinctShapes(const RMesh& m);  // no two edges/faces/regions on the same lower entities
Match matchMesh(Case& c, const RMesh& m, Mesh_ptr mesh, const char* tag, MatchOpt o = MatchOpt());
RMesh dropUnused(const RMesh& m);      // only what the elements use

// ---- Exodus II files written without MSTK ----------------------------------
struct ExoBlock { int id; std::string type; VI el; bool poly; };   // el: model elements
struct ExoSet { int id; std::string name; std::vector<std::pair<int, int>> sides; VI ents; };
struct ExoVar { std::string name; std::vector<double> val; };      // one value per node / element (file order)
struct ExoFile {
  int ndim = 3; std::vector<ExoBlock> blocks; VI node;   // node[k] = model vertex of file node k+1
  VI elems() const { VI r; for (auto& b : blocks) r.insert(r.end(), b.el.begin(), b.el.end()); return r; }
  std::vector<ExoSet> nsets, ssets, esets; std::vector<ExoVar> nvars, evars; VI nodemap, elemmap;
};
ExoFile genExo(Case& c, const RMesh& m, bool pyramids);
int exoSides(const RMesh& m, int el, bool poly);                       // number of sides of an element
VI exoSide(const RMesh& m, int el, bool poly, int k);               // model vertices of side k (0-based)
void writeExo(Case& c, const RMesh& m, const ExoFile& f, const char* path);
