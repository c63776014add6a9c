// Stand-ins for the graph partitioners: they check what the mesh code hands them and answer with the part map of the case.
#pragma once
#include "dist.h"
#include <metis.h>
#include <zoltan.h>
static Case* C; static DWorld* WW; static BM* BB; static bool called; static VI rawPart;
static VI cellOrder() { VI order; int idx = 0; void* e; while ((e = nextEnt(BB->m, WW->m.topo, &idx))) order.push_back(BB->find(WW->m.topo, e)); return order; }
static std::set<int> cellNeighbours(int q) { const RMesh& m = WW->m; std::set<int> w; const VI& sides = m.topo == 3 ? m.R[q].f : m.F[q].e; for (int s : sides) for (int o : (m.topo == 3 ? m.fR[s] : m.eF[s])) if (o != q) w.insert(o); return w; }
static int standIn(idx_t* n, idx_t* ncon, idx_t* xadj, idx_t* adj, idx_t* np, idx_t* part) {
  Case& c = *C; const RMesh& m = WW->m; int D = m.topo; called = true;
  REQ(c, *n == m.n(D) && *np == WW->np && *ncon == 1 && xadj[0] == 0, "metis-graph", "partitioner called for %d cells and %d parts, expected %d and %d", (int)*n, (int)*np, m.n(D), WW->np);
  VI order = cellOrder();
  for (int i = 0; i < *n; i++) { std::set<int> g; int q = order[i]; REQ(c, xadj[i + 1] >= xadj[i], "metis-graph", "row %d of the graph has negative length", i);
    for (int k = xadj[i]; k < xadj[i + 1]; k++) { REQ(c, adj[k] >= 0 && adj[k] < *n, "metis-graph", "cell %d has neighbour %d", i, (int)adj[k]); g.insert(order[adj[k]]); }
    std::set<int> w = cellNeighbours(q); REQ(c, w == g, "metis-graph", "cell %d of the graph has %zu neighbours, %zu expected", q, g.size(), w.size()); }
  for (int i = 0; i < *n; i++) part[i] = rawPart[order[i]]; return METIS_OK;
}
extern "C" int METIS_PartGraphRecursive(idx_t* n, idx_t* nc, idx_t* x, idx_t* a, idx_t*, idx_t*, idx_t*, idx_t* np, real_t*, real_t*, idx_t*, idx_t* cut, idx_t* part) { *cut = 0; return standIn(n, nc, x, a, np, part); }
extern "C" int METIS_PartGraphKway(idx_t* n, idx_t* nc, idx_t* x, idx_t* a, idx_t*, idx_t*, idx_t*, idx_t* np, real_t*, real_t*, idx_t*, idx_t* cut, idx_t* part) { *cut = 0; return standIn(n, nc, x, a, np, part); }
static struct { ZOLTAN_NUM_OBJ_FN* num; ZOLTAN_OBJ_LIST_FN* list; ZOLTAN_NUM_EDGES_MULTI_FN* nedge; ZOLTAN_EDGE_LIST_MULTI_FN* edge; ZOLTAN_NUM_GEOM_FN* ngeom; ZOLTAN_GEOM_MULTI_FN* geom; void* d; std::string method; bool root; } ZF;
extern "C" {
int Zoltan_Initialize(int, char**, float* v) { *v = 3; return ZOLTAN_OK; }
struct Zoltan_Struct* Zoltan_Create(MPI_Comm comm) { ZF = {}; int r; MPI_Comm_rank(comm, &r); ZF.root = r == 0; return (struct Zoltan_Struct*)malloc(8); }
void Zoltan_Destroy(struct Zoltan_Struct** z) { free(*z); *z = nullptr; }
int Zoltan_Set_Param(struct Zoltan_Struct*, const char* k, const char* v) { if (!strcmp(k, "LB_METHOD")) ZF.method = v; return ZOLTAN_OK; }
int Zoltan_Set_Num_Obj_Fn(struct Zoltan_Struct*, ZOLTAN_NUM_OBJ_FN* f, void* d) { ZF.num = f; ZF.d = d; return ZOLTAN_OK; }
int Zoltan_Set_Obj_List_Fn(struct Zoltan_Struct*, ZOLTAN_OBJ_LIST_FN* f, void* d) { ZF.list = f; return ZOLTAN_OK; }
int Zoltan_Set_Num_Edges_Multi_Fn(struct Zoltan_Struct*, ZOLTAN_NUM_EDGES_MULTI_FN* f, void* d) { ZF.nedge = f; return ZOLTAN_OK; }
int Zoltan_Set_Edge_List_Multi_Fn(struct Zoltan_Struct*, ZOLTAN_EDGE_LIST_MULTI_FN* f, void* d) { ZF.edge = f; return ZOLTAN_OK; }
int Zoltan_Set_Num_Geom_Fn(struct Zoltan_Struct*, ZOLTAN_NUM_GEOM_FN* f, void* d) { ZF.ngeom = f; return ZOLTAN_OK; }
int Zoltan_Set_Geom_Multi_Fn(struct Zoltan_Struct*, ZOLTAN_GEOM_MULTI_FN* f, void* d) { ZF.geom = f; return ZOLTAN_OK; }
int Zoltan_LB_Free_Part(ZOLTAN_ID_PTR* g, ZOLTAN_ID_PTR* l, int** p, int** t) { free(*g); free(*l); free(*p); free(*t); *g = *l = nullptr; *p = *t = nullptr; return ZOLTAN_OK; }
int Zoltan_LB_Partition(struct Zoltan_Struct*, int* ch, int* ng, int* nl, int* ni, ZOLTAN_ID_PTR* ig, ZOLTAN_ID_PTR* il, int** ip, int** it, int* ne, ZOLTAN_ID_PTR* eg, ZOLTAN_ID_PTR* el, int** ep, int** et) {
  Case& c = *C; const RMesh& m = WW->m; int D = m.topo, err = 0; called = true; *ch = 1; *ng = *nl = 1; *ni = *ne = 0; *ig = *il = *eg = *el = nullptr; *ip = *it = *ep = *et = nullptr; int n = ZF.num(ZF.d, &err);
  REQ(c, n == (ZF.root ? m.n(D) : 0), "zoltan-graph", "partitioner is told of %d cells", n); if (!n) return ZOLTAN_OK; VI order = cellOrder();
  std::vector<ZOLTAN_ID_TYPE> gid(n), lid(n); ZF.list(ZF.d, 1, 1, gid.data(), lid.data(), 0, nullptr, &err); std::set<int> seen; for (auto g : gid) REQ(c, g >= 1 && (int)g <= n && seen.insert(g).second, "zoltan-graph", "cell number %d given to the partitioner", (int)g);
  if (ZF.method == "GRAPH") { std::vector<int> cnt(n); ZF.nedge(ZF.d, 1, 1, n, gid.data(), lid.data(), cnt.data(), &err); size_t t = 0; for (int k : cnt) t += k; std::vector<ZOLTAN_ID_TYPE> nb(t); std::vector<int> pr(t); ZF.edge(ZF.d, 1, 1, n, gid.data(), lid.data(), cnt.data(), nb.data(), pr.data(), 0, nullptr, &err); size_t p = 0;
    for (int i = 0; i < n; i++) { std::set<int> g; for (int k = 0; k < cnt[i]; k++, p++) { REQ(c, nb[p] >= 1 && (int)nb[p] <= n && pr[p] == 0, "zoltan-graph", "cell has neighbour %d on rank %d", (int)nb[p], pr[p]); g.insert(order[nb[p] - 1]); } std::set<int> w = cellNeighbours(order[gid[i] - 1]); REQ(c, g == w, "zoltan-graph", "cell %d of the graph has %zu neighbours, %zu expected", order[gid[i] - 1], g.size(), w.size()); } }
  else { int nd = ZF.ngeom(ZF.d, &err); REQ(c, nd >= 1 && nd <= 3, "zoltan-geometry", "%d coordinates per cell", nd); std::vector<double> x(nd * n); ZF.geom(ZF.d, 1, 1, n, gid.data(), lid.data(), nd, x.data(), &err);
    for (int i = 0; i < n; i++) { VI v = m.vertsOf(D, order[gid[i] - 1]); for (int k = 0; k < nd; k++) { double s = 0; for (int q : v) s += m.X[q][k] / v.size(); REQ(c, std::fabs(s - x[i * nd + k]) <= 1e-9 * (1 + std::fabs(s)), "zoltan-geometry", "coordinate %d of cell %d is %g, expected %g", k, i, x[i * nd + k], s); } } }
  VI mv; for (int i = 0; i < n; i++) if (rawPart[order[gid[i] - 1]] != 0) mv.push_back(i);   // only cells that leave rank 0 are listed
  *ne = mv.size(); *eg = (ZOLTAN_ID_PTR)malloc(4 * mv.size() + 4); *el = (ZOLTAN_ID_PTR)malloc(4 * mv.size() + 4); *ep = (int*)malloc(4 * mv.size() + 4); *et = (int*)malloc(4 * mv.size() + 4);
  for (size_t k = 0; k < mv.size(); k++) { (*eg)[k] = gid[mv[k]]; (*el)[k] = lid[mv[k]]; (*ep)[k] = (*et)[k] = rawPart[order[gid[mv[k]] - 1]]; } return ZOLTAN_OK;
}
}
