#include "par.h"
extern "C" void MESH_Reset_Cached_MaxIDs(Mesh_ptr);
// A copied mesh is equal to its source, entity for entity, and independent.
struct At { std::string name; MAttType t; int dim, nc; MAttrib_ptr a; std::map<std::pair<int, int>, std::vector<double>> val; };
struct St { std::string name; int dim; MSet_ptr s; std::vector<std::pair<int, int>> in; };

static void checkAtts(Case& c, const BM& b, std::vector<At>& as, const char* tag, bool copy) {
  for (auto& a : as) {
    MAttrib_ptr q = MESH_AttribByName(b.m, a.name.c_str()); REQ(c, q, "attribute-missing", "%s: no attribute %s", tag, a.name.c_str());
    REQ(c, MAttrib_Get_Type(q) == a.t && (int)MAttrib_Get_EntDim(q) == a.dim && MAttrib_Get_NumComps(q) == a.nc, "attribute-def", "%s: definition of %s differs", tag, a.name.c_str());
    if (a.t == POINTER) continue;  // documented as not copied
    for (int d = 0; d < 4; d++) if (a.dim == d || a.dim == MALLTYPE) for (int i = 0; i < (int)b.ent[d].size(); i++) {
      void* e = b.ent[d][i]; if (!e) continue; auto it = a.val.find({d, i}); std::vector<double> w = it == a.val.end() ? std::vector<double>(a.nc, 0) : it->second;
      if (a.t == INT) { REQ(c, MEnt_Get_IntAttVal(e, q) == (int)w[0], "attribute-value", "%s: %s of entity %d/%d is %d, expected %g", tag, a.name.c_str(), d, i, MEnt_Get_IntAttVal(e, q), w[0]); }
      else if (a.t == DOUBLE) { REQ(c, MEnt_Get_DblAttVal(e, q) == w[0], "attribute-value", "%s: %s of entity %d/%d is %g, expected %g", tag, a.name.c_str(), d, i, MEnt_Get_DblAttVal(e, q), w[0]); }
      else { double* v = a.t == VECTOR ? MEnt_Get_VecAttVal(e, q) : MEnt_Get_TnsrAttVal(e, q);
        REQ(c, (v != NULL) == (it != a.val.end()), "attribute-value", "%s: %s of entity %d/%d is %s", tag, a.name.c_str(), d, i, v ? "set" : "missing");
        if (v) for (int k = 0; k < a.nc; k++) REQ(c, v[k] == w[k], "attribute-value", "%s: component %d of %s of entity %d/%d is %g, expected %g", tag, k, a.name.c_str(), d, i, v[k], w[k]); }
    }
  }
}
static void checkSets(Case& c, const BM& b, std::vector<St>& ss, const char* tag) {
  REQ(c, MESH_Num_MSets(b.m) == (int)ss.size(), "set-count", "%s: %d sets, expected %zu", tag, MESH_Num_MSets(b.m), ss.size());
  for (auto& s : ss) {
    MSet_ptr q = MESH_MSetByName(b.m, s.name.c_str()); REQ(c, q, "set-missing", "%s: no set %s", tag, s.name.c_str());
    REQ(c, (int)MSet_EntDim(q) == s.dim && MSet_Num_Entries(q) == (int)s.in.size(), "set-def", "%s: set %s has type %d and %d entries, expected %d and %zu", tag, s.name.c_str(), (int)MSet_EntDim(q), MSet_Num_Entries(q), s.dim, s.in.size());
    int idx = 0; size_t k = 0; void* e; while ((e = MSet_Next_Entry(q, &idx))) { REQ(c, k < s.in.size() && b.ent[s.in[k].first][s.in[k].second] == e, "set-entries", "%s: entry %zu of set %s", tag, k, s.name.c_str()); k++; }
  }
}
static void checkAll(Case& c, const BM& b, const RMesh& m, const char* tag) {
  checkDatabase(c, b, tag); checkCoords(c, b, m, tag); checkClassifn(c, b, m, tag); checkAdjacency(c, b, m, tag, 1); checkOrientation(c, b, m, tag);
}
// a copy of each rank's part of a distributed mesh is a distributed mesh
struct Stat { int id, gid, own, pt, pb; bool operator==(const Stat& o) const { return id == o.id && gid == o.gid && own == o.own && pt == o.pt && pb == o.pb; } };
static void* nxt(Mesh_ptr m, int d, int* i) { return d == 0 ? (void*)MESH_Next_Vertex(m, i) : d == 1 ? (void*)MESH_Next_Edge(m, i) : d == 2 ? (void*)MESH_Next_Face(m, i) : (void*)MESH_Next_Region(m, i); }
static std::vector<Stat> stats(Mesh_ptr m, int d) { std::vector<Stat> v; int i = 0; void* e; while ((e = nxt(m, d, &i))) v.push_back({MEnt_ID(e), (int)MEnt_GlobalID(e), (int)MEnt_MasterParID(e), (int)MEnt_PType(e), d == 0 ? MV_OnParBoundary(e) : d == 1 ? ME_OnParBoundary(e) : d == 2 ? MF_OnParBoundary(e) : 0}); return v; }
static std::vector<VI> lists(Mesh_ptr m) {
  std::vector<VI> L; for (int d = 0; d < 4; d++) { VI a, b; void* e; int i = 0;
    while ((e = d == 0 ? (void*)MESH_Next_GhostVertex(m, &i) : d == 1 ? (void*)MESH_Next_GhostEdge(m, &i) : d == 2 ? (void*)MESH_Next_GhostFace(m, &i) : (void*)MESH_Next_GhostRegion(m, &i))) a.push_back(MEnt_GlobalID(e));
    i = 0; while ((e = d == 0 ? (void*)MESH_Next_OverlapVertex(m, &i) : d == 1 ? (void*)MESH_Next_OverlapEdge(m, &i) : d == 2 ? (void*)MESH_Next_OverlapFace(m, &i) : (void*)MESH_Next_OverlapRegion(m, &i))) b.push_back(MEnt_GlobalID(e));
    int na = d == 0 ? MESH_Num_GhostVertices(m) : d == 1 ? MESH_Num_GhostEdges(m) : d == 2 ? MESH_Num_GhostFaces(m) : MESH_Num_GhostRegions(m), nb = d == 0 ? MESH_Num_OverlapVertices(m) : d == 1 ? MESH_Num_OverlapEdges(m) : d == 2 ? MESH_Num_OverlapFaces(m) : MESH_Num_OverlapRegions(m); a.push_back(-na); b.push_back(-nb); L.push_back(a); L.push_back(b); }
  return L;
}
static void update(Case& c, const PMap& P, Mesh_ptr my, int D, int rank, const char* tag) {
  for (int d = 0; d <= D; d++) { MAttrib_ptr a = MAttrib_New(my, "number", INT, (MType)d); for (int i = 0; i < P.x.n(d); i++) MEnt_Set_AttVal(P.b.ent[d][i], a, rank * 100000 + P.to[d][i] + 1, 0, nullptr); MESH_Update1Attribute(my, a, MPI_COMM_WORLD);
    for (int i = 0; i < P.x.n(d); i++) { int v = 0; double rv; void* pv; MEnt_Get_AttVal(P.b.ent[d][i], a, &v, &rv, &pv); int w = (int)MEnt_MasterParID(P.b.ent[d][i]) * 100000 + P.to[d][i] + 1; REQ(c, v == w, "parallel-update", "%s, rank %d: entity %d/%d has value %d after a ghost update, its owner has %d", tag, rank, d, P.to[d][i], v, w); } MAttrib_Delete(a); }
}
static void runPar(Case& c) {
  int np = 2 + c.s.draw(3); PWorld Q; parWorld(c, Q, np, 1, {1, 1, 0, 2}); DWorld& W = Q.W; int D = W.m.topo; RepType r2 = c.s.coin() ? F4 : F1; bool first = c.s.coin(), upd = c.s.coin(), ren = c.s.coin(); shim::Opt so = shim::draw(c); c.label("parallel"); std::vector<std::string> out;
  c.note("%s np %d ring %d %s parts %s", describe(W.m).c_str(), np, W.ring, Q.weave ? "woven" : "distributed", str(W.part).c_str());
  shim::run(c, np, so, [&](int rank, std::string&) {
    Mesh_ptr my = parMesh(c, Q, rank); std::vector<Stat> st[4]; PMap Ps = parMap(c, W, my); if (upd) update(c, Ps, my, D, rank, "source"); for (int d = 0; d < 4; d++) st[d] = stats(my, d); auto L = lists(my);
    Mesh_ptr k = MESH_New(r2); REQ(c, MESH_Copy(my, k, 1, 1) == 1, "return", "MESH_Copy failed"); REQ(c, lists(my) == L, "parallel-source", "rank %d: copying changed the source's lists of ghost or overlap entities", rank);
    for (int d = 0; d < 4; d++) REQ(c, stats(my, d) == st[d], "parallel-source", "rank %d: copying changed the parallel data of the source", rank);
    auto cmp = [&](const char* t) { for (int d = 0; d < 4; d++) { auto g = stats(k, d); auto key = [](const Stat& a, const Stat& b) { return a.id < b.id; }; auto w = st[d]; std::sort(g.begin(), g.end(), key); std::sort(w.begin(), w.end(), key); REQ(c, g.size() == w.size(), "copy-count", "%s: copy has %zu entities of dimension %d, the source %zu", t, g.size(), d, w.size());
        for (size_t i = 0; i < g.size(); i++) REQ(c, g[i] == w[i], "parallel-data", "%s, rank %d: copy of entity %d/%d has global ID %d, owner %d, status %d, on boundary %d; the source has ID %d: %d, %d, %d, %d", t, rank, d, g[i].id, g[i].gid, g[i].own, g[i].pt, g[i].pb, w[i].id, w[i].gid, w[i].own, w[i].pt, w[i].pb); }
      auto l = lists(k); for (int z = 0; z < 8; z++) REQ(c, l[z] == L[z], "parallel-lists", "%s, rank %d: the copy lists %d %s entities of dimension %d, the source %d (or others, or in another order)", t, rank, -l[z].back(), z % 2 ? "overlap" : "ghost", z / 2, -L[z].back()); };
    cmp("copy"); if (first) MESH_Delete(my); PMap P = parMap(c, W, k); update(c, P, k, D, rank, "copy"); REQ(c, MESH_Parallel_Check(k, MPI_COMM_WORLD) == 1, "parallel-check", "MESH_Parallel_Check rejects the copy of a distributed mesh"); cmp("copy after update");
    if (!first) { if (ren) MESH_Renumber_GlobalIDs(k, MALLTYPE, 0, nullptr, MPI_COMM_WORLD); MESH_Delete(k); REQ(c, lists(my) == L, "parallel-source", "rank %d: lists of the source changed with the copy", rank); for (int d = 0; d < 4; d++) REQ(c, stats(my, d) == st[d], "parallel-source", "rank %d: the source changed with the copy", rank); update(c, Ps, my, D, rank, "source after copy"); MESH_Delete(my); } else MESH_Delete(k); }, out);
  c.nontrivial();
}
static void run(Case& c) {
  if (c.s.chance(1, 6)) { runPar(c); return; }
  GenOpt o; o.maxcells = 4 + c.size / 4; o.extras = c.s.chance(1, 4); RMesh m = genMesh(c, o); RepType r1 = c.s.coin() ? F4 : F1, r2 = c.s.coin() ? F4 : F1;
  BM b = build(c, m, r1, EXPLICIT);
  bool gaps = c.s.coin();
  if (gaps) { for (int d = 0; d < 4; d++) if (c.s.coin()) { VI p = c.s.perm(m.n(d)), ids; int id = 0; for (int i = 0; i < m.n(d); i++) { id += 1 + (c.s.chance(1, 3) ? c.s.draw(4) : 0); ids.push_back(id); } for (int i = 0; i < m.n(d); i++) MEnt_Set_ID(b.ent[d][i], ids[p[i]]); }
    MESH_Reset_Cached_MaxIDs(b.m); c.label("gaps"); }
  std::vector<At> as; std::vector<St> ss; int na = c.s.draw(5), ns = c.s.draw(4); static int dummy;
  for (int k = 0; k < na; k++) {
    MAttType ts[] = {INT, DOUBLE, VECTOR, TENSOR, POINTER}; int dims[] = {0, 1, 2, m.topo, MALLTYPE}; At a; a.t = ts[c.s.draw(5)]; a.dim = dims[c.s.draw(5)]; a.nc = a.t == VECTOR || a.t == TENSOR ? 1 + (int)c.s.draw(4) : 1;
    a.name = k == 0 && c.s.chance(1, 4) ? "copyatt" : pbt::format("att%d", k); a.a = a.t == VECTOR || a.t == TENSOR ? MAttrib_New(b.m, a.name.c_str(), a.t, (MType)a.dim, a.nc) : MAttrib_New(b.m, a.name.c_str(), a.t, (MType)a.dim);
    for (int d = 0; d < 4; d++) if (a.dim == d || a.dim == MALLTYPE) for (int i = 0; i < m.n(d); i++) if (c.s.chance(2, 3)) {
      std::vector<double> v; for (int q = 0; q < a.nc; q++) v.push_back(c.s.chance(1, 4) ? 0 : a.t == INT ? c.s.range(-9, 9) : c.s.real(-9, 9)); void* e = b.ent[d][i]; a.val[{d, i}] = v;
      if (a.t == INT) MEnt_Set_IntAttVal(e, a.a, (int)v[0]); else if (a.t == DOUBLE) MEnt_Set_DblAttVal(e, a.a, v[0]); else if (a.t == POINTER) MEnt_Set_PtrAttVal(e, a.a, &dummy); else if (a.t == VECTOR) MEnt_Set_VecAttVal(e, a.a, v.data()); else MEnt_Set_TnsrAttVal(e, a.a, v.data());
    }
    as.push_back(a); c.label(pbt::format("att-type-%d", a.t));
  }
  for (int k = 0; k < ns; k++) {
    int dims[] = {0, 1, 2, m.topo, MALLTYPE}; St s; s.dim = dims[c.s.draw(5)]; s.name = pbt::format("set%d", k); s.s = MSet_New(b.m, s.name.c_str(), (MType)s.dim);
    std::vector<std::pair<int, int>> all; for (int d = 0; d < 4; d++) if (s.dim == d || s.dim == MALLTYPE) for (int i = 0; i < m.n(d); i++) if (c.s.coin()) all.push_back({d, i}); c.s.shuffle(all);
    for (auto& x : all) MSet_Add(s.s, b.ent[x.first][x.second]); s.in = all; ss.push_back(s);
  }
  int wa = c.s.chance(3, 4), ws = c.s.chance(3, 4);
  int n0 = MESH_Num_Attribs(b.m);
  BM k; k.m = MESH_New(r2); c.label(pbt::format("rep-%d-to-%d", (int)r1, (int)r2));
  REQ(c, MESH_Copy(b.m, k.m, wa, ws) == 1, "return", "MESH_Copy failed");
  // correspondence by local ID
  for (int d = 0; d < 4; d++) {
    std::map<int, int> byid; for (int i = 0; i < m.n(d); i++) byid[MEnt_ID(b.ent[d][i])] = i; k.ent[d].assign(m.n(d), nullptr);
    int idx = 0, n = 0; void* e; while ((e = d == 0 ? MESH_Next_Vertex(k.m, &idx) : d == 1 ? MESH_Next_Edge(k.m, &idx) : d == 2 ? MESH_Next_Face(k.m, &idx) : MESH_Next_Region(k.m, &idx))) {
      REQ(c, byid.count(MEnt_ID(e)), "copy-id", "copy has an entity of dimension %d with ID %d, the source has none", d, MEnt_ID(e)); int i = byid[MEnt_ID(e)]; REQ(c, !k.ent[d][i], "copy-id", "two copies with ID %d", MEnt_ID(e)); k.put(d, i, e); n++;
    }
    REQ(c, n == m.n(d), "copy-count", "copy has %d entities of dimension %d, the source %d", n, d, m.n(d));
    for (int i = 0; i < m.n(d); i++) { int id = MEnt_ID(k.ent[d][i]); void* f = d == 0 ? MESH_VertexFromID(k.m, id) : d == 1 ? MESH_EdgeFromID(k.m, id) : d == 2 ? MESH_FaceFromID(k.m, id) : MESH_RegionFromID(k.m, id); REQ(c, f == k.ent[d][i], "copy-from-id", "lookup of ID %d (dimension %d) in the copy", id, d); }
  }
  std::vector<At> noA; std::vector<St> noS;
  auto src = [&](const char* t) { checkAll(c, b, m, t); checkAtts(c, b, as, t, false); checkSets(c, b, ss, t); REQ(c, MESH_Num_Attribs(b.m) == n0, "source-attribs", "%s: source has %d attributes, expected %d", t, MESH_Num_Attribs(b.m), n0); };
  auto cpy = [&](const char* t) { checkAll(c, k, m, t); checkAtts(c, k, wa ? as : noA, t, true); checkSets(c, k, ws ? ss : noS, t); REQ(c, MESH_Num_Attribs(k.m) == (wa ? n0 : 0), "copy-attribs", "%s: copy has %d attributes, expected %d", t, MESH_Num_Attribs(k.m), wa ? n0 : 0); };
  src("source after copy"); cpy("copy");
  // independence
  int which = c.s.draw(2); BM& x = which ? k : b; int how = c.s.draw(3); c.label(pbt::format("mutate-%s-%d", which ? "copy" : "source", how));
  if (how == 0) { MESH_Delete(x.m); if (which) src("source, copy deleted"); else cpy("copy, source deleted"); if (m.n(m.topo)) c.nontrivial(); MESH_Delete(which ? b.m : k.m); return; }
  if (how == 1) {
    for (void* v : x.ent[0]) { double z[3] = {1e9, 2, 3}; MV_Set_Coords(v, z); }
    for (int d = 0; d < 4; d++) for (void* e : x.ent[d]) { MEnt_Set_GEntID(e, 77); MEnt_Set_ID(e, MEnt_ID(e) + 1000); }
    int idx = 0; MAttrib_ptr a; while ((a = MESH_Next_Attrib(x.m, &idx))) MAttrib_Clear(a);
    idx = 0; MSet_ptr s; while ((s = MESH_Next_MSet(x.m, &idx))) { int i2 = 0; void* e = MSet_Next_Entry(s, &i2); if (e) MSet_Rem(s, e); }
  } else {
    for (int d = m.topo; d > 0; d--) for (void* e : x.ent[d]) { if (d == 3) MR_Delete(e, 0); else if (d == 2) MF_Delete(e, 0); else ME_Delete(e, 0); }
    MVertex_ptr v = MV_New(x.m); for (void* q : x.ent[0]) REQ(c, MV_ID(v) != MV_ID(q), "new-id", "a vertex made after copying got the ID %d of another", MV_ID(v));
  }
  if (which) src("source, copy changed"); else cpy("copy, source changed");
  if (m.n(m.topo)) c.nontrivial();
  MESH_Delete(b.m); MESH_Delete(k.m);
}
int main(int argc, char** argv) { static pbt::Property P = {"C14", "a mesh with elements was copied, compared, and one of the two meshes then changed or deleted", run, 4000, 60000}; return pbt::main_serial(argc, argv, P); }
