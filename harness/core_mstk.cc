// MSTK side: builders, extraction and comparison oracles
#include "rmesh.h"

static const char* DN[4] = {"vertex", "edge", "face", "region"};

double rtol(double a, double b) { return 1e-9 * (1 + std::max(std::fabs(a), std::fabs(b))); }

VI toIdx(Case& c, const BM& b, int d, List_ptr l, const char* what, bool del) {
  VI r;
  if (!l) return r;
  int n = List_Num_Entries(l);
  for (int i = 0; i < n; i++) {
    void* p = List_Entry(l, i);
    int k = b.find(d, p);
    REQ(c, k >= 0, "adjacency-unknown-entity", "%s: entry %d of %d is not a live %s of the mesh", what, i, n, DN[d]);
    r.push_back(k);
  }
  if (del) List_Delete(l);
  return r;
}

static void setClass(BM& b, const RMesh& m, int d, int i) {
  if (m.gd[d].empty()) return;
  MEnt_Set_GEntDim(b.ent[d][i], m.gd[d][i]); MEnt_Set_GEntID(b.ent[d][i], m.gi[d][i]);
}

BM build(Case& c, RMesh& m, RepType rep, Route route, bool gen) {
  if (c.desc.empty()) c.note("%s %s", describe(m).c_str(), rep == F1 ? "F1" : rep == F4 ? "F4" : "reduced");
  BM b; b.m = MESH_New(rep);
  auto newV = [&](int i) { MVertex_ptr v = MV_New(b.m); double x[3] = {m.X[i][0], m.X[i][1], m.X[i][2]}; MV_Set_Coords(v, x); b.put(0, i, v); setClass(b, m, 0, i); };
  for (int i = 0; i < m.n(0); i++) newV(i);
  if (route == EXPLICIT) {
    for (int i = 0; i < m.n(1); i++) {
      MEdge_ptr e = ME_New(b.m); ME_Set_Vertex(e, 0, b.ent[0][m.E[i][0]]); ME_Set_Vertex(e, 1, b.ent[0][m.E[i][1]]);
      b.put(1, i, e); setClass(b, m, 1, i);
    }
  }
  if (route == EXPLICIT || route == FACEVERTS) {
    for (int i = 0; i < m.n(2); i++) {
      MFace_ptr f = MF_New(b.m); int n = m.F[i].v.size();
      if (!m.gd[2].empty()) { MF_Set_GEntDim(f, m.gd[2][i]); MF_Set_GEntID(f, m.gi[2][i]); }
      if (route == EXPLICIT) {
        std::vector<MEdge_ptr> e; VI d = m.F[i].d; for (int k : m.F[i].e) e.push_back(b.ent[1][k]);
        MF_Set_Edges(f, n, e.data(), d.data());
      } else {
        std::vector<MVertex_ptr> v; for (int k : m.F[i].v) v.push_back(b.ent[0][k]);
        MF_Set_Vertices(f, n, v.data());
      }
      b.put(2, i, f); setClass(b, m, 2, i);
    }
    for (int i = 0; i < m.n(3); i++) {
      MRegion_ptr r = MR_New(b.m);
      std::vector<MFace_ptr> f; VI d = m.R[i].d; for (int k : m.R[i].f) f.push_back(b.ent[2][k]);
      b.put(3, i, r); setClass(b, m, 3, i);
      MR_Set_Faces(r, f.size(), f.data(), d.data());
    }
    if (route == FACEVERTS) alignImplicit(c, b, m, true, false);
  } else {
    for (int i = 0; i < m.n(3); i++) {
      MRegion_ptr r = MR_New(b.m);
      b.put(3, i, r); setClass(b, m, 3, i);
      std::vector<MVertex_ptr> v;
      if (m.R[i].type != POLYHED && !m.R[i].sv.empty()) {
        for (int k : m.R[i].sv) v.push_back(b.ent[0][k]);
        MR_Set_Vertices(r, v.size(), v.data(), 0, NULL);
      } else {
        VI vs = m.regVerts(i); std::map<int, int> loc;
        for (size_t k = 0; k < vs.size(); k++) { loc[vs[k]] = k; v.push_back(b.ent[0][vs[k]]); }
        int nf = m.R[i].f.size(); std::vector<VI> t(nf); std::vector<int*> tp(nf);
        for (int k = 0; k < nf; k++) {
          VI q = m.F[m.R[i].f[k]].v; if (!m.R[i].d[k]) std::reverse(q.begin(), q.end());
          t[k].push_back(q.size()); for (int x : q) t[k].push_back(loc[x]);
          tp[k] = t[k].data();
        }
        MR_Set_Vertices(r, v.size(), v.data(), nf, tp.data());
      }
    }
    alignImplicit(c, b, m, true, true);
  }
  return b;
}

void alignImplicit(Case& c, BM& b, RMesh& m, bool edges, bool faces) {
  // edges
  if (edges) {
    std::map<std::pair<int, int>, int> em;
    for (int i = 0; i < m.n(1); i++) em[std::minmax(m.E[i][0], m.E[i][1])] = i;
    int idx = 0; MEdge_ptr e; int cnt = 0; std::set<int> flip;
    while ((e = MESH_Next_Edge(b.m, &idx))) {
      int a = b.find(0, ME_Vertex(e, 0)), d = b.find(0, ME_Vertex(e, 1));
      REQ(c, a >= 0 && d >= 0, "implicit-edge", "implicit edge has unknown end vertices");
      auto it = em.find(std::minmax(a, d));
      REQ(c, it != em.end(), "implicit-edge", "edge (%d,%d) exists in the mesh but no element has it", a, d);
      REQ(c, (int)b.ent[1].size() <= it->second || !b.ent[1][it->second], "implicit-edge", "edge (%d,%d) exists twice", a, d);
      b.put(1, it->second, e); cnt++;
      if (m.E[it->second][0] != a) { m.E[it->second] = {a, d}; flip.insert(it->second); }
    }
    int want = 0; for (int i = 0; i < m.n(1); i++) want += !m.eF[i].empty();
    REQ(c, cnt == m.n(1), "implicit-edge", "mesh has %d edges, elements have %d", cnt, m.n(1));
    for (auto& F : m.F) for (size_t k = 0; k < F.e.size(); k++) if (flip.count(F.e[k])) F.d[k] = !F.d[k];
  }
  if (faces) {
    std::map<VI, int> fm;
    for (int i = 0; i < m.n(2); i++) fm[sorted(m.F[i].v)] = i;
    int idx = 0; MFace_ptr f; int cnt = 0;
    while ((f = MESH_Next_Face(b.m, &idx))) {
      VI v = toIdx(c, b, 0, MF_Vertices(f, 1, 0), "MF_Vertices of implicit face");
      auto it = fm.find(sorted(v));
      REQ(c, it != fm.end(), "implicit-face", "face %s exists in the mesh but no element has it", str(v).c_str());
      int k = it->second;
      REQ(c, (int)b.ent[2].size() <= k || !b.ent[2][k], "implicit-face", "face %s exists twice", str(v).c_str());
      REQ(c, sameCycle(v, m.F[k].v, true), "implicit-face", "face %s is not the cycle %s", str(v).c_str(), str(m.F[k].v).c_str());
      bool rev = !sameCycle(v, m.F[k].v, false);
      b.put(2, k, f); cnt++;
      RFace& F = m.F[k]; F.v = v;
      for (size_t i = 0; i < v.size(); i++) {
        int e = m.edgeBetween(v[i], v[(i + 1) % v.size()]);
        F.e[i] = e; F.d[i] = m.E[e][0] == v[i];
      }
      if (rev) for (int r : m.fR[k]) for (size_t i = 0; i < m.R[r].f.size(); i++) if (m.R[r].f[i] == k) m.R[r].d[i] = !m.R[r].d[i];
    }
    REQ(c, cnt == m.n(2), "implicit-face", "mesh has %d faces, elements have %d", cnt, m.n(2));
  }
}

RMesh extract(Case& c, Mesh_ptr mesh, BM& b) {
  RMesh m; b = BM(); b.m = mesh;
  int idx = 0; void* p;
  auto grab = [&](int d) {
    idx = 0; int i = 0;
    while ((p = d == 0 ? MESH_Next_Vertex(mesh, &idx) : d == 1 ? MESH_Next_Edge(mesh, &idx) : d == 2 ? MESH_Next_Face(mesh, &idx) : MESH_Next_Region(mesh, &idx))) {
      REQ(c, MEnt_Dim(p) == d, "deleted-entity-listed", "iteration over %s entities returned one with dimension %d", DN[d], (int)MEnt_Dim(p));
      REQ(c, b.find(d, p) < 0, "entity-listed-twice", "iteration lists a %s twice", DN[d]);
      b.put(d, i++, p);
      m.gd[d].push_back(MEnt_GEntDim(p)); m.gi[d].push_back(MEnt_GEntID(p));
    }
    int n = d == 0 ? MESH_Num_Vertices(mesh) : d == 1 ? MESH_Num_Edges(mesh) : d == 2 ? MESH_Num_Faces(mesh) : MESH_Num_Regions(mesh);
    REQ(c, n == i, "count-mismatch", "mesh reports %d %s entities, iteration gives %d", n, DN[d], i);
  };
  for (int d = 0; d < 4; d++) grab(d);
  for (void* v : b.ent[0]) { double x[3]; MV_Coords(v, x); m.X.push_back({x[0], x[1], x[2]}); }
  for (void* e : b.ent[1]) {
    int a = b.find(0, ME_Vertex(e, 0)), d = b.find(0, ME_Vertex(e, 1));
    REQ(c, a >= 0 && d >= 0, "edge-vertex", "edge has a vertex that is not in the mesh");
    m.E.push_back({a, d});
  }
  for (void* f : b.ent[2]) {
    RFace F; F.e = toIdx(c, b, 1, MF_Edges(f, 1, 0), "MF_Edges");
    REQ(c, F.e.size() >= 2, "face-edges", "face has %zu edges", F.e.size());
    for (size_t i = 0; i < F.e.size(); i++) { int d = MF_EdgeDir_i(f, i); REQ(c, d == 0 || d == 1, "edge-dir", "MF_EdgeDir_i=%d", d); F.d.push_back(d); F.v.push_back(m.E[F.e[i]][!d]); }
    m.F.push_back(F);
  }
  m.topo = b.ent[3].empty() ? 2 : 3;
  for (void* r : b.ent[3]) {
    RReg R; R.f = toIdx(c, b, 2, MR_Faces(r), "MR_Faces");
    for (size_t i = 0; i < R.f.size(); i++) { int d = MR_FaceDir_i(r, i); REQ(c, d == 0 || d == 1, "face-dir", "MR_FaceDir_i=%d", d); R.d.push_back(d); }
    R.type = MR_ElementType(r);
    m.R.push_back(R);
  }
  m.derive();
  return m;
}

static void cmpSet(Case& c, const char* tag, const char* q, int i, VI got, VI want) {
  VI g = sorted(got), w = sorted(want);
  REQ(c, g == w, "adjacency", "%s: %s of entity %d gives %s, expected %s", tag, q, i, str(g).c_str(), str(w).c_str());
}

static VI ids(Case& c, const BM& b, int d, const VI& v) { VI r; for (int i : v) r.push_back(MEnt_ID(b.ent[d][i])); return r; }

void checkAdjacency(Case& c, const BM& b, const RMesh& m, const char* tag, int level) {
  std::vector<int> buf(65536);
  RMesh& mm = const_cast<RMesh&>(m); if (!m.upok) mm.buildUp();
  int n; char q[64];
#define IDCHK(call, name, i, d, want) do { n = -12345; call; REQ(c, n >= 0 && n <= 60000, "adjacency", "%s: %s of %d wrote count %d", tag, name, i, n); \
    cmpSet(c, tag, name, i, VI(buf.begin(), buf.begin() + n), ids(c, b, d, want)); } while (0)
  for (int v = 0; v < m.n(0); v++) {
    void* p = b.ent[0][v];
    VI we = m.up(0, v, 1), wf = m.up(0, v, 2), wr = m.up(0, v, 3), wv;
    for (int e : we) wv.push_back(m.E[e][0] == v ? m.E[e][1] : m.E[e][0]);
    cmpSet(c, tag, "MV_Edges", v, toIdx(c, b, 1, MV_Edges(p), "MV_Edges"), we);
    cmpSet(c, tag, "MV_Faces", v, toIdx(c, b, 2, MV_Faces(p), "MV_Faces"), wf);
    cmpSet(c, tag, "MV_Regions", v, toIdx(c, b, 3, MV_Regions(p), "MV_Regions"), wr);
    cmpSet(c, tag, "MV_AdjVertices", v, toIdx(c, b, 0, MV_AdjVertices(p), "MV_AdjVertices"), wv);
    if (level >= 2) {
      REQ(c, MV_Num_Edges(p) == (int)we.size(), "adjacency-count", "%s: MV_Num_Edges=%d expected %zu", tag, MV_Num_Edges(p), we.size());
      REQ(c, MV_Num_Faces(p) == (int)wf.size(), "adjacency-count", "%s: MV_Num_Faces=%d expected %zu", tag, MV_Num_Faces(p), wf.size());
      REQ(c, MV_Num_Regions(p) == (int)wr.size(), "adjacency-count", "%s: MV_Num_Regions=%d expected %zu", tag, MV_Num_Regions(p), wr.size());
      REQ(c, MV_Num_AdjVertices(p) == (int)wv.size(), "adjacency-count", "%s: MV_Num_AdjVertices=%d expected %zu", tag, MV_Num_AdjVertices(p), wv.size());
      IDCHK(MV_EdgeIDs(p, &n, buf.data()), "MV_EdgeIDs", v, 1, we);
      IDCHK(MV_FaceIDs(p, &n, buf.data()), "MV_FaceIDs", v, 2, wf);
      IDCHK(MV_RegionIDs(p, &n, buf.data()), "MV_RegionIDs", v, 3, wr);
    }
  }
  for (int e = 0; e < m.n(1); e++) {
    void* p = b.ent[1][e];
    VI wf = m.up(1, e, 2), wr = m.up(1, e, 3);
    for (int k : {0, 1}) {
      REQ(c, ME_Vertex(p, k) == b.ent[0][m.E[e][k]], "edge-vertex", "%s: ME_Vertex(%d,%d) wrong", tag, e, k);
      REQ(c, ME_OppVertex(p, b.ent[0][m.E[e][k]]) == b.ent[0][m.E[e][!k]], "edge-vertex", "%s: ME_OppVertex of edge %d wrong", tag, e);
    }
    cmpSet(c, tag, "ME_Faces", e, toIdx(c, b, 2, ME_Faces(p), "ME_Faces"), wf);
    cmpSet(c, tag, "ME_Regions", e, toIdx(c, b, 3, ME_Regions(p), "ME_Regions"), wr);
    if (level >= 2) {
      REQ(c, ME_Num_Faces(p) == (int)wf.size(), "adjacency-count", "%s: ME_Num_Faces=%d expected %zu", tag, ME_Num_Faces(p), wf.size());
      REQ(c, ME_Num_Regions(p) == (int)wr.size(), "adjacency-count", "%s: ME_Num_Regions=%d expected %zu", tag, ME_Num_Regions(p), wr.size());
      IDCHK(ME_FaceIDs(p, &n, buf.data()), "ME_FaceIDs", e, 2, wf);
      IDCHK(ME_RegionIDs(p, &n, buf.data()), "ME_RegionIDs", e, 3, wr);
      for (int k : {0, 1}) {
        REQ(c, ME_VertexID(p, k) == MV_ID(b.ent[0][m.E[e][k]]), "edge-vertex", "%s: ME_VertexID(%d,%d) wrong", tag, e, k);
        REQ(c, ME_OppVertexID(p, MV_ID(b.ent[0][m.E[e][k]])) == MV_ID(b.ent[0][m.E[e][!k]]), "edge-vertex", "%s: ME_OppVertexID of edge %d wrong", tag, e);
        REQ(c, ME_UsesEntity(p, b.ent[0][m.E[e][k]], MVERTEX), "uses-entity", "%s: ME_UsesEntity false for its vertex", tag);
      }
      REQ(c, MVs_CommonEdge(b.ent[0][m.E[e][0]], b.ent[0][m.E[e][1]]) == p, "common-edge", "%s: MVs_CommonEdge(%d,%d) is not edge %d", tag, m.E[e][0], m.E[e][1], e);
      REQ(c, MVs_CommonEdge(b.ent[0][m.E[e][1]], b.ent[0][m.E[e][0]]) == p, "common-edge", "%s: MVs_CommonEdge reversed is not edge %d", tag, e);
    }
  }
  std::vector<std::set<int>> fvs(m.n(2)), fes(m.n(2));
  for (int f = 0; f < m.n(2); f++) { fvs[f] = std::set<int>(m.F[f].v.begin(), m.F[f].v.end()); fes[f] = std::set<int>(m.F[f].e.begin(), m.F[f].e.end()); }
  for (int f = 0; f < m.n(2); f++) {
    void* p = b.ent[2][f];
    VI wr = m.up(2, f, 3), wa;
    cmpSet(c, tag, "MF_Regions", f, toIdx(c, b, 3, MF_Regions(p), "MF_Regions"), wr);
    cmpSet(c, tag, "MF_Vertices", f, toIdx(c, b, 0, MF_Vertices(p, 1, 0), "MF_Vertices"), m.F[f].v);
    cmpSet(c, tag, "MF_Edges", f, toIdx(c, b, 1, MF_Edges(p, 1, 0), "MF_Edges"), m.F[f].e);
    int nv = m.F[f].v.size();
    REQ(c, MF_Num_Vertices(p) == nv && MF_Num_Edges(p) == nv, "adjacency-count", "%s: MF_Num_Vertices/Edges=%d/%d expected %d", tag, MF_Num_Vertices(p), MF_Num_Edges(p), nv);
    int wt = nv < 3 ? FUNKNOWN : nv == 3 ? TRI : nv == 4 ? QUAD : POLYGON;
    REQ(c, MF_ElementType(p) == wt, "element-type", "%s: MF_ElementType=%d expected %d", tag, (int)MF_ElementType(p), wt);
    if (level >= 2) {
      IDCHK(MF_RegionIDs(p, &n, buf.data()), "MF_RegionIDs", f, 3, wr);
      IDCHK(MF_VertexIDs(p, 1, 0, &n, buf.data()), "MF_VertexIDs", f, 0, m.F[f].v);
      IDCHK(MF_EdgeIDs(p, 1, 0, &n, buf.data()), "MF_EdgeIDs", f, 1, m.F[f].e);
      for (int v = 0; v < m.n(0); v++) REQ(c, (MF_UsesEntity(p, b.ent[0][v], MVERTEX) != 0) == (fvs[f].count(v) != 0), "uses-entity", "%s: MF_UsesEntity(face %d, vertex %d)", tag, f, v);
      for (int e = 0; e < m.n(1); e++) REQ(c, (MF_UsesEntity(p, b.ent[1][e], MEDGE) != 0) == (fes[f].count(e) != 0), "uses-entity", "%s: MF_UsesEntity(face %d, edge %d)", tag, f, e);
      std::vector<void*> vv, ee; for (int x : m.F[f].v) vv.push_back(b.ent[0][x]); for (int x : m.F[f].e) ee.push_back(b.ent[1][x]);
      REQ(c, MVs_CommonFace(nv, vv.data()) == p, "common-face", "%s: MVs_CommonFace of face %d's vertices is not the face", tag, f);
      MFace_ptr cf = MEs_CommonFace(nv, ee.data());
      REQ(c, cf == p, "common-face", "%s: MEs_CommonFace of face %d's edges is not the face", tag, f);
      if (m.topo == 2 && MEnt_RepType(p) == F1) {
        bool mani = true; VI one; std::set<int> as;
        for (int e : m.F[f].e) { if (m.eF[e].size() > 2) mani = false; for (int g : m.eF[e]) if (g != f) { one.push_back(g); as.insert(g); } }
        if (mani) {
          VI g = toIdx(c, b, 2, MF_AdjFaces(p), "MF_AdjFaces"), w(as.begin(), as.end());
          cmpSet(c, tag, "MF_AdjFaces", f, g, g.size() == w.size() ? w : one);
          REQ(c, MF_Num_AdjFaces(p) == (int)g.size(), "adjacency-count", "%s: MF_Num_AdjFaces=%d, list has %zu", tag, MF_Num_AdjFaces(p), g.size());
        }
      }
      double xyz[MAXPV3 > 64 ? MAXPV3 : 64][3]; MF_Coords(p, &n, xyz);
      REQ(c, n == nv, "coords", "%s: MF_Coords count %d", tag, n);
    }
  }
  for (int r = 0; r < m.n(3); r++) {
    void* p = b.ent[3][r];
    VI wv = m.regVerts(r), we = m.regEdges(r), wa; std::set<int> as;
    for (int f : m.R[r].f) for (int s : m.up(2, f, 3)) if (s != r) as.insert(s);
    wa = VI(as.begin(), as.end());
    cmpSet(c, tag, "MR_Faces", r, toIdx(c, b, 2, MR_Faces(p), "MR_Faces"), m.R[r].f);
    if (level <= 0) continue;  // regions may be open
    cmpSet(c, tag, "MR_Edges", r, toIdx(c, b, 1, MR_Edges(p), "MR_Edges"), we);
    cmpSet(c, tag, "MR_Vertices", r, toIdx(c, b, 0, MR_Vertices(p), "MR_Vertices"), wv);
    // a neighbour may be listed once or once per shared face
    VI wam; for (int f : m.R[r].f) for (int s : m.up(2, f, 3)) if (s != r) wam.push_back(s);
    VI ga = toIdx(c, b, 3, MR_AdjRegions(p), "MR_AdjRegions");
    cmpSet(c, tag, "MR_AdjRegions", r, ga, ga.size() == wa.size() ? wa : wam);
    REQ(c, MR_Num_Faces(p) == (int)m.R[r].f.size(), "adjacency-count", "%s: MR_Num_Faces=%d expected %zu", tag, MR_Num_Faces(p), m.R[r].f.size());
    REQ(c, MR_Num_Edges(p) == (int)we.size(), "adjacency-count", "%s: MR_Num_Edges=%d expected %zu", tag, MR_Num_Edges(p), we.size());
    REQ(c, MR_Num_Vertices(p) == (int)wv.size(), "adjacency-count", "%s: MR_Num_Vertices=%d expected %zu", tag, MR_Num_Vertices(p), wv.size());
    if (level >= 2) {
      IDCHK(MR_FaceIDs(p, &n, buf.data()), "MR_FaceIDs", r, 2, m.R[r].f);
      IDCHK(MR_EdgeIDs(p, &n, buf.data()), "MR_EdgeIDs", r, 1, we);
      IDCHK(MR_VertexIDs(p, &n, buf.data()), "MR_VertexIDs", r, 0, wv);
      IDCHK(MR_AdjRegionIDs(p, &n, buf.data()), "MR_AdjRegionIDs", r, 3, (n == (int)wa.size() ? wa : wam));
      std::set<int> sv(wv.begin(), wv.end()), se(we.begin(), we.end()), sf(m.R[r].f.begin(), m.R[r].f.end());
      for (int v = 0; v < m.n(0); v++) REQ(c, (MR_UsesEntity(p, b.ent[0][v], MVERTEX) != 0) == (sv.count(v) != 0), "uses-entity", "%s: MR_UsesEntity(region %d, vertex %d)", tag, r, v);
      for (int e = 0; e < m.n(1); e++) REQ(c, (MR_UsesEntity(p, b.ent[1][e], MEDGE) != 0) == (se.count(e) != 0), "uses-entity", "%s: MR_UsesEntity(region %d, edge %d)", tag, r, e);
      for (int f = 0; f < m.n(2); f++) REQ(c, (MR_UsesEntity(p, b.ent[2][f], MFACE) != 0) == (sf.count(f) != 0), "uses-entity", "%s: MR_UsesEntity(region %d, face %d)", tag, r, f);
    }
  }
}

void checkOrientation(Case& c, const BM& b, const RMesh& m, const char* tag) {
  int buf[1024], n;
  for (int f = 0; f < m.n(2); f++) {
    void* p = b.ent[2][f]; const RFace& F = m.F[f]; int nv = F.v.size();
    for (int s = -1; s < nv; s++) for (int dir = 1; dir >= 0; dir--) {
      void* sv = s < 0 ? nullptr : b.ent[0][F.v[s]];
      VI gv = toIdx(c, b, 0, MF_Vertices(p, dir, sv), "MF_Vertices"), ge = toIdx(c, b, 1, MF_Edges(p, dir, sv), "MF_Edges");
      REQ(c, (int)gv.size() == nv && (int)ge.size() == nv, "face-order", "%s: face %d: %zu vertices %zu edges, expected %d", tag, f, gv.size(), ge.size(), nv);
      VI cyc = F.v; if (!dir) std::reverse(cyc.begin(), cyc.end());
      REQ(c, sameCycle(gv, cyc, false), "face-order", "%s: MF_Vertices(face %d, dir=%d, start=%d) = %s is not a rotation of %s", tag, f, dir, s < 0 ? -1 : F.v[s], str(gv).c_str(), str(cyc).c_str());
      if (s >= 0) REQ(c, gv[0] == F.v[s], "face-order", "%s: MF_Vertices(face %d, dir=%d) starts at %d, requested %d", tag, f, dir, gv[0], F.v[s]);
      // edge i joins vertex i and i+1 of the traversal in that direction
      int first = -1;
      if (s >= 0) { REQ(c, m.E[ge[0]][0] == F.v[s] || m.E[ge[0]][1] == F.v[s], "face-order", "%s: MF_Edges(face %d, dir=%d, start %d): first edge %d does not contain the start vertex", tag, f, dir, F.v[s], ge[0]); }
      // find the oriented traversal: consecutive edges must chain in cycle order
      VI ce; for (int i = 0; i < nv; i++) ce.push_back(F.e[i]); if (!dir) std::reverse(ce.begin(), ce.end());
      REQ(c, sameCycle(ge, ce, false), "face-order", "%s: MF_Edges(face %d, dir=%d, start=%d) = %s is not a rotation of %s", tag, f, dir, s < 0 ? -1 : F.v[s], str(ge).c_str(), str(ce).c_str());
      if (s >= 0) {
        int want = dir ? F.e[s] : F.e[(s - 1 + nv) % nv];
        REQ(c, ge[0] == want, "face-order", "%s: MF_Edges(face %d, dir=%d, start vertex %d) starts with edge %d, expected %d", tag, f, dir, F.v[s], ge[0], want);
      }
      (void)first;
      if (s >= 0) {
        n = 0; MF_VertexIDs(p, dir, MV_ID(sv), &n, buf);
        REQ(c, n == nv, "face-order", "%s: MF_VertexIDs count %d", tag, n);
        for (int i = 0; i < n; i++) REQ(c, buf[i] == MV_ID(b.ent[0][gv[i]]), "face-order", "%s: MF_VertexIDs(face %d, dir=%d, start %d) differs from MF_Vertices at %d", tag, f, dir, F.v[s], i);
        n = 0; MF_EdgeIDs(p, dir, MV_ID(sv), &n, buf);
        REQ(c, n == nv, "face-order", "%s: MF_EdgeIDs count %d", tag, n);
        for (int i = 0; i < n; i++) REQ(c, buf[i] == ME_ID(b.ent[1][ge[i]]), "face-order", "%s: MF_EdgeIDs(face %d, dir=%d, start %d) differs from MF_Edges at %d", tag, f, dir, F.v[s], i);
      }
    }
    // directions by index and by edge
    VI e0 = toIdx(c, b, 1, MF_Edges(p, 1, 0), "MF_Edges");
    for (int i = 0; i < nv; i++) {
      int k = std::find(F.e.begin(), F.e.end(), e0[i]) - F.e.begin();
      REQ(c, MF_EdgeDir(p, b.ent[1][e0[i]]) == F.d[k], "edge-dir", "%s: MF_EdgeDir(face %d, edge %d)=%d expected %d", tag, f, e0[i], MF_EdgeDir(p, b.ent[1][e0[i]]), F.d[k]);
      REQ(c, MF_EdgeDir_i(p, i) == F.d[k], "edge-dir", "%s: MF_EdgeDir_i(face %d, %d)=%d expected %d", tag, f, i, MF_EdgeDir_i(p, i), F.d[k]);
    }
    // coordinates in the order of the vertices
    double xyz[256][3]; n = 0; MF_Coords(p, &n, xyz);
    VI v0 = toIdx(c, b, 0, MF_Vertices(p, 1, 0), "MF_Vertices");
    REQ(c, n == nv, "coords", "%s: MF_Coords count", tag);
    for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) REQ(c, xyz[i][k] == m.X[v0[i]][k], "coords", "%s: MF_Coords(face %d) entry %d", tag, f, i);
    // sides
    VI side(2, -1);
    for (int r : m.fR[f]) for (size_t k = 0; k < m.R[r].f.size(); k++) if (m.R[r].f[k] == f) side[m.R[r].d[k] ? 0 : 1] = r;
    for (int s : {0, 1}) {
      void* g = MF_Region(p, s);
      REQ(c, (g ? b.find(3, g) : -1) == side[s], "face-side", "%s: MF_Region(face %d, side %d) is %d, expected %d", tag, f, s, g ? b.find(3, g) : -1, side[s]);
      int id = MF_RegionID(p, s);
      REQ(c, id == (side[s] < 0 ? 0 : MR_ID(b.ent[3][side[s]])), "face-side", "%s: MF_RegionID(face %d, side %d)=%d", tag, f, s, id);
    }
  }
  for (int r = 0; r < m.n(3); r++) {
    void* p = b.ent[3][r];
    VI gf = toIdx(c, b, 2, MR_Faces(p), "MR_Faces");
    for (size_t i = 0; i < gf.size(); i++) {
      int k = std::find(m.R[r].f.begin(), m.R[r].f.end(), gf[i]) - m.R[r].f.begin();
      REQ(c, k < (int)m.R[r].f.size(), "face-dir", "%s: MR_Faces(region %d) lists face %d", tag, r, gf[i]);
      REQ(c, MR_FaceDir(p, b.ent[2][gf[i]]) == m.R[r].d[k], "face-dir", "%s: MR_FaceDir(region %d, face %d)=%d expected %d", tag, r, gf[i], MR_FaceDir(p, b.ent[2][gf[i]]), m.R[r].d[k]);
      REQ(c, MR_FaceDir_i(p, i) == m.R[r].d[k], "face-dir", "%s: MR_FaceDir_i(region %d, %zu)", tag, r, i);
    }
    for (int f = 0; f < m.n(2); f++) if (std::find(gf.begin(), gf.end(), f) == gf.end()) { REQ(c, MR_FaceDir(p, b.ent[2][f]) == -1, "face-dir", "%s: MR_FaceDir of a face not in region is %d", tag, MR_FaceDir(p, b.ent[2][f])); break; }
    double xyz[512][3]; int nn = 0; 
    VI gv = toIdx(c, b, 0, MR_Vertices(p), "MR_Vertices");
    if (gv.size() < 512) {
      MR_Coords(p, &nn, xyz);
      REQ(c, nn == (int)gv.size(), "coords", "%s: MR_Coords count %d expected %zu", tag, nn, gv.size());
      for (int i = 0; i < nn; i++) for (int k = 0; k < 3; k++) REQ(c, xyz[i][k] == m.X[gv[i]][k], "coords", "%s: MR_Coords(region %d) entry %d", tag, r, i);
    }
  }
}

// documented vertex order of standard regions (up to the symmetries of the type)
void checkRegionOrder(Case& c, const BM& b, const RMesh& m, const char* tag) {
  static const int REV[5][12][2] = {{{0}}, {{0,1},{1,2},{2,0},{0,3},{1,3},{2,3}}, {{0,1},{1,2},{2,3},{3,0},{0,4},{1,4},{2,4},{3,4}},
    {{0,1},{1,2},{2,0},{3,4},{4,5},{5,3},{0,3},{1,4},{2,5}}, {{0,1},{1,2},{2,3},{3,0},{4,5},{5,6},{6,7},{7,4},{0,4},{1,5},{2,6},{3,7}}};
  static const int NE[5] = {0, 6, 8, 9, 12}, NV[5] = {0, 4, 5, 6, 8};
  (void)REV;
  for (int r = 0; r < m.n(3); r++) {
    void* p = b.ent[3][r]; int t = m.R[r].type;
    REQ(c, MR_ElementType(p) == t, "element-type", "%s: MR_ElementType(region %d)=%d expected %d", tag, r, (int)MR_ElementType(p), t);
    VI gv = toIdx(c, b, 0, MR_Vertices(p), "MR_Vertices");
    VI ge = toIdx(c, b, 1, MR_Edges(p), "MR_Edges");
    REQ(c, (int)ge.size() == (int)m.regEdges(r).size(), "region-order", "%s: MR_Edges count", tag);
    if (t < TET || t > HEX) continue;
    REQ(c, (int)gv.size() == NV[t] && (int)ge.size() == NE[t], "region-order", "%s: type %d with %zu vertices, %zu edges", tag, t, gv.size(), ge.size());
    // every template face, outward, must be a face of the region used outward
    for (int k = 0; k < STD_NF[t]; k++) {
      VI f; for (int j = 0; j < STD_FV[t][k][0]; j++) f.push_back(gv[STD_FV[t][k][j + 1]]);
      bool ok = false;
      for (size_t i = 0; i < m.R[r].f.size() && !ok; i++) {
        VI g = m.F[m.R[r].f[i]].v; if (!m.R[r].d[i]) std::reverse(g.begin(), g.end());
        ok = sameCycle(f, g, false);
      }
      REQ(c, ok, "region-order", "%s: MR_Vertices(region %d, type %d) = %s: template face %d %s is not an outward face of the region", tag, r, t, str(gv).c_str(), k, str(f).c_str());
    }
  }
}

void checkDatabase(Case& c, const BM& b, const char* tag, bool contiguous) {
  Mesh_ptr m = b.m;
  for (int d = 0; d < 4; d++) {
    int n = d == 0 ? MESH_Num_Vertices(m) : d == 1 ? MESH_Num_Edges(m) : d == 2 ? MESH_Num_Faces(m) : MESH_Num_Regions(m);
    REQ(c, n == (int)b.ent[d].size(), "count", "%s: mesh has %d %s entities, expected %zu", tag, n, DN[d], b.ent[d].size());
    std::set<int> seen, idset;
    for (int i = 0; i < n; i++) {
      void* p = d == 0 ? MESH_Vertex(m, i) : d == 1 ? MESH_Edge(m, i) : d == 2 ? MESH_Face(m, i) : MESH_Region(m, i);
      int k = p ? b.find(d, p) : -1;
      REQ(c, k >= 0, "index-access", "%s: %s %d of %d by index is not a live entity", tag, DN[d], i, n);
      REQ(c, seen.insert(k).second, "index-access", "%s: %s listed twice by index", tag, DN[d]);
      REQ(c, MEnt_Dim(p) == d, "entity-dim", "%s: MEnt_Dim=%d", tag, (int)MEnt_Dim(p));
      int id = MEnt_ID(p);
      REQ(c, id > 0, "entity-id", "%s: %s ID %d", tag, DN[d], id);
      REQ(c, idset.insert(id).second, "entity-id", "%s: %s ID %d used twice", tag, DN[d], id);
      if (contiguous) REQ(c, id >= 1 && id <= n, "entity-id", "%s: %s ID %d not in 1..%d", tag, DN[d], id, n);
      void* q = d == 0 ? MESH_VertexFromID(m, id) : d == 1 ? MESH_EdgeFromID(m, id) : d == 2 ? MESH_FaceFromID(m, id) : MESH_RegionFromID(m, id);
      REQ(c, q == p, "from-id", "%s: lookup of %s ID %d does not return the entity", tag, DN[d], id);
      REQ(c, MESH_EntityFromID(m, (MType)d, id) == p, "from-id", "%s: MESH_EntityFromID of %s ID %d", tag, DN[d], id);
      REQ(c, MEnt_Mesh(p) == m, "entity-mesh", "%s: MEnt_Mesh wrong", tag);
    }
    void* p = d == 0 ? MESH_Vertex(m, n) : d == 1 ? MESH_Edge(m, n) : d == 2 ? MESH_Face(m, n) : MESH_Region(m, n);
    REQ(c, !p, "index-access", "%s: %s by index %d beyond the end is not NULL", tag, DN[d], n);
    int idx = 0, k = 0; std::set<void*> it;
    while ((p = d == 0 ? MESH_Next_Vertex(m, &idx) : d == 1 ? MESH_Next_Edge(m, &idx) : d == 2 ? MESH_Next_Face(m, &idx) : MESH_Next_Region(m, &idx))) {
      REQ(c, b.find(d, p) >= 0, "iteration", "%s: iteration returns a dead %s", tag, DN[d]);
      REQ(c, it.insert(p).second, "iteration", "%s: iteration returns a %s twice", tag, DN[d]);
      k++;
    }
    REQ(c, k == n, "iteration", "%s: iteration returns %d of %d %s entities", tag, k, n, DN[d]);
    int absent = 1; while (idset.count(absent)) absent++;
    p = d == 0 ? MESH_VertexFromID(m, absent) : d == 1 ? MESH_EdgeFromID(m, absent) : d == 2 ? MESH_FaceFromID(m, absent) : MESH_RegionFromID(m, absent);
    REQ(c, !p, "from-id", "%s: lookup of absent %s ID %d is not NULL", tag, DN[d], absent);
  }
}

void checkClassifn(Case& c, const BM& b, const RMesh& m, const char* tag) {
  for (int d = 0; d < 4; d++) if (!m.gd[d].empty()) for (int i = 0; i < m.n(d); i++) {
    REQ(c, MEnt_GEntDim(b.ent[d][i]) == m.gd[d][i] && MEnt_GEntID(b.ent[d][i]) == m.gi[d][i], "classification", "%s: %s %d classified (%d,%d), expected (%d,%d)", tag, DN[d], i,
        MEnt_GEntDim(b.ent[d][i]), MEnt_GEntID(b.ent[d][i]), m.gd[d][i], m.gi[d][i]);
  }
}
void checkCoords(Case& c, const BM& b, const RMesh& m, const char* tag, double tol) {
  for (int i = 0; i < m.n(0); i++) {
    double x[3]; MV_Coords(b.ent[0][i], x);
    for (int k = 0; k < 3; k++) REQ(c, std::fabs(x[k] - m.X[i][k]) <= tol * (1 + std::fabs(m.X[i][k])), "coords", "%s: vertex %d coordinate %d is %.17g, expected %.17g", tag, i, k, x[k], m.X[i][k]);
  }
}

void checkValid(Case& c, const RMesh& m, const char* tag, bool closedRegions) {
  std::set<std::pair<int, int>> es;
  for (int e = 0; e < m.n(1); e++) {
    REQ(c, m.E[e][0] != m.E[e][1], "degenerate-edge", "%s: edge %d joins vertex %d to itself", tag, e, m.E[e][0]);
    REQ(c, es.insert(std::minmax(m.E[e][0], m.E[e][1])).second, "duplicate-edge", "%s: two edges join %d and %d", tag, m.E[e][0], m.E[e][1]);
  }
  std::set<VI> fs;
  for (int f = 0; f < m.n(2); f++) {
    const RFace& F = m.F[f]; int n = F.v.size();
    REQ(c, n >= 3, "degenerate-face", "%s: face %d has %d edges", tag, f, n);
    REQ(c, (int)std::set<int>(F.v.begin(), F.v.end()).size() == n, "degenerate-face", "%s: face %d repeats a vertex: %s", tag, f, str(F.v).c_str());
    for (int i = 0; i < n; i++) {
      int a = m.E[F.e[i]][!F.d[i]], b2 = m.E[F.e[i]][F.d[i]];
      REQ(c, a == F.v[i] && b2 == F.v[(i + 1) % n], "open-face", "%s: face %d: edge %d (%d->%d) does not join vertices %d and %d of the cycle", tag, f, F.e[i], a, b2, F.v[i], F.v[(i + 1) % n]);
    }
    REQ(c, fs.insert(sorted(F.v)).second, "duplicate-face", "%s: two faces on vertices %s", tag, str(sorted(F.v)).c_str());
    int in = 0, out = 0;
    for (int r : m.fR[f]) for (size_t k = 0; k < m.R[r].f.size(); k++) if (m.R[r].f[k] == f) { if (m.R[r].d[k]) out++; else in++; }
    REQ(c, in <= 1 && out <= 1, "face-side", "%s: face %d is used by %d regions one way and %d the other", tag, f, out, in);
  }
  if (closedRegions) for (int r = 0; r < m.n(3); r++) {
    std::map<int, int> use;
    REQ(c, m.R[r].f.size() >= 4, "degenerate-region", "%s: region %d has %zu faces", tag, r, m.R[r].f.size());
    for (size_t k = 0; k < m.R[r].f.size(); k++) {
      const RFace& F = m.F[m.R[r].f[k]];
      for (size_t i = 0; i < F.e.size(); i++) {
        int s = (F.d[i] == m.R[r].d[k]) ? 1 : 4;  // forward / backward along the edge
        use[F.e[i]] += s;
      }
    }
    for (auto& kv : use) REQ(c, kv.second == 5, "open-region", "%s: region %d uses edge %d %d times forward and %d backward", tag, r, kv.first, kv.second % 4, kv.second / 4);
  }
}
