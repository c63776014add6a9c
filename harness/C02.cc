// C02: in the reduced representations R1 and R2 the edges and faces of a solid mesh are made on demand;
// what the queries answer about them is compared, by vertices, with the mesh the regions describe.
#include "rmesh.h"

struct Red {
  Case& c; RMesh m; BM b; RepType rep; VI regOf;  // regOf[i]: index of model region i in b
  VI vids(List_ptr l) { VI r; if (!l) return r; int i = 0; void* p; while ((p = List_Next_Entry(l, &i))) r.push_back(b.find(0, p)); List_Delete(l); return r; }
  void* R(int i) { return b.ent[3][regOf[i]]; }
  int ridx(void* p) { int k = b.find(3, p); for (size_t i = 0; i < regOf.size(); i++) if (regOf[i] == k) return i; return -1; }
  int fidx(void* f) { VI q = sorted(vids(MF_Vertices(f, 1, 0))); for (int i = 0; i < m.n(2); i++) if (sorted(m.F[i].v) == q) return i; return -1; }
  int eidx(void* e) { int a = b.find(0, ME_Vertex(e, 0)), d = b.find(0, ME_Vertex(e, 1)); return a < 0 || d < 0 ? -1 : m.edgeBetween(a, d); }
  template <class G> VI ix(List_ptr l, G g) { VI r; if (!l) return r; int i = 0; void* p; while ((p = List_Next_Entry(l, &i))) r.push_back(g(p)); List_Delete(l); return sorted(r); }
  VI fl(List_ptr l) { return ix(l, [&](void* p) { return fidx(p); }); }
  VI el(List_ptr l) { return ix(l, [&](void* p) { return eidx(p); }); }
  VI rl(List_ptr l) { return ix(l, [&](void* p) { return ridx(p); }); }
  template <class G> VI ids(G g) { int n = -7; std::vector<int> q(4096, -7); g(&n, q.data()); REQ(c, n >= 0 && n < 4096, "count", "an ID query returned the count %d", n); return VI(q.begin(), q.begin() + n); }
  VI rids(VI q) { VI r; for (int k : q) r.push_back(ridx(k >= 1 ? (void*)MESH_RegionFromID(b.m, k) : 0)); return sorted(r); }
  VI vofids(VI q) { VI r; for (int k : q) r.push_back(b.find(0, k >= 1 ? (void*)MESH_VertexFromID(b.m, k) : 0)); return r; }
  int dirOf(int r, int f) { for (size_t k = 0; k < m.R[r].f.size(); k++) if (m.R[r].f[k] == f) return m.R[r].d[k]; return -1; }
  void* faceOf(int i, int side = 0) { int r = m.fR[i][side % m.fR[i].size()]; List_ptr l = MR_Faces(R(r)); void* g = 0, *p; int k = 0; while ((p = List_Next_Entry(l, &k))) if (fidx(p) == i) g = p; List_Delete(l); REQ(c, g, "face", "MR_Faces does not list face %s of its region", str(m.F[i].v).c_str()); return g; }
  void* edgeOf(int i) { List_ptr l = MR_Edges(R(m.up(1, i, 3)[0])); void* g = 0, *p; int k = 0; while ((p = List_Next_Entry(l, &k))) if (eidx(p) == i) g = p; List_Delete(l); REQ(c, g, "edge", "MR_Edges does not list edge %d-%d of its region", m.E[i][0], m.E[i][1]); return g; }
  // does face f, as the object g orders it, point the same way as in the model
  int faceDir(void* g, int f, int r) { VI q = vids(MF_Vertices(g, 1, 0)); REQ(c, sameCycle(q, m.F[f].v, true), "face-vertices", "a face has vertices %s, should be the cycle %s", str(q).c_str(), str(m.F[f].v).c_str()); int d = dirOf(r, f); if (d < 0) return -1; return q.size() && sameCycle(q, m.F[f].v, false) ? d : !d; }
  VI some(int n, int k) { VI r; for (int i = 0; i < n; i++) r.push_back(i); if (n > k) { c.s.shuffle(r); r.resize(k); } return r; }
  bool full() { return rep == R1; }
  void EQ(const VI& got, const VI& want, const char* q, const std::string& of) { REQ(c, sorted(got) == sorted(want), "adjacency", "%s of %s: got %s, should be %s", q, of.c_str(), str(sorted(got)).c_str(), str(sorted(want)).c_str()); }
  void EQN(int got, int want, const char* q, const std::string& of) { REQ(c, got == want, "adjacency", "%s of %s: got %d, should be %d", q, of.c_str(), got, want); }

  void vertices() {
    REQ(c, MESH_Num_Vertices(b.m) == m.n(0) && MESH_Num_Regions(b.m) == m.n(3), "counts", "mesh has %d vertices and %d regions, should have %d and %d", MESH_Num_Vertices(b.m), MESH_Num_Regions(b.m), m.n(0), m.n(3));
    for (int i : some(m.n(0), 16)) {
      void* v = b.ent[0][i]; std::string s = "vertex " + std::to_string(i);
      VI vr = m.up(0, i, 3), vf = m.up(0, i, 2), adj;
      for (int e : m.vE[i]) adj.push_back(m.E[e][0] == i ? m.E[e][1] : m.E[e][0]);
      EQ(rl(MV_Regions(v)), vr, "MV_Regions", s); EQN(MV_Num_Regions(v), vr.size(), "MV_Num_Regions", s);
      EQ(rids(ids([&](int* n, int* q) { MV_RegionIDs(v, n, q); })), vr, "MV_RegionIDs", s);
      EQ(fl(MV_Faces(v)), vf, "MV_Faces", s); EQN(MV_Num_Faces(v), vf.size(), "MV_Num_Faces", s);
      if (full()) {
        EQ(el(MV_Edges(v)), m.vE[i], "MV_Edges", s); EQN(MV_Num_Edges(v), m.vE[i].size(), "MV_Num_Edges", s);
        EQ(vids(MV_AdjVertices(v)), adj, "MV_AdjVertices", s); EQN(MV_Num_AdjVertices(v), adj.size(), "MV_Num_AdjVertices", s);
        for (int k : some(m.n(0), 6)) { void* e = MVs_CommonEdge(v, b.ent[0][k]); int w = k == i ? -1 : m.edgeBetween(i, k); if (k != i) REQ(c, (e ? eidx(e) : -1) == w, "adjacency", "MVs_CommonEdge of vertices %d and %d: got %d, should be %d", i, k, e ? eidx(e) : -1, w); }
      }
    }
  }
  void edges() {
    VI S = some(m.n(1), 10);
    for (int i : S) {
      void* e = edgeOf(i); std::string s = "edge " + std::to_string(m.E[i][0]) + "-" + std::to_string(m.E[i][1]);
      EQ(fl(ME_Faces(e)), m.eF[i], "ME_Faces", s); EQN(ME_Num_Faces(e), m.eF[i].size(), "ME_Num_Faces", s);
      EQ(rl(ME_Regions(e)), m.up(1, i, 3), "ME_Regions", s); EQN(ME_Num_Regions(e), m.up(1, i, 3).size(), "ME_Num_Regions", s);
      EQ(rids(ids([&](int* n, int* q) { ME_RegionIDs(e, n, q); })), m.up(1, i, 3), "ME_RegionIDs", s);
      for (int v : some(m.n(0), 8)) EQN(!!ME_UsesEntity(e, b.ent[0][v], MVERTEX), v == m.E[i][0] || v == m.E[i][1], "ME_UsesEntity(vertex)", s);
      REQ(c, b.find(0, ME_OppVertex(e, b.ent[0][m.E[i][0]])) == m.E[i][1], "adjacency", "ME_OppVertex of %s", s.c_str());
      double want = 0; for (int k = 0; k < 3; k++) want += pow(m.X[m.E[i][0]][k] - m.X[m.E[i][1]][k], 2);
      REQ(c, fabs(ME_Len(e) - sqrt(want)) <= 1e-9 * (1 + sqrt(want)), "length", "ME_Len of %s is %g, should be %g", s.c_str(), ME_Len(e), sqrt(want));
      int k = S[c.s.draw(S.size())];
      EQN(!!MEs_AreSame(e, edgeOf(k)), k == i, "MEs_AreSame", s);
    }
  }
  void faces() {
    VI S = some(m.n(2), 10);
    for (int i : S) {
      void* f = faceOf(i, c.s.draw(2)); std::string s = "face " + str(m.F[i].v);
      VI q = vids(MF_Vertices(f, 1, 0)); int n = q.size();
      REQ(c, sameCycle(q, m.F[i].v, true), "face-vertices", "%s has vertices %s", s.c_str(), str(q).c_str());
      EQN(MF_Num_Vertices(f), n, "MF_Num_Vertices", s); EQN(MF_Num_Edges(f), n, "MF_Num_Edges", s);
      VI rev(q.rbegin(), q.rend()); VI g = vids(MF_Vertices(f, 0, 0)); REQ(c, sameCycle(g, rev, false), "face-vertices", "MF_Vertices(%s, reversed) = %s", s.c_str(), str(g).c_str());
      EQ(vofids(ids([&](int* k, int* z) { MF_VertexIDs(f, 1, 0, k, z); })), q, "MF_VertexIDs", s);
      for (int dir = 0; dir < 2; dir++) for (int st = 0; st < n; st++) {
        VI w; for (int k = 0; k < n; k++) w.push_back(q[((st + (dir ? k : -k)) % n + n) % n]);
        VI h = vids(MF_Vertices(f, dir, b.ent[0][q[st]]));
        REQ(c, h == w, "face-vertices", "MF_Vertices(%s, %d, from vertex %d) = %s, should be %s", s.c_str(), dir, q[st], str(h).c_str(), str(w).c_str());
        h = vofids(ids([&](int* k, int* z) { MF_VertexIDs(f, dir, MV_ID(b.ent[0][q[st]]), k, z); }));
        REQ(c, h == w, "face-vertices", "MF_VertexIDs(%s, %d, from vertex %d) = %s, should be %s", s.c_str(), dir, q[st], str(h).c_str(), str(w).c_str());
        List_ptr l = MF_Edges(f, dir, b.ent[0][q[st]]); REQ(c, l && List_Num_Entries(l) == n, "face-edges", "MF_Edges of %s", s.c_str());
        for (int k = 0; k < n; k++) { int e = eidx(List_Entry(l, k)), we = m.edgeBetween(w[k], w[(k + 1) % n]); REQ(c, e == we, "face-edges", "edge %d of MF_Edges(%s, %d, from vertex %d) is not %d-%d", k, s.c_str(), dir, q[st], w[k], w[(k + 1) % n]); }
        List_Delete(l);
      }
      List_ptr l = MF_Edges(f, 1, 0);
      for (int k = 0; k < n; k++) { void* e = List_Entry(l, k); int a = b.find(0, ME_Vertex(e, 0)), d = b.find(0, ME_Vertex(e, 1)); int ia = std::find(q.begin(), q.end(), a) - q.begin(); int w = q[(ia + 1) % n] == d; EQN(MF_EdgeDir(f, e), w, "MF_EdgeDir", s); EQN(MF_EdgeDir_i(f, k), w, "MF_EdgeDir_i", s); }
      List_Delete(l);
      for (int v : some(m.n(0), 10)) EQN(!!MF_UsesEntity(f, b.ent[0][v], MVERTEX), std::count(q.begin(), q.end(), v), "MF_UsesEntity(vertex)", s);
      VI E = some(m.n(1), 5); E.push_back(m.F[i].e[c.s.draw(n)]);
      for (int e : E) { EQN(!!MF_UsesEntity(f, edgeOf(e), MEDGE), std::count(m.F[i].e.begin(), m.F[i].e.end(), e), "MF_UsesEntity(edge)", s); if (!std::count(m.F[i].e.begin(), m.F[i].e.end(), e)) EQN(MF_EdgeDir(f, edgeOf(e)), -1, "MF_EdgeDir of an edge not in the face,", s); }
      EQ(rl(MF_Regions(f)), m.fR[i], "MF_Regions", s);
      EQ(rids(ids([&](int* k, int* z) { MF_RegionIDs(f, k, z); })), m.fR[i], "MF_RegionIDs", s);
      for (int side = 0; side < 2; side++) {
        int w = -1; for (int r : m.fR[i]) if (faceDir(f, i, r) == !side) w = r;
        void* g = MF_Region(f, side); EQN(g ? ridx(g) : -1, w, side ? "MF_Region(1)" : "MF_Region(0)", s);
        EQN(MF_RegionID(f, side), g ? MR_ID(g) : 0, "MF_RegionID", s);
      }
      int k = S[c.s.draw(S.size())];
      EQN(!!MFs_AreSame(f, faceOf(k, c.s.draw(2))), k == i, "MFs_AreSame", s);
    }
  }
  void regions() {
    for (int i : some(m.n(3), 8)) {
      void* r = R(i); std::string s = "region " + std::to_string(i); VI rv = m.regVerts(i), re = m.regEdges(i);
      VI g = vids(MR_Vertices(r)); EQ(g, rv, "MR_Vertices", s); EQN(MR_Num_Vertices(r), rv.size(), "MR_Num_Vertices", s);
      if (m.R[i].sv.size() && !tmpl[regOf[i]]) REQ(c, g == m.R[i].sv, "order", "MR_Vertices of %s: %s, were set as %s", s.c_str(), str(g).c_str(), str(m.R[i].sv).c_str());
      REQ(c, vofids(ids([&](int* n, int* q) { MR_VertexIDs(r, n, q); })) == g, "adjacency", "MR_VertexIDs of %s differ from MR_Vertices", s.c_str());
      EQ(el(MR_Edges(r)), re, "MR_Edges", s); EQN(MR_Num_Edges(r), re.size(), "MR_Num_Edges", s);
      EQ(fl(MR_Faces(r)), m.R[i].f, "MR_Faces", s); EQN(MR_Num_Faces(r), m.R[i].f.size(), "MR_Num_Faces", s);
      if (m.R[i].sv.size()) EQN(MR_ElementType(r), m.R[i].type, "MR_ElementType", s);
      else if (rv.size() > 8) EQN(MR_ElementType(r), POLYHED, "MR_ElementType", s);
      List_ptr l = MR_Faces(r); int k = 0, z = 0; void* f;
      while ((f = List_Next_Entry(l, &k))) {
        int fi = fidx(f), w = faceDir(f, fi, i);
        EQN(MR_FaceDir(r, f), w, "MR_FaceDir", s); EQN(MR_FaceDir_i(r, z++), w, "MR_FaceDir_i", s);
        for (int o : m.fR[fi]) if (o != i) EQN(MR_FaceDir(R(o), f), !w, "MR_FaceDir, in the other region, of a face", s);
      }
      List_Delete(l);
      for (int q : some(m.n(2), 6)) { f = faceOf(q, c.s.draw(2)); EQN(MR_FaceDir(r, f), faceDir(f, q, i), "MR_FaceDir", s); EQN(!!MR_UsesEntity(r, f, MFACE), dirOf(i, q) >= 0, "MR_UsesEntity(face)", s); }
      for (int q : some(m.n(0), 10)) EQN(!!MR_UsesEntity(r, b.ent[0][q], MVERTEX), std::count(rv.begin(), rv.end(), q), "MR_UsesEntity(vertex)", s);
      VI E = some(m.n(1), 6); E.push_back(re[c.s.draw(re.size())]);
      for (int q : E) EQN(!!MR_UsesEntity(r, edgeOf(q), MEDGE), std::count(re.begin(), re.end(), q), "MR_UsesEntity(edge)", s);
    }
  }
  VI tmpl;  // regions given with a face template
  void all() { vertices(); edges(); faces(); regions(); }
};

// the part of the mesh used by the regions in keep (all vertices stay)
static RMesh part(const RMesh& m, const VI& keep) {
  RMesh q; q.topo = 3; q.X = m.X; q.gd[0] = m.gd[0]; q.gi[0] = m.gi[0];
  VI fm(m.n(2), -1), em(m.n(1), -1);
  for (int r : keep) {
    RReg R = m.R[r];
    for (int& f : R.f) {
      if (fm[f] < 0) {
        RFace F = m.F[f];
        for (int& e : F.e) { if (em[e] < 0) { em[e] = q.E.size(); q.E.push_back(m.E[e]); } e = em[e]; }
        fm[f] = q.F.size(); q.F.push_back(F);
      }
      f = fm[f];
    }
    q.R.push_back(R);
  }
  q.derive(); q.buildUp();
  return q;
}

static void run(Case& c) {
  GenOpt o; o.planar = false; o.materials = true; o.extras = false; o.maxcells = 10; o.standardOnly = c.s.coin();
  RMesh m = genMesh3D(c, o);
  if (c.s.chance(1, 4)) { m.X.push_back({9, 9, 9}); m.gd[0].push_back(3); m.gi[0].push_back(1); m.derive(); }
  m.buildUp();
  Red d{c, m, BM(), c.s.chance(2, 3) ? R1 : R2};
  BM& b = d.b; b.m = MESH_New(d.rep); d.tmpl.assign(m.n(3), 0);
  for (int i = 0; i < m.n(0); i++) { MVertex_ptr v = MV_New(b.m); MV_Set_Coords(v, m.X[i].data()); MV_Set_GEntDim(v, m.gd[0][i]); MV_Set_GEntID(v, m.gi[0][i]); b.put(0, i, v); }
  int npoly = 0;
  for (int i = 0; i < m.n(3); i++) {
    MRegion_ptr r = MR_New(b.m); RReg& R = m.R[i];
    bool t = R.sv.empty() || c.s.chance(1, 4);
    VI rv = R.sv.size() && !t ? R.sv : m.regVerts(i); if (t) c.s.shuffle(rv);
    std::vector<void*> v; for (int k : rv) v.push_back(b.ent[0][k]);
    std::vector<VI> tv; std::vector<int*> tp;
    if (t) {
      VI p = c.s.perm(R.f.size());
      for (int k : p) { VI q = m.F[R.f[k]].v; if (!R.d[k]) std::reverse(q.begin(), q.end()); std::rotate(q.begin(), q.begin() + c.s.draw(q.size()), q.end()); VI w = {(int)q.size()}; for (int x : q) w.push_back(std::find(rv.begin(), rv.end(), x) - rv.begin()); tv.push_back(w); }
      for (auto& w : tv) tp.push_back(w.data());
      npoly++; d.tmpl[i] = 1;
    }
    MR_Set_Vertices(r, v.size(), v.data(), tp.size(), tp.empty() ? NULL : tp.data()); b.put(3, i, r);
    d.regOf.push_back(i);
  }
  c.label(d.rep == R1 ? "R1" : "R2"); if (npoly) c.label("face templates");
  c.size = m.n(3); if (m.n(3) >= 2) c.nontrivial();
  c.note("%s", describe(m).c_str());
  d.all();
  // regions taken out (and some put back)
  if (m.n(3) > 1 && c.s.coin()) {
    c.label("deletion");
    VI out = c.s.perm(m.n(3)); out.resize(c.s.range(1, std::min(4, m.n(3) - 1)));
    VI gone(m.n(3), 0), kept(m.n(3), 0);
    for (int r : out) { int keep = c.s.coin(); gone[r] = 1; kept[r] = keep; MR_Delete(b.ent[3][r], keep); }
    auto sync = [&] { VI k; for (int i = 0; i < m.n(3); i++) if (!gone[i]) k.push_back(i); d.m = part(m, k); d.regOf = k; };
    sync(); d.all();
    bool any = false;
    for (int r : out) if (kept[r] && c.s.coin()) { MR_Restore(b.ent[3][r]); gone[r] = 0; any = true; }
    if (any) { c.label("restore"); sync(); d.all(); }
    for (int r : out) if (gone[r] && kept[r]) MR_Delete(b.ent[3][r], 0);
  }
  MESH_Delete(b.m);
}
static void r2AdjVerts(Case& c) {
  Mesh_ptr m = MESH_New(R2); void* v[4]; double X[4][3] = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
  for (int i = 0; i < 4; i++) { v[i] = MV_New(m); MV_Set_Coords(v[i], X[i]); MV_Set_GEntDim(v[i], 3); MV_Set_GEntID(v[i], 1); }
  MR_Set_Vertices(MR_New(m), 4, v, 0, NULL);
  for (int i = 0; i < 4; i++) if (MV_Num_AdjVertices(v[i]) != 3 || MV_Num_Edges(v[i]) != 3) c.fail("r2-adjacent-vertices", "vertex %d of a tetrahedron in R2 has %d adjacent vertices and %d edges", i, MV_Num_AdjVertices(v[i]), MV_Num_Edges(v[i]));
}
static pbt::Property P = {"C02", "at least two regions", run, 120, 3000, {{"r2-adjacent-vertices", r2AdjVerts}}};
int main(int argc, char** argv) { return pbt::main_serial(argc, argv, P); }
