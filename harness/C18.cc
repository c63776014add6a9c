#include "rmesh.h"
extern "C" void MESH_Reset_Cached_MaxIDs(Mesh_ptr);
extern "C" int ExodusII_GetElementGraph(const char*, int*, int*, int**, int**, int, double (**)[3]);
// Element graphs list, for every element, the elements across its faces (edges).

// reference: neighbours per element, once per shared face / edge
static std::vector<VI> refGraph(const RMesh& m, const VI& pos) {
  std::vector<VI> g(m.n(m.topo));
  if (m.topo == 3) { for (int f = 0; f < m.n(2); f++) { VI r = m.up(2, f, 3); if (r.size() == 2) { g[r[0]].push_back(pos[r[1]]); g[r[1]].push_back(pos[r[0]]); } } }
  else for (int e = 0; e < m.n(1); e++) { VI f = m.up(1, e, 2); for (int a : f) for (int b : f) if (a != b) g[a].push_back(pos[b]); }
  for (auto& v : g) std::sort(v.begin(), v.end());
  return g;
}
static void cmp(Case& c, const char* tag, const std::vector<VI>& want, const VI& elAt, int n, int* beg, int* adj) {
  REQ(c, n == (int)elAt.size(), "count", "%s: %d elements, expected %zu", tag, n, elAt.size());
  REQ(c, beg[0] == 0, "offsets", "%s: first offset is %d", tag, beg[0]);
  for (int i = 0; i < n; i++) {
    REQ(c, beg[i + 1] >= beg[i], "offsets", "%s: offsets of element %d are %d, %d", tag, i, beg[i], beg[i + 1]);
    VI got(adj + beg[i], adj + beg[i + 1]); std::sort(got.begin(), got.end());
    REQ(c, got == want[elAt[i]], "neighbours", "%s: neighbours of element %d are %s, expected %s", tag, i, str(got).c_str(), str(want[elAt[i]]).c_str());
  }
}
static void run(Case& c) {
  GenOpt o; o.maxcells = 4 + c.size / 4; o.materials = true; bool file = c.s.coin(); o.extras = !file && c.s.chance(1, 4); o.nonmanifold = !file; o.surface3d = c.s.coin();
  if (file) o.closedSurf = o.nonmanifold = c.s.chance(1, 3);
  RMesh m = genMesh(c, o); if (!m.n(m.topo)) return;
  int n = 0, *beg = nullptr, *adj = nullptr; size_t links = 0;
  if (!file) {
    c.label(m.topo == 3 ? "mesh-3d" : "mesh-2d"); BM b = build(c, m, c.s.coin() ? F1 : F4, EXPLICIT);
    if (c.s.coin()) { c.label("gaps"); for (int d = 2; d < 4; d++) { VI p = c.s.perm(m.n(d)); int id = 0; for (int i = 0; i < m.n(d); i++) { id += 1 + (c.s.chance(1, 3) ? c.s.draw(4) : 0); MEnt_Set_ID(b.ent[d][p[i]], id); } } MESH_Reset_Cached_MaxIDs(b.m); }
    int na = MESH_Num_Attribs(b.m); VI pos(m.n(m.topo)), elAt; int idx = 0; void* e;
    while ((e = m.topo == 3 ? MESH_Next_Region(b.m, &idx) : MESH_Next_Face(b.m, &idx))) { pos[b.find(m.topo, e)] = elAt.size(); elAt.push_back(b.find(m.topo, e)); }
    auto g = refGraph(m, pos); for (auto& v : g) links += v.size();
    REQ(c, MESH_GetElementGraph(b.m, &n, &beg, &adj) == 1, "return", "MESH_GetElementGraph failed"); cmp(c, "MESH_GetElementGraph", g, elAt, n, beg, adj);
    REQ(c, MESH_Num_Attribs(b.m) == na, "side-effect", "%d attributes left on the mesh", MESH_Num_Attribs(b.m) - na);
    checkDatabase(c, b, "after"); MESH_Delete(b.m);
  } else {
    if (m.topo == 2) for (int e = 0; e < m.n(1); e++) if (m.up(1, e, 2).size() > 2) { c.label("skip-nonmanifold"); return; }  // documented as unsupported
    if (!distinctShapes(m)) { c.label("skip-duplicate-shapes"); return; }
    ExoFile f = genExo(c, m, true); c.label(pbt::format("file-%dd-%d", f.ndim, m.topo)); writeExo(c, m, f, "g.exo");
    VI elAt = f.elems(), pos(elAt.size()); for (size_t i = 0; i < elAt.size(); i++) pos[elAt[i]] = i;
    auto g = refGraph(m, pos); for (auto& v : g) links += v.size();
    int nd, cen = c.s.coin(); double (*ec)[3] = nullptr;
    REQ(c, ExodusII_GetElementGraph("g.exo", &nd, &n, &beg, &adj, cen, &ec) == 1, "return", "ExodusII_GetElementGraph failed");
    REQ(c, nd == f.ndim, "dimension", "dimension %d, expected %d", nd, f.ndim); cmp(c, "ExodusII_GetElementGraph", g, elAt, n, beg, adj);
    if (cen) { c.label("centers"); for (int i = 0; i < n; i++) {
      VI v = m.topo == 2 ? m.F[elAt[i]].v : m.regVerts(elAt[i]); V3 s = {0, 0, 0}; double sc = 1; for (int k : v) { s = s + m.X[k]; for (int q = 0; q < 3; q++) sc = std::max(sc, std::fabs(m.X[k][q])); } s = (1.0 / v.size()) * s;
      for (int q = 0; q < 3; q++) REQ(c, std::fabs(ec[i][q] - s[q]) <= 1e-12 * sc * v.size(), "center", "center of element %d is (%.12g,%.12g,%.12g), expected (%.12g,%.12g,%.12g)", i, ec[i][0], ec[i][1], ec[i][2], s[0], s[1], s[2]); } free(ec); }
    if (f.blocks.size() > 1) c.label("several-blocks");
  }
  free(beg); free(adj);
  if (links > 1) c.nontrivial();
}
int main(int argc, char** argv) { static pbt::Property P = {"C18", "the mesh has at least two neighbouring elements", run, 6000, 100000}; return pbt::main_serial(argc, argv, P); }
