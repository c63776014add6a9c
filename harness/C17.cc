#include "rmesh.h"
// MESH_Tet2Hex, MESH_Tri2Quad, MESH_DelInterior against models computed from the source.
static RMesh filter(const RMesh& m, std::vector<bool> keep[4], VI old[4]) {
  RMesh r; r.topo = m.topo; VI nw[4];
  for (int d = 0; d < 4; d++) { for (int i = 0; i < m.n(d); i++) { nw[d].push_back(keep[d][i] ? (int)old[d].size() : -1); if (keep[d][i]) { old[d].push_back(i); if (!m.gd[d].empty()) { r.gd[d].push_back(m.gd[d][i]); r.gi[d].push_back(m.gi[d][i]); } } } }
  for (int i : old[0]) r.X.push_back(m.X[i]);
  for (int i : old[1]) r.E.push_back({nw[0][m.E[i][0]], nw[0][m.E[i][1]]});
  for (int i : old[2]) { RFace f = m.F[i]; for (int& v : f.v) v = nw[0][v]; for (int& e : f.e) e = nw[1][e]; r.F.push_back(f); }
  for (int i : old[3]) { RReg g = m.R[i]; for (int& v : g.sv) v = nw[0][v]; for (int& f : g.f) f = nw[2][f]; r.R.push_back(g); }
  r.derive(); return r;
}
static void delInterior(Case& c) {
  GenOpt o; o.maxcells = 3 + c.size / 3; o.extras = c.s.chance(1, 3); o.materials = true; RMesh m; bool one = c.s.chance(1, 10);
  if (one) { int n = 1 + c.s.draw(8); for (int i = 0; i <= n; i++) m.X.push_back({(double)i, 0, 0}); for (int i = 0; i < n; i++) m.E.push_back({i, i + 1}); m.derive(); m.buildUp(); m.gd[0].assign(n + 1, 1); m.gi[0].assign(n + 1, 1); for (int i = 0; i <= n; i++) if (!i || i == n || c.s.chance(1, 3)) { m.gd[0][i] = 0; m.gi[0][i] = i + 1; } m.gd[1].assign(n, 1); m.gi[1].assign(n, 1); c.label("1d"); }
  else { m = genMesh(c, o); m.buildUp(); if (m.gi[m.topo].empty()) { VI reg(m.n(m.topo), 1); classify(c, m, reg); } }
  int dim = one ? 1 : m.topo; if (!one) c.label(dim == 3 ? "del-3d" : "del-2d");
  BM b = build(c, m, c.s.coin() ? F1 : F4, EXPLICIT);
  MAttrib_ptr a = MAttrib_New(b.m, "val", INT, MALLTYPE); for (int d = 0; d < 4; d++) for (int i = 0; i < m.n(d); i++) MEnt_Set_IntAttVal(b.ent[d][i], a, 10 * i + d);
  VI id[4]; for (int d = 0; d < 4; d++) for (int i = 0; i < m.n(d); i++) id[d].push_back(MEnt_ID(b.ent[d][i]));
  std::vector<bool> keep[4]; VI old[4]; int gone = 0; for (int d = 0; d < 4; d++) for (int i = 0; i < m.n(d); i++) { bool k = d < 3 && MEnt_GEntDim(b.ent[d][i]) != dim; keep[d].push_back(k); gone += !k; }
  for (int e = 0; e < m.n(1); e++) if (keep[1][e]) for (int v : m.E[e]) if (!keep[0][v]) return;  // not a closed classification
  for (int f = 0; f < m.n(2); f++) if (keep[2][f]) for (int e : m.F[f].e) if (!keep[1][e]) return;
  int ret = MESH_DelInterior(b.m); REQ(c, ret == 1, "return", "MESH_DelInterior returned %d", ret);
  RMesh k = filter(m, keep, old); BM q; q.m = b.m; for (int d = 0; d < 4; d++) for (size_t i = 0; i < old[d].size(); i++) q.put(d, i, b.ent[d][old[d][i]]);
  checkDatabase(c, q, "boundary"); k.buildUp(); checkAdjacency(c, q, k, "boundary", 1); checkOrientation(c, q, k, "boundary"); checkClassifn(c, q, k, "boundary"); checkCoords(c, q, k, "boundary");
  for (int d = 0; d < 3; d++) for (int i : old[d]) { REQ(c, MEnt_ID(b.ent[d][i]) == id[d][i], "id", "ID of entity (%d,%d) changed", d, i); REQ(c, MEnt_Get_IntAttVal(b.ent[d][i], a) == 10 * i + d, "attribute", "attribute of entity (%d,%d) changed", d, i); }
  MESH_Delete(b.m); if (gone && (k.n(1) || one)) c.nontrivial();
}
static void run(Case& c) {
  if (c.s.draw(3) == 2) { c.label("del-interior"); delInterior(c); return; }
  bool T = c.s.coin(), bad = c.s.chance(1, 6); GenOpt o; o.simplex = !bad; o.polys = bad; o.standardOnly = !bad; o.maxcells = 2 + c.size / 6; o.planar = c.s.coin(); o.materials = true; o.extras = c.s.chance(1, 4); c.label(T ? "tet2hex" : "tri2quad");
  RMesh m;
  if (bad && T && c.s.chance(1, 3)) { c.label("bipyramid"); Soup s; s.topo = 3; s.X = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0.3, 0.3, 1}, {0.3, 0.3, -1}}; s.C.push_back({POLYHED, {}, {{0, 1, 3}, {1, 2, 3}, {2, 0, 3}, {1, 0, 4}, {2, 1, 4}, {0, 2, 4}}, 1}); if (c.s.coin()) { s.X.push_back({5, 0, 0}); s.X.push_back({6, 0, 0}); s.X.push_back({5, 1, 0}); s.X.push_back({5, 0, 1}); s.C.insert(s.C.begin() + c.s.draw(2), Cell{TET, {5, 6, 7, 8}, {}, 1}); } m = assemble(c, s, o); }
  else m = T ? genMesh3D(c, o) : genMesh2D(c, o);
  m.buildUp(); if (c.s.coin() && m.gi[m.topo].empty()) { VI reg(m.n(m.topo)); for (int& x : reg) x = 1 + c.s.draw(3); classify(c, m, reg); }
  bool ok = true; for (auto& f : m.F) ok &= f.v.size() == 3; for (auto& r : m.R) ok &= r.f.size() == 4;
  // expected
  Soup s; s.topo = m.topo; s.X = m.X; VI src[2];  // source of each vertex
  for (int i = 0; i < m.n(0); i++) { src[0].push_back(0); src[1].push_back(i); }
  auto mid = [&](int d, int i) { VI vs = d == 3 ? m.regVerts(i) : m.vertsOf(d, i); V3 x = {0, 0, 0}; for (int v : vs) x = x + m.X[v]; s.X.push_back((1.0 / vs.size()) * x); src[0].push_back(d); src[1].push_back(i); };
  for (int d = 1; d <= m.topo; d++) for (int i = 0; i < m.n(d); i++) mid(d, i);
  int oe = m.n(0), of = oe + m.n(1), orr = of + m.n(2); VI par;
  if (ok && !T) for (int f = 0; f < m.n(2); f++) for (int k = 0; k < 3; k++) { auto& F = m.F[f]; s.C.push_back({POLYHED, {}, {{F.v[k], oe + F.e[k], of + f, oe + F.e[(k + 2) % 3]}}, 1}); par.push_back(f); }
  std::map<VI, int> fi; for (int f = 0; f < m.n(2); f++) fi[sorted(m.F[f].v)] = f;
  if (ok && T) for (int r = 0; r < m.n(3); r++) {
    auto& v = m.R[r].sv; static const int Q[4][3] = {{1, 2, 3}, {2, 0, 3}, {0, 1, 3}, {1, 0, 2}};  // the others, positively oriented seen from vertex k
    for (int k = 0; k < 4; k++) { int a = v[k], p[3]; for (int j = 0; j < 3; j++) p[j] = v[Q[k][j]]; auto E = [&](int j) { return oe + m.edgeBetween(a, p[j]); }; auto F = [&](int i, int j) { return of + fi.at(sorted({a, p[i], p[j]})); };
      s.C.push_back({HEX, {a, E(0), F(0, 1), E(1), E(2), F(0, 2), orr + r, F(1, 2)}, {}, 1}); par.push_back(r); }
  }
  double L = 0; for (auto& x : m.X) L = std::max(L, len(x)); double tol = 1e-12 * (1 + L); RMesh e; bool cmp = ok;
  if (ok) { GenOpt p; p.orientFlips = false; e = assemble(c, s, p, false); cmp = distinctPoints(e, tol) && distinctShapes(e); if (!cmp) { c.label("coincident"); return; } }
  bool extras = c.labels.count("extras"); BM b = build(c, m, c.s.coin() ? F1 : F4, extras || c.s.coin() ? EXPLICIT : T ? c.s.coin() ? REGVERTS : FACEVERTS : FACEVERTS);
  static const char* nm[4] = {"vertex", "edge", "face", "region"}; MAttrib_ptr a[4] = {}; bool att = c.s.coin(); if (att) for (int d = 0; d <= m.topo; d++) { a[d] = MAttrib_New(b.m, c.s.chance(1, 4) ? nm[d] : pbt::format("att%d", d).c_str(), INT, (MType)d); for (int i = 0; i < m.n(d); i++) MEnt_Set_IntAttVal(b.ent[d][i], a[d], 7 * i + d); }
  int na = MESH_Num_Attribs(b.m); VI id[4]; for (int d = 0; d < 4; d++) for (void* p : b.ent[d]) id[d].push_back(MEnt_ID(p));
  RMesh m0 = m; for (int d = 0; d < 4; d++) { m0.gd[d].clear(); m0.gi[d].clear(); for (void* p : b.ent[d]) { m0.gd[d].push_back(MEnt_GEntDim(p)); m0.gi[d].push_back(MEnt_GEntID(p)); } }
  Mesh_ptr h = NULL; int ret = T ? MESH_Tet2Hex(b.m, &h) : MESH_Tri2Quad(b.m, &h);
  checkDatabase(c, b, "source"); m.buildUp(); checkAdjacency(c, b, m, "source", 1); checkClassifn(c, b, m0, "source"); checkCoords(c, b, m, "source");
  REQ(c, MESH_Num_Attribs(b.m) == na, "source-attributes", "the source has %d attributes, had %d", MESH_Num_Attribs(b.m), na);
  for (int d = 0; d < 4; d++) for (int i = 0; i < m.n(d); i++) { REQ(c, MEnt_ID(b.ent[d][i]) == id[d][i], "source-id", "ID of source entity changed"); if (a[d]) REQ(c, MEnt_Get_IntAttVal(b.ent[d][i], a[d]) == 7 * i + d, "source-attribute", "attribute of source entity (%d,%d) changed", d, i); }
  if (!ok) { REQ(c, ret == 0, "not-refused", "a mesh of other elements was converted"); c.label("refused"); if (h) MESH_Delete(h); MESH_Delete(b.m); return; }
  REQ(c, ret == 1 && h, "return", "conversion returned %d", ret);
  MatchOpt mo; mo.tol = tol; Match M = matchMesh(c, e, h, "converted", mo);
  for (int i = 0; i < e.n(0); i++) { int d = src[0][i], j = src[1][i]; void* v = M.at(0, i); if (d == 0) { double x[3]; MV_Coords(v, x); for (int k = 0; k < 3; k++) REQ(c, x[k] == m.X[i][k], "vertex-moved", "vertex %d moved", i); }
    REQ(c, (int)MV_GEntDim(v) == m0.gd[d][j] && MV_GEntID(v) == m0.gi[d][j], "vertex-classification", "vertex for entity (%d,%d) is on (%d,%d), the entity on (%d,%d)", d, j, (int)MV_GEntDim(v), MV_GEntID(v), m0.gd[d][j], m0.gi[d][j]); }
  int D = m.topo; for (int i = 0; i < e.n(D); i++) { void* p = M.at(D, i); int j = par[i]; REQ(c, MEnt_GEntDim(p) == m0.gd[D][j] && MEnt_GEntID(p) == m0.gi[D][j], "element-classification", "element of source element %d is on (%d,%d), source on (%d,%d)", j, MEnt_GEntDim(p), MEnt_GEntID(p), m0.gd[D][j], m0.gi[D][j]);
    if (T) { REQ(c, MR_ElementType(p) == HEX, "element-type", "element type %d", (int)MR_ElementType(p)); REQ(c, M.x.regVolume(M.to[3][i]) * m.regVolume(j) > 0, "inverted", "hex of tet %d is inverted", j); List_ptr l = MR_Vertices(p); REQ(c, List_Num_Entries(l) == 8, "element-type", "%d vertices", List_Num_Entries(l)); List_Delete(l); } }
  if (T) { double p = e.totalVolume(), q = M.x.totalVolume(), r = m.totalVolume(); REQ(c, std::fabs(q - r) <= 1e-9 * (std::fabs(r) + L * L * L), "volume", "volume %.12g, source %.12g (model %.12g)", q, r, p); }
  if (m.n(D) > 1) c.nontrivial(); MESH_Delete(h); MESH_Delete(b.m);
}
int main(int argc, char** argv) { static pbt::Property P = {"C17", "conversion of a mesh of more than one element, or deletion of something leaving a boundary", run, 5000, 120000}; return pbt::main_serial(argc, argv, P); }
