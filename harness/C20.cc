#include "rmesh.h"
#include "MSTK_private.h"
// MESH_CheckTopo: 1 on valid meshes, 0 after one thing was broken.
static void run(Case& c) {
  GenOpt o; o.maxcells = 2 + c.size / 4; o.extras = c.s.chance(1, 5); o.planar = c.s.coin(); RMesh m = genMesh(c, o); if (!m.n(2)) return; m.buildUp(); int T = m.topo;
  for (int r = 0; r < m.n(3); r++) { std::map<int, int> n; for (int f : m.R[r].f) for (int e : m.F[f].e) n[e]++; for (auto& k : n) if (k.second != 2) { c.label("skip-pinched"); return; } }
  VI mat(m.n(T)); int nm = 1 + c.s.draw(3); for (int& x : mat) x = 1 + c.s.draw(nm); classify(c, m, mat); int how = c.s.draw(4);  // classification: 0 ours, 1 built, 2 none, 3 ours without the lower dimensions
  if (how == 2) for (int d = 0; d < 4; d++) { m.gd[d].clear(); m.gi[d].clear(); }
  if (how == 3) { int k = 1 + c.s.draw(T); for (int d = 0; d < k; d++) { m.gd[d].clear(); m.gi[d].clear(); } }
  if (how == 1) { for (int d = 0; d < T; d++) { m.gd[d].clear(); m.gi[d].clear(); } }
  c.label(pbt::format("classification-%d", how)); RepType rep = c.s.chance(2, 3) ? F1 : F4; int kind = c.s.chance(1, 3) ? -1 : (int)c.s.draw(18); static const char* NM[] = {"vertex-forgets-edge", "vertex-extra-edge", "edge-forgets-face", "face-forgets-region", "edge-below-vertex", "vertex-above-edge", "vertex-other-id", "face-below-edge", "face-other-id", "face-direction", "repeated-vertex", "two-edge-face", "region-gone", "region-forgets-face", "face-gone", "boundary-face-interior", "vertex-other-face", "vertex-open-ring"};
  bool bad = false; RMesh bm = m;
  if (kind == 9 && T == 3) { int r = c.s.draw(m.n(3)); if (c.s.chance(1, 4)) { bool in = false; for (int f : m.R[r].f) in |= m.up(2, f, 3).size() == 2; if (in) { for (int& d : bm.R[r].d) d ^= 1; bad = true; } } else { VI w; for (size_t k = 0; k < m.R[r].f.size(); k++) if (m.up(2, m.R[r].f[k], 3).size() == 1) w.push_back(k); if (w.size()) { bm.R[r].d[c.s.pick(w)] ^= 1; bad = true; } } }
  BM b = build(c, bm, rep, EXPLICIT);
  if (how == 1) REQ(c, MESH_BuildClassfn(b.m, 0), "build-classification", "MESH_BuildClassfn failed");
  VI D[4], I[4]; for (int d = 0; d < 4; d++) for (void* p : b.ent[d]) { D[d].push_back(MEnt_GEntDim(p)); I[d].push_back(MEnt_GEntID(p)); }
  if (!bad) { int ok = MESH_CheckTopo(b.m); REQ(c, ok == 1, "valid-refused", "a valid mesh is refused (%s)", describe(m).c_str());
    if (kind < 0) { checkAdjacency(c, b, m, "after check", 1); for (int d = 0; d < 4; d++) for (int i = 0; i < m.n(d); i++) REQ(c, MEnt_GEntDim(b.ent[d][i]) == D[d][i] && MEnt_GEntID(b.ent[d][i]) == I[d][i], "changed", "the check changed the mesh"); c.label("valid"); if (m.n(T) > 1) c.nontrivial(); MESH_Delete(b.m); return; } }
  int e, f, v, r; std::vector<std::array<int, 2>> w; auto any = [&]() -> std::array<int, 2> { bad = true; return w[c.s.draw(w.size())]; }; auto id = [](void* p, int d, int i) { MEnt_Set_GEntDim(p, d); MEnt_Set_GEntID(p, i); };
  switch (kind) {
    case 0: case 1: e = c.s.draw(m.n(1)); if (kind == 0) { MV_Rem_Edge(b.ent[0][m.E[e][c.s.draw(2)]], b.ent[1][e]); bad = true; } else { v = c.s.draw(m.n(0)); if (v != m.E[e][0] && v != m.E[e][1]) { MV_Add_Edge(b.ent[0][v], b.ent[1][e]); bad = true; } } break;
    case 2: if (rep == F1) { f = c.s.draw(m.n(2)); e = c.s.pick(m.F[f].e); ME_Rem_Face(b.ent[1][e], b.ent[2][f]); bad = true; } break;
    case 3: if (T == 3 && rep == F1) { r = c.s.draw(m.n(3)); f = c.s.pick(m.R[r].f); MF_Rem_Region(b.ent[2][f], b.ent[3][r]); bad = true; } break;
    case 4: case 5: case 6: for (int i = 0; i < m.n(1); i++) for (int q : m.E[i]) { int de = D[1][i], dv = D[0][q]; if (de > 3 || dv > 3) continue; if (kind == 4 ? dv > 1 : kind == 5 ? de < 3 : de == dv) w.push_back({i, q}); } if (w.empty()) break;
      { auto x = any(); if (kind == 4) { id(b.ent[1][x[0]], D[0][x[1]] - 1, I[1][x[0]]); } else if (kind == 5) id(b.ent[0][x[1]], D[1][x[0]] + 1, I[0][x[1]]); else if (c.s.coin()) id(b.ent[0][x[1]], D[0][x[1]], I[0][x[1]] + 1000); else id(b.ent[1][x[0]], D[1][x[0]], I[1][x[0]] + 1000); } break;
    case 7: case 8: for (int i = 0; i < m.n(2); i++) for (int q : m.F[i].e) { int df = D[2][i], de = D[1][q]; if (df > 3 || de > 3) continue; if (kind == 7 ? de > 1 : de == df) w.push_back({i, q}); } if (w.empty()) break;
      { auto x = any(); if (kind == 7) id(b.ent[2][x[0]], D[1][x[1]] - 1, I[2][x[0]]); else if (c.s.coin()) id(b.ent[2][x[0]], D[2][x[0]], I[2][x[0]] + 1000); else id(b.ent[1][x[1]], D[1][x[1]], I[1][x[1]] + 1000); } break;
    case 10: { MVertex_ptr q = b.ent[0][c.s.draw(m.n(0))]; MEdge_ptr n = ME_New(b.m); ME_Set_Vertex(n, 0, q); ME_Set_Vertex(n, 1, q); bad = true; break; }
    case 11: { MVertex_ptr q[2] = {MV_New(b.m), MV_New(b.m)}; MEdge_ptr n[2]; int dir[2] = {1, 0}; for (int k = 0; k < 2; k++) { double x[3] = {9.0 + k, 9, 9}; MV_Set_Coords(q[k], x); id(q[k], 0, 900 + k); } for (int k = 0; k < 2; k++) { n[k] = ME_New(b.m); ME_Set_Vertex(n[k], 0, q[0]); ME_Set_Vertex(n[k], 1, q[1]); id(n[k], 1, 900 + k); } MFace_ptr g = MF_New(b.m); MF_Set_Edges(g, 2, n, dir); id(g, 2, 900); bad = true; break; }
    case 12: for (int i = 0; i < m.n(2); i++) if (D[2][i] == 3) for (int q : m.up(2, i, 3)) w.push_back({i, q}); if (w.empty()) break; MR_Delete(b.ent[3][any()[1]], 0); break;
    case 13: if (T == 3) { r = c.s.draw(m.n(3)); MR_Rem_Face(b.ent[3][r], b.ent[2][c.s.pick(m.R[r].f)]); bad = true; } break;
    case 14: if (T == 2) { for (int i = 0; i < m.n(1); i++) if (D[1][i] == 2) for (int q : m.up(1, i, 2)) w.push_back({i, q}); if (w.empty()) break; MF_Delete(b.ent[2][any()[1]], 0); } break;
    case 15: for (int i = 0; i < m.n(2); i++) if (D[2][i] == 2 && m.up(2, i, 3).size() == 1) w.push_back({i, 0}); if (w.empty()) break; id(b.ent[2][any()[0]], 3, 1); break;
    case 16: case 17: for (void* p : b.ent[1]) id(p, 4, 0);
      for (int i = 0; i < m.n(0); i++) { if (kind == 16) { if (D[0][i] == 2) w.push_back({i, I[0][i] + 1000}); continue; } if (T != 2) continue; VI fs = m.up(0, i, 2), es = m.up(0, i, 1); int one = 0; bool far = false; for (int q : es) { int n = m.up(1, q, 2).size(); one += n == 1; far |= n > 2; } if (one != 2 || far || fs.size() + 1 != es.size()) continue;
        VI st = {fs[0]}; std::set<int> seen = {fs[0]}; while (st.size()) { int g = st.back(); st.pop_back(); for (int q : es) { VI u = m.up(1, q, 2); if (std::find(u.begin(), u.end(), g) != u.end()) for (int h : u) if (seen.insert(h).second) st.push_back(h); } } if (seen.size() == fs.size() && D[2][fs[0]] == 2) w.push_back({i, I[2][fs[0]]}); }
      if (w.empty()) break; { auto x = any(); id(b.ent[0][x[0]], 2, x[1]); } break;
  }
  if (!bad) { c.label("no-such-place"); MESH_Delete(b.m); return; }
  c.label(NM[kind]); c.label("broken"); int ok = MESH_CheckTopo(b.m); REQ(c, ok == 0, NM[kind], "the broken mesh is accepted (%s)", describe(m).c_str()); c.nontrivial();
}
int main(int argc, char** argv) { static pbt::Property P = {"C20", "a valid mesh of several elements, or a mesh with one thing broken", run, 8000, 200000}; return pbt::main_serial(argc, argv, P); }
