#include "mod.h"
// Sequences of 2D edge swaps, each compared with the predicted mesh.
struct Sw : World {
  int eff = 0; Sw(Case& c_) : World(c_) {}
  void* E(int i) { return b.ent[1][i]; } void* F(int i) { return b.ent[2][i]; }
  void done(Edit& P, const char* what) { ModOpt o; o.level = m.n(2) > 40 ? 1 : 2; step(P, what, o); c.label(what); eff++; }
  // vertices opposite to e in the face using it forwards / backwards, or why not
  const char* quad(int e, int& p, int& q, int& f0, int& f1) {
    if (m.gd[1][e] != 2) return "not-on-model-face"; if (m.eF[e].size() != 2) return m.eF[e].empty() ? "no-faces" : m.eF[e].size() == 1 ? "boundary" : "non-manifold";
    int d[2]; for (int k = 0; k < 2; k++) { auto& T = m.F[m.eF[e][k]]; if (T.v.size() != 3) return "not-triangles"; if (!m.fR[m.eF[e][k]].empty()) return "regions"; d[k] = T.d[std::find(T.e.begin(), T.e.end(), e) - T.e.begin()]; }
    if (d[0] == d[1]) return "opposite-faces"; f0 = m.eF[e][d[0] ? 0 : 1]; f1 = m.eF[e][d[0] ? 1 : 0]; auto opp = [&](int f) { for (int v : m.F[f].v) if (v != m.E[e][0] && v != m.E[e][1]) return v; return -1; };
    p = opp(f0); q = opp(f1); return p == q ? "same-vertices" : m.edgeBetween(p, q) >= 0 ? "edge-exists" : nullptr;
  }
  int swap(int e) {
    int p, q, f0, f1; const char* why = quad(e, p, q, f0, f1); MEdge_ptr en = nullptr; MFace_ptr fn[2] = {nullptr, nullptr};
    if (why) { int ok = ME_Swap2D(E(e), &en, fn); REQ(c, !ok, "refusal", "ME_Swap2D did not refuse (%s)", why); unchanged("ME_Swap2D refused"); c.label(std::string("refused:") + why); return -1; }
    Edit P(m); int a = m.E[e][0], z = m.E[e][1]; P.kill(1, e); P.addE(q, p, m.gd[1][e], m.gi[1][e]); int g = m.gd[2][f0], gi = m.gi[2][f0]; P.addF({p, a, q}, g, gi); P.addF({z, p, q}, g, gi); P.kill(2, f0); P.kill(2, f1);
    std::vector<void*> oe(b.ent[1]), of(b.ent[2]), pv = {b.ent[0][p], b.ent[0][q]};
    int ok = ME_Swap2D(E(e), &en, fn); REQ(c, ok == 1, "result", "ME_Swap2D returned %d", ok); REQ(c, en && MEnt_Dim(en) == MEDGE && !std::count(oe.begin(), oe.end(), en), "result", "no new edge returned"); for (int k = 0; k < 2; k++) REQ(c, fn[k] && MEnt_Dim(fn[k]) == MFACE && !std::count(of.begin(), of.end(), fn[k]), "result", "no new face %d returned", k);
    done(P, "ME_Swap2D"); int i = b.find(1, en); REQ(c, i >= 0 && sorted(VI{m.E[i][0], m.E[i][1]}) == sorted(VI{b.find(0, pv[0]), b.find(0, pv[1])}), "result", "returned edge is not the other diagonal"); REQ(c, fn[0] != fn[1] && sorted(m.eF[i]) == sorted(VI{b.find(2, fn[0]), b.find(2, fn[1])}), "result", "returned faces are not those of the new edge"); return i;
  }
};
static void run(Case& c) {
  GenOpt o; o.planar = false; o.maxcells = 1 + c.s.draw(2 + c.size / 5); o.simplex = !c.s.chance(1, 8); o.polys = !o.simplex; o.extras = c.s.chance(1, 5); o.orientFlips = c.s.coin(); RMesh g = c.s.chance(1, 10) ? genMesh3D(c, o) : genMesh2D(c, o); g.topo == 3 ? c.label("3D") : c.label("2D");
  int w0 = c.s.draw(3); if (w0 == 0) classifyFree(c, g); else for (int d = 0; d < 4; d++) { g.gd[d].assign(g.n(d), std::max(d, 2)); g.gi[d].assign(g.n(d), 4); }
  RepType rep = c.s.chance(2, 5) ? F4 : F1; c.label(rep == F1 ? "F1" : "F4"); Sw w(c); w.start(g, rep); int n = 2 + c.s.draw(4 + c.size / 3);
  for (int i = 0; i < n; i++) {
    VI good; if (c.s.chance(4, 5)) for (int e = 0; e < w.m.n(1); e++) { int p, q, a, z; if (!w.quad(e, p, q, a, z)) good.push_back(e); }
    int e = good.empty() ? c.s.draw(w.m.n(1)) : c.s.pick(good); std::vector<VI> tri; for (int f : w.m.eF[e]) { VI t; for (int v : w.m.F[f].v) t.push_back(v); tri.push_back(t); } std::vector<std::vector<void*>> th; for (auto& t : tri) { std::vector<void*> h; for (int v : t) h.push_back(w.b.ent[0][v]); th.push_back(h); }
    int x = w.swap(e); if (x >= 0 && c.s.coin()) { int y = w.swap(x); REQ(c, y >= 0, "undo", "the new edge cannot be swapped"); for (auto& h : th) { VI t; for (void* v : h) t.push_back(w.b.find(0, v)); bool ok = false; for (int f : w.m.eF[y]) ok |= sameCycle(w.m.F[f].v, t, false); REQ(c, ok, "undo", "swapping back does not restore a triangle"); } c.label("undo"); }
  }
  MESH_Delete(w.mesh); if (w.eff >= 2) c.nontrivial();
}

int main(int argc, char** argv) { static pbt::Property P = {"C25", "at least two swaps took effect", run, 5000, 50000}; return pbt::main_serial(argc, argv, P); }
