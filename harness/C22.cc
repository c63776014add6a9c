#include "mod.h"
// Sequences of face/region splits and joins, each compared with the predicted mesh.
struct SJ : World {
  int eff = 0; bool simplex = false; SJ(Case& c_) : World(c_) {}
  void* V(int i) { return b.ent[0][i]; } void* E(int i) { return b.ent[1][i]; } void* F(int i) { return b.ent[2][i]; } void* R(int i) { return b.ent[3][i]; }
  void done(Edit& P, const char* what) { ModOpt o; o.tol = 1e-14; o.level = m.n(2) > 40 ? 1 : 2; step(P, what, o); c.label(what); eff++; }
  void refused(const char* what, const char* why) { unchanged(what); c.label(std::string("refused:") + why); }
  bool isOld(int d, void* h) { return std::count(b.ent[d].begin(), b.ent[d].end(), h) > 0; }
  bool has(const VI& v, int x) { return std::count(v.begin(), v.end(), x) > 0; }
  V3 inside(int f, double w) { V3 x = {0, 0, 0}; double s = 0; for (int v : m.F[f].v) { double t = c.s.real(.2, 1); x = x + t * m.X[v]; s += t; } (void)w; return (1 / s) * x; }
  int dirIn(int r, int f) { for (size_t k = 0; k < m.R[r].f.size(); k++) if (m.R[r].f[k] == f) return m.R[r].d[k]; return -1; }
  // faces with as many sides as there may be (their edges were split)
  void grow() { int e = c.s.draw(m.n(1)), n = 29; for (int f : m.eF[e]) n = std::min(n, 32 - (int)m.F[f].e.size()); if (n < 1) return; if (c.s.coin()) n = 1 + c.s.draw(n); List_Delete(ME_MultiSplit(E(e), n, nullptr)); adopt(); c.label("split-edges"); }
  MEdge_ptr freeEdge(int a, int q) { MEdge_ptr e = ME_New(mesh); int fl = c.s.coin(); ME_Set_Vertex(e, fl, V(a)); ME_Set_Vertex(e, !fl, V(q)); ME_Set_GEntDim(e, 2); ME_Set_GEntID(e, 77); return e; }
  // pieces of f around a new vertex
  VI star(Edit& P, int f, int v) { VI p; auto t = m.F[f].v; int n = t.size(), gd = m.gd[2][f], gi = m.gi[2][f]; for (int w : t) P.addE(v, w, gd, gi); for (int k = 0; k < n; k++) p.push_back(P.addF({v, t[k], t[(k + 1) % n]}, gd, gi)); P.kill(2, f); return p; }
  void splitFace() {
    int f = c.s.draw(m.n(2)); if (c.s.coin()) for (int g = 0; g < m.n(2); g++) if (m.F[g].v.size() > m.F[f].v.size()) f = g;
    V3 x = inside(f, 0); double xyz[3] = {x[0], x[1], x[2]}; Edit P(m); int v = P.addV(x, m.gd[2][f], m.gi[2][f]); VI p = star(P, f, v); for (int r : m.fR[f]) P.replF(r, f, p, VI(p.size(), dirIn(r, f)));
    if (p.size() > 30) c.label("face>30-vertices"); bool in = m.fR[f].size() == 2; double A = m.topo == 2 ? m.totalArea() : m.totalVolume(); bool tri = m.F[f].v.size() == 3;
    MVertex_ptr h = MF_Split(F(f), xyz); REQ(c, h && !isOld(0, h) && MEnt_Dim(h) == MVERTEX, "result", "MF_Split returned no new vertex"); done(P, "MF_Split"); if (in) c.label("split-interior-face");
    if (tri) { double B = m.topo == 2 ? m.totalArea() : m.totalVolume(); REQ(c, std::abs(A - B) <= 1e-10 * A, "measure", "total measure went from %.17g to %.17g", A, B); }
  }
  void splitSimplex() {
    int f = c.s.draw(m.n(2)); V3 x = inside(f, 0); double xyz[3] = {x[0], x[1], x[2]}; Edit P(m); int v = P.addV(x, m.gd[2][f], m.gi[2][f]); auto t = m.F[f].v; VI p = star(P, f, v);
    for (int r : m.fR[f]) {
      int gd = m.gd[3][r], gi = m.gi[3][r], ap = -1, df = dirIn(r, f); for (int w : m.regVerts(r)) if (!has(t, w)) ap = w; P.addE(v, ap, gd, gi); std::map<int, int> in; for (int w : t) in[w] = P.addF({v, ap, w}, gd, gi, false);  // cycle v, apex, w
      // outward cycles: outer piece (v,a,b) if df; the inner face at a is traversed a->v by the tet of (a,b), the one at b  v->b
      for (int k = 0; k < 3; k++) { int a = t[k], q = t[(k + 1) % 3], g = -1; for (int h : m.R[r].f) if (h != f && has(m.F[h].v, a) && has(m.F[h].v, q)) g = h;
        P.addR({p[k], g, in[a], in[q]}, {df, dirIn(r, g), df ? 1 : 0, df ? 0 : 1}, gd, gi); }
      P.kill(3, r);
    }
    double A = m.topo == 2 ? m.totalArea() : m.totalVolume(); bool in = m.fR[f].size() == 2;
    MVertex_ptr h = MF_Split_SimplexMesh(F(f), xyz); REQ(c, h && !isOld(0, h) && MEnt_Dim(h) == MVERTEX, "result", "MF_Split_SimplexMesh returned no new vertex"); done(P, "MF_Split_SimplexMesh"); if (in) c.label("split-interior-face");
    double B = m.topo == 2 ? m.totalArea() : m.totalVolume(); REQ(c, std::abs(A - B) <= 1e-10 * A, "measure", "total measure went from %.17g to %.17g", A, B);
  }
  int splitEdge(bool undo) {
    VI fs; for (int f = 0; f < m.n(2); f++) if (m.F[f].v.size() > 3) fs.push_back(f); bool adj = c.s.chance(1, 8); if (fs.empty()) adj = true;
    int f = adj ? c.s.draw(m.n(2)) : c.s.pick(fs); auto t = m.F[f].v; int n = t.size(), i = c.s.draw(n), j = adj ? (i + (c.s.coin() ? 1 : n - 1)) % n : (i + 2 + c.s.draw(n - 3)) % n, a = t[i], q = t[j], ex = m.edgeBetween(a, q);
    if (adj) { MEdge_ptr h = MF_Split_with_Edge(F(f), V(a), V(q)); REQ(c, h == E(ex), "result", "splitting along an edge of the face did not return that edge"); refused("MF_Split_with_Edge", "side"); return -1; }
    if (ex >= 0 && !m.eF[ex].empty()) return -1;  // would join other faces
    if (ex < 0 && c.s.chance(1, 8)) { std::vector<void*> tv; for (int k : t) tv.push_back(V(k)); void* fh = F(f); freeEdge(a, q); adopt(); f = b.find(2, fh); t = m.F[f].v; i = std::find(t.begin(), t.end(), b.find(0, tv[i])) - t.begin(); j = std::find(t.begin(), t.end(), b.find(0, tv[j])) - t.begin(); a = t[i]; q = t[j]; ex = m.edgeBetween(a, q); }
    Edit P(m); int gd = m.gd[2][f], gi = m.gi[2][f]; if (ex < 0) P.addE(a, q, gd, gi); else c.label("along-free-edge");
    VI A, B; for (int k = i;; k = (k + 1) % n) { A.push_back(t[k]); if (k == j) break; } for (int k = j;; k = (k + 1) % n) { B.push_back(t[k]); if (k == i) break; }
    VI p = {P.addF(A, gd, gi), P.addF(B, gd, gi)}; P.kill(2, f); for (int r : m.fR[f]) P.replF(r, f, p, VI(2, dirIn(r, f)));
    std::vector<VI> before; for (int r : m.fR[f]) before.push_back({r, dirIn(r, f)});
    MEdge_ptr h = MF_Split_with_Edge(F(f), V(a), V(q)); REQ(c, h && MEnt_Dim(h) == MEDGE && (ex < 0 ? !isOld(1, h) : h == E(ex)), "result", "MF_Split_with_Edge returned no new edge"); REQ(c, (ME_Vertex(h, 0) == V(a) && ME_Vertex(h, 1) == V(q)) || (ME_Vertex(h, 1) == V(a) && ME_Vertex(h, 0) == V(q)), "result", "the returned edge does not join the given vertices");
    bool in = m.fR[f].size() == 2; std::vector<void*> tv; for (int k : t) tv.push_back(V(k)); VI rs; std::vector<void*> rh; for (int r : m.fR[f]) rh.push_back(R(r)); int nr = m.n(3), nf = m.n(2), ne = m.n(1) - (ex >= 0);
    done(P, "MF_Split_with_Edge"); if (in) c.label("split-interior-face"); int e = b.find(1, h); REQ(c, e >= 0, "result", "returned edge is not in the mesh");
    if (undo && m.eF[e].size() == 2) { int f0 = m.eF[e][c.s.draw(2)], f1 = m.eF[e][0] ^ m.eF[e][1] ^ f0; if (!joinAt(f0, f1, e)) return e;
      c.label("face-undo"); REQ(c, m.n(1) == ne && m.n(2) == nf && m.n(3) == nr, "undo", "counts differ after splitting and joining a face"); VI w; for (void* x : tv) w.push_back(b.find(0, x)); int k = -1; for (int g = 0; g < m.n(2); g++) if (sorted(m.F[g].v) == sorted(w)) k = g; REQ(c, k >= 0 && sameCycle(m.F[k].v, w, false), "undo", "joining the pieces does not give the split face back"); VI rr; for (void* x : rh) rr.push_back(b.find(3, x)); REQ(c, sorted(rr) == sorted(m.fR[k]), "undo", "regions of the face differ after splitting and joining it"); }
    return e;
  }
  // returns whether the join took place
  bool joinAt(int f0, int f1, int e) {
    auto& A = m.F[f0]; auto& B = m.F[f1]; int sh = 0, sv = 0; for (int x : A.e) sh += has(B.e, x); for (int x : A.v) sv += has(B.v, x); bool cls = m.gd[2][f0] == m.gd[2][f1] && m.gi[2][f0] == m.gi[2][f1], regs = sorted(m.fR[f0]) == sorted(m.fR[f1]);
    const char* why = !has(A.e, e) || !has(B.e, e) ? "not-common" : !cls ? "classification" : !regs ? "regions" : sh > 1 ? "several-edges" : m.eF[e].size() != 2 ? "third-face" : nullptr;
    if (!why && sv > 2) return false; if (!why && A.v.size() + B.v.size() - 2 > 32) return false; 
    if (!why && m.topo == 3) for (int r : m.fR[f0]) if (m.R[r].f.size() <= 4) return false;
    if (why) { MFace_ptr h = MFs_Join(F(f0), F(f1), E(e)); REQ(c, !h, "refusal", "MFs_Join did not refuse (%s)", why); refused("MFs_Join", why); return false; }
    // the union keeps the sense of f0
    int k0 = std::find(A.e.begin(), A.e.end(), e) - A.e.begin(), k1 = std::find(B.e.begin(), B.e.end(), e) - B.e.begin(), n0 = A.e.size(), n1 = B.e.size(); bool rev = A.d[k0] == B.d[k1];
    VI cyc; for (int i = 1; i < n0; i++) cyc.push_back(A.v[(k0 + i) % n0]); for (int i = 1; i < n1; i++) cyc.push_back(rev ? B.v[(k1 + 1 - i + n1 + 0) % n1] : B.v[(k1 + i) % n1]);
    if (rev) c.label("opposite-faces");
    Edit P(m); P.kill(1, e); int nf = P.addF(cyc, m.gd[2][f0], m.gi[2][f0]); P.kill(2, f0); P.kill(2, f1); for (int r : m.fR[f0]) { int d = dirIn(r, f0); P.replF(r, f0, {nf}, {d}); P.replF(r, f1, {}, {}); }
    if (m.fR[f0].size() == 2) c.label("join-interior-faces"); MFace_ptr h = MFs_Join(F(f0), F(f1), E(e)); REQ(c, h && MEnt_Dim(h) == MFACE && !isOld(2, h), "result", "MFs_Join returned no new face"); done(P, "MFs_Join"); REQ(c, b.find(2, h) >= 0, "result", "returned face is not in the mesh"); return true;
  }
  void joinFaces() {
    std::vector<std::array<int, 3>> good, all; for (int e = 0; e < m.n(1); e++) for (int f0 : m.eF[e]) for (int f1 : m.eF[e]) if (f0 != f1) { all.push_back({f0, f1, e}); if (m.eF[e].size() == 2 && sorted(m.fR[f0]) == sorted(m.fR[f1]) && m.gd[2][f0] == m.gd[2][f1] && m.gi[2][f0] == m.gi[2][f1]) good.push_back({f0, f1, e}); }
    if (all.empty()) return; auto p = good.empty() || c.s.chance(1, 6) ? all[c.s.draw(all.size())] : good[c.s.draw(good.size())]; if (c.s.chance(1, 20)) p[2] = c.s.draw(m.n(1)); joinAt(p[0], p[1], p[2]);
  }
  void splitRegion() {
    int r = c.s.draw(m.n(3)); auto& R0 = m.R[r]; int nf = R0.f.size(); if (nf < 6) return;
    // grow a connected patch of faces; its border must be one simple loop of edges
    std::vector<char> in(nf, 0); std::map<int, VI> ef; for (int k = 0; k < nf; k++) for (int e : m.F[R0.f[k]].e) ef[e].push_back(k); for (auto& q : ef) if (q.second.size() != 2) return;
    int want = 3 + c.s.draw(nf - 5), have = 1; in[c.s.draw(nf)] = 1; for (int it = 0; it < 20 * nf && have < want; it++) { VI cand; for (auto& q : ef) if (in[q.second[0]] != in[q.second[1]]) cand.push_back(in[q.second[0]] ? q.second[1] : q.second[0]); if (cand.empty()) return; in[c.s.pick(cand)] = 1; have++; }
    VI border; for (auto& q : ef) if (in[q.second[0]] != in[q.second[1]]) border.push_back(q.first); std::map<int, VI> ve; for (int e : border) for (int j = 0; j < 2; j++) ve[m.E[e][j]].push_back(e); for (auto& q : ve) if (q.second.size() != 2) return; if (border.size() > 32 || border.size() < 3) return;
    { VI comp = {0}, st; VI seen(nf, 0); int cnt = 0, s0 = 0; while (in[s0]) s0++; st = {s0}; seen[s0] = 1; while (!st.empty()) { int k = st.back(); st.pop_back(); cnt++; for (auto& q : ef) for (int j = 0; j < 2; j++) if (q.second[j] == k && !in[q.second[!j]] && !seen[q.second[!j]]) { seen[q.second[!j]] = 1; st.push_back(q.second[!j]); } } if (cnt != nf - have) return; }
    if (nf - have < 3 || have < 3) return; VI loop = {border[0]}; int at = c.s.draw(border.size()); loop[0] = border[at]; int fw = c.s.coin(), v = m.E[loop[0]][fw ? 1 : 0];
    while (loop.size() < border.size()) { auto& q = ve[v]; int e = q[0] == loop.back() ? q[1] : q[0]; if (e == loop[0]) return; loop.push_back(e); v = m.E[e][0] ^ m.E[e][1] ^ v; }
    if (!fw) { std::reverse(loop.begin(), loop.end()); }  // still starts anywhere; the first edge is used forwards
    // cycle of the new face: first edge forwards, then in list order; the list must continue at its head
    { int h = m.E[loop[0]][1]; if (m.E[loop[1]][0] != h && m.E[loop[1]][1] != h) std::reverse(loop.begin() + 1, loop.end()); }
    VI cyc; int p = m.E[loop[0]][0]; for (int e : loop) { cyc.push_back(p); p = m.E[e][0] ^ m.E[e][1] ^ p; } if (p != cyc[0]) return;
    { VI s = sorted(cyc); for (int f = 0; f < m.n(2); f++) if (sorted(m.F[f].v) == s) return; }
    Edit P(m); int gd = m.gd[3][r], gi = m.gi[3][r], f = P.addF(cyc, gd, gi);
    for (int s = 0; s < 2; s++) { VI fl, dl; int dir = -1; for (int k = 0; k < nf; k++) if (in[k] == (s == 0)) { fl.push_back(R0.f[k]); dl.push_back(R0.d[k]); if (has(m.F[R0.f[k]].e, loop[0])) { auto& T = m.F[R0.f[k]]; int i = std::find(T.e.begin(), T.e.end(), loop[0]) - T.e.begin(); bool outFw = T.d[i] == R0.d[k];  /* outward traversal runs along the edge */ dir = outFw ? 0 : 1; } } fl.push_back(f); dl.push_back(dir); P.addR(fl, dl, gd, gi); }
    P.kill(3, r); std::vector<void*> le; for (int e : loop) le.push_back(E(e)); if (loop.size() > 30) c.label("loop>30");
    std::vector<void*> of; for (int g : R0.f) of.push_back(F(g)); VI od = R0.d; int nr = m.n(3), n2 = m.n(2), n1 = m.n(1);
    MFace_ptr h = MR_Split_with_EdgeLoop(R(r), le.size(), le.data()); REQ(c, h && MEnt_Dim(h) == MFACE && !isOld(2, h), "result", "MR_Split_with_EdgeLoop returned no new face"); done(P, "MR_Split_with_EdgeLoop"); int nf2 = b.find(2, h); REQ(c, nf2 >= 0, "result", "returned face is not in the mesh");
    if (c.s.coin()) { int k = c.s.draw(2); if (!joinRegs(m.fR[nf2][k], m.fR[nf2][!k], nf2)) return; c.label("region-undo"); REQ(c, m.n(3) == nr && m.n(2) == n2 && m.n(1) == n1, "undo", "counts differ after splitting and joining a region"); std::map<int, int> w, g; for (size_t j = 0; j < of.size(); j++) w[b.find(2, of[j])] = od[j]; bool ok = false; for (int q = 0; q < m.n(3); q++) { g.clear(); for (size_t j = 0; j < m.R[q].f.size(); j++) g[m.R[q].f[j]] = m.R[q].d[j]; ok |= g == w; } REQ(c, ok, "undo", "joining the pieces does not give the split region back"); }
  }
  bool joinRegs(int r1, int r2, int f) {
    int sh = 0; for (int g : m.R[r1].f) sh += has(m.R[r2].f, g); bool cm = has(m.R[r1].f, f) && has(m.R[r2].f, f), cls = m.gi[3][r1] == m.gi[3][r2]; const char* why = !cls ? "classification" : !cm ? "not-common" : sh > 1 ? "several-faces" : nullptr; bool nul = !why && c.s.coin();
    if (!why) { VI ev = m.regEdges(r1), fe = m.F[f].e, vv = m.regVerts(r1), fv = m.F[f].v; for (int e : m.regEdges(r2)) if (has(ev, e) && !has(fe, e)) return false; for (int v : m.regVerts(r2)) if (has(vv, v) && !has(fv, v)) return false; if (m.R[r1].f.size() + m.R[r2].f.size() > 100) return false; }
    if (why) { MRegion_ptr h = MRs_Join(R(r1), R(r2), F(f)); REQ(c, !h, "refusal", "MRs_Join did not refuse (%s)", why); refused("MRs_Join", why); return false; }
    Edit P(m); VI fl, dl; for (int s = 0; s < 2; s++) { auto& Q = m.R[s ? r2 : r1]; for (size_t k = 0; k < Q.f.size(); k++) if (Q.f[k] != f) { fl.push_back(Q.f[k]); dl.push_back(Q.d[k]); } } P.m.R[r1].f = fl; P.m.R[r1].d = dl; P.kill(3, r2); P.kill(2, f); void* keep = R(r1);
    MRegion_ptr h = MRs_Join(R(r1), R(r2), nul ? nullptr : F(f)); REQ(c, h == keep, "result", "MRs_Join did not return the first region"); if (nul) c.label("face-not-given"); done(P, "MRs_Join"); return true;
  }
  void joinRegions() {
    std::vector<std::array<int, 3>> good; for (int f = 0; f < m.n(2); f++) if (m.fR[f].size() == 2) { int k = c.s.draw(2); good.push_back({m.fR[f][k], m.fR[f][!k], f}); } if (good.empty()) return; auto p = good[c.s.draw(good.size())]; if (c.s.chance(1, 12)) p[2] = c.s.draw(m.n(2)); joinRegs(p[0], p[1], p[2]);
  }
};
static void run(Case& c) {
  GenOpt o; o.planar = c.s.coin(); o.maxcells = 1 + c.s.draw(2 + c.size / 6); o.simplex = c.s.chance(1, 4); if (o.simplex) o.polys = false; o.extras = c.s.chance(1, 4); RMesh g = genMesh(c, o);
  for (auto& F : g.F) if (o.simplex && F.v.size() != 3) { c.label("not-simplex"); return; }
  if (c.s.chance(2, 3)) classifyFree(c, g); else for (int d = 0; d < 4; d++) { g.gd[d].assign(g.n(d), g.topo); g.gi[d].assign(g.n(d), 4); }
  RepType rep = c.s.chance(2, 5) ? F4 : F1; c.label(rep == F1 ? "F1" : "F4"); c.label(g.topo == 2 ? "2D" : "3D");
  SJ w(c); w.simplex = o.simplex; w.start(g, rep); int n = 1 + c.s.draw(3 + c.size / 4);
  for (int i = 0; i < n; i++) {
    if (w.simplex) { w.splitSimplex(); continue; }
    if (c.s.chance(1, 8)) w.grow();
    int k = c.s.draw(w.m.topo == 3 ? 11 : 7); if (k < 1) w.splitFace(); else if (k < 4) w.splitEdge(c.s.coin()); else if (k < 7) w.joinFaces(); else if (k < 9) w.splitRegion(); else w.joinRegions();
  }
  MESH_Delete(w.mesh); if (w.eff >= 2) c.nontrivial();
}

int main(int argc, char** argv) { static pbt::Property P = {"C22", "at least two splits or joins took effect", run, 5000, 50000}; return pbt::main_serial(argc, argv, P); }
