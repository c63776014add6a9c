#include "mod.h"
// Sequences of edge splits, each compared with the predicted mesh.
struct Sp : World {
  int eff = 0; bool simplex = false; Sp(Case& c_) : World(c_) {}
  void* E(int i) { return b.ent[1][i]; }
  void done(Edit& P, const char* what) { ModOpt o; o.tol = 1e-14; o.level = m.n(2) > 40 ? 1 : 2; step(P, what, o); c.label(what); eff++; }
  V3 at(int a, int q, double t, bool off) { V3 z = {0, 0, 0}; if (off) z = {c.s.real(-.02, .02), c.s.real(-.02, .02), m.topo == 2 ? 0 : c.s.real(-.02, .02)}; return (1 - t) * m.X[a] + t * m.X[q] + z; }
  void split() {
    int e = c.s.draw(m.n(1)); int n = c.s.coin() ? 1 : 1 + c.s.draw(5); if (c.s.chance(1, 12)) n += c.s.draw(24); for (int f : m.eF[e]) if ((int)m.F[f].e.size() + n > 32) return;
    bool nul = c.s.coin(), off = c.s.chance(1, 3), one = n == 1 && c.s.chance(3, 4); int a = m.E[e][0], q = m.E[e][1]; std::vector<double> ts; for (int j = 0; j < n; j++) ts.push_back(nul ? (j + 1.0) / (n + 1) : c.s.real(.02, .98)); std::sort(ts.begin(), ts.end());
    for (int j = 1; j < n; j++) if (ts[j] - ts[j - 1] < 1e-6) return;
    std::vector<std::array<double, 3>> xyz; Edit P(m); VI pv = {a}; for (int j = 0; j < n; j++) { V3 x = at(a, q, ts[j], off && !nul); xyz.push_back({x[0], x[1], x[2]}); pv.push_back(P.addV(x, m.gd[1][e], m.gi[1][e])); } pv.push_back(q);
    auto keep = xyz; VI pe; for (int j = 0; j <= n; j++) pe.push_back(P.addE(pv[j], pv[j + 1], m.gd[1][e], m.gi[1][e])); P.kill(1, e);
    for (int f : m.eF[e]) { RFace T = m.F[f], N; for (size_t j = 0; j < T.e.size(); j++) if (T.e[j] != e) { N.v.push_back(T.v[j]); N.e.push_back(T.e[j]); N.d.push_back(T.d[j]); }
        else for (int k = 0; k <= n; k++) { int kk = T.d[j] ? k : n - k; N.v.push_back(T.d[j] ? pv[k] : pv[n + 1 - k]); N.e.push_back(pe[kk]); N.d.push_back(T.d[j]); } P.m.F[f] = N; }
    std::vector<void*> oldE(b.ent[1]), oldV(b.ent[0]);
    if (one) { MVertex_ptr v = ME_Split(E(e), nul ? nullptr : xyz[0].data()); REQ(c, v != nullptr, "result", "ME_Split returned NULL"); REQ(c, !std::count(oldV.begin(), oldV.end(), v) && MEnt_Dim(v) == MVERTEX, "result", "ME_Split returned no new vertex"); double x[3]; MV_Coords(v, x); if (!nul) REQ(c, x[0] == keep[0][0] && x[1] == keep[0][1] && x[2] == keep[0][2], "result", "split vertex is at (%.17g %.17g %.17g)", x[0], x[1], x[2]); REQ(c, MV_Num_Edges(v) == 2, "result", "split vertex has %d edges", MV_Num_Edges(v)); }
    else {
      List_ptr l = ME_MultiSplit(E(e), n, nul ? nullptr : (double(*)[3])xyz.data()); REQ(c, l && List_Num_Entries(l) == n + 1, "result", "ME_MultiSplit returned %d edges for %d points", l ? List_Num_Entries(l) : -1, n);
      for (int j = 0; j <= n; j++) { void* h = List_Entry(l, j); REQ(c, !std::count(oldE.begin(), oldE.end(), h) || h == oldE[e], "result", "entry %d is an old edge", j); double x[3], y[3]; MV_Coords(ME_Vertex(h, 0), x); MV_Coords(ME_Vertex(h, 1), y); for (int s = 0; s < 3; s++) { double p0 = P.m.X[pv[j]][s], p1 = P.m.X[pv[j + 1]][s]; REQ(c, std::abs(x[s] - p0) <= 1e-14 * (1 + std::abs(p0)) && std::abs(y[s] - p1) <= 1e-14 * (1 + std::abs(p1)), "result", "edge %d of the returned chain does not join points %d and %d", j, j, j + 1); } }
      List_Delete(l);
    }
    REQ(c, xyz == keep, "argument", "coordinates passed in were changed");
    if (nul) c.label("equispaced"); if (m.eF[e].empty()) c.label("free-edge"); if (m.eF[e].size() == 1) c.label("boundary-edge"); if (n > 8) c.label("many-points"); if (off && !nul) c.label("off-edge");
    done(P, one ? "ME_Split" : "ME_MultiSplit");
  }
  void simplexSplit() {
    int e = c.s.draw(m.n(1)); bool nul = c.s.chance(1, 3), off = !nul && c.s.chance(1, 4); int a = m.E[e][0], q = m.E[e][1]; V3 x = at(a, q, nul ? .5 : c.s.real(.05, .95), off); double xyz[3] = {x[0], x[1], x[2]};
    Edit P(m); auto G = [&](int d, int i) { return std::make_pair(m.gd[d][i], m.gi[d][i]); }; auto ge = G(1, e); int v = P.addV(x, ge.first, ge.second); P.addE(a, v, ge.first, ge.second); P.addE(v, q, ge.first, ge.second); P.kill(1, e);
    std::map<std::pair<int, int>, int> half;  // (face, end) -> piece
    for (int f : m.eF[e]) { auto g = G(2, f); VI t = m.F[f].v; while (t[0] == a || t[0] == q) std::rotate(t.begin(), t.begin() + 1, t.end()); P.addE(v, t[0], g.first, g.second); half[{f, t[1]}] = P.addF({t[0], t[1], v}, g.first, g.second); half[{f, t[2]}] = P.addF({t[0], v, t[2]}, g.first, g.second); P.kill(2, f); }
    double vol = 0; for (int r : m.up(1, e, 3)) {
      auto g = G(3, r); auto& R = m.R[r]; vol += m.regVolume(r); VI xy; for (int w : m.regVerts(r)) if (w != a && w != q) xy.push_back(w); P.kill(3, r); int fi = P.addF({v, xy[0], xy[1]}, g.first, g.second, false);
      for (int s = 0; s < 2; s++) { int me = s ? q : a, dir = -1; VI fl, dl; for (size_t k = 0; k < R.f.size(); k++) { int f = R.f[k]; if (half.count({f, me})) { fl.push_back(half[{f, me}]); dl.push_back(R.d[k]); } else { auto& t = m.F[f].v; int i = std::find(t.begin(), t.end(), me) - t.begin(); if (i == 3) continue; fl.push_back(f); dl.push_back(R.d[k]); bool xThenY = t[(i + 1) % 3] == xy[0]; dir = !(xThenY == (R.d[k] == 1)); } }
        fl.push_back(fi); dl.push_back(dir); P.addR(fl, dl, g.first, g.second); }
    }
    double tv = m.topo == 3 ? m.totalVolume() : m.totalArea(); std::vector<void*> oldV(b.ent[0]); bool bnd = m.topo == 2 && m.eF[e].size() == 1;
    for (int f : m.eF[e]) if (m.topo == 3 && m.fR[f].size() == 1) bnd = true;
    MVertex_ptr nv = ME_Split_SimplexMesh(E(e), nul ? nullptr : xyz); REQ(c, nv && !std::count(oldV.begin(), oldV.end(), nv), "result", "ME_Split_SimplexMesh returned no new vertex");
    done(P, "ME_Split_SimplexMesh"); if (bnd) c.label("simplex-boundary"); else c.label("simplex-interior"); if (nul) c.label("midpoint");
    double w = m.topo == 3 ? m.totalVolume() : m.totalArea(); if (!off) { c.label("measure"); REQ(c, std::abs(w - tv) <= 1e-10 * std::abs(tv), "measure", "total %s went from %.17g to %.17g", m.topo == 3 ? "volume" : "area", tv, w); }
  }
};
static void run(Case& c) {
  GenOpt o; o.planar = false; o.maxcells = 1 + c.s.draw(2 + c.size / 6); o.simplex = c.s.coin(); if (o.simplex) o.polys = false; o.extras = c.s.chance(1, 4); RMesh g = genMesh(c, o);
  for (auto& F : g.F) if (o.simplex && F.v.size() != 3) { c.label("not-simplex"); return; }
  classifyFree(c, g); RepType rep = c.s.chance(2, 5) ? F4 : F1; c.label(rep == F1 ? "F1" : "F4"); c.label(g.topo == 2 ? "2D" : "3D");
  Sp w(c); w.simplex = o.simplex; w.start(g, rep); int n = 1 + c.s.draw(3 + c.size / 4); for (int i = 0; i < n; i++) if (w.simplex) w.simplexSplit(); else w.split();
  MESH_Delete(w.mesh); if (w.eff >= 2) c.nontrivial();
}

int main(int argc, char** argv) { static pbt::Property P = {"C21", "at least two splits took effect", run, 5000, 50000}; return pbt::main_serial(argc, argv, P); }
