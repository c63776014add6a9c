#include "mod.h"
// Sequences of edge collapses, each compared with the predicted mesh.
struct Col : World {
  int eff = 0, refused = 0; std::vector<void*> lens; Col(Case& c_) : World(c_) {}
  void* H(int d, int i) { return b.ent[d][i]; }
  struct Plan { std::string skip; VI degF, degR; std::vector<VI> eg, fg; std::vector<VI> cyc; };  // eg/fg: groups of edges / faces that become coincident
  // what collapsing edge e onto vertex k does, whichever entity of a coincident group survives
  Plan plan(int e, int k) {
    Plan p; int del = m.E[e][0] == k ? m.E[e][1] : m.E[e][0]; auto im = [&](int v) { return v == del ? k : v; };
    std::map<VI, VI> g1, g2; std::vector<VI> key(m.n(2)); p.cyc.resize(m.n(2));
    for (int i = 0; i < m.n(1); i++) if (i != e) { VI q = sorted(VI{im(m.E[i][0]), im(m.E[i][1])}); if (q[0] == q[1]) { p.skip = "double-edge"; return p; } g1[q].push_back(i); }
    for (auto& q : g1) if (q.second.size() > 1) p.eg.push_back(q.second);
    for (int f = 0; f < m.n(2); f++) {
      auto& F = m.F[f]; VI v; int n = F.v.size(); bool has = false; for (int j = 0; j < n; j++) { if (F.e[j] == e) { has = true; continue; } v.push_back(im(F.v[j])); }
      if (has) for (size_t j = 0; j < v.size(); j++) {}  // the vertex after e stands for both ends
      p.cyc[f] = v; VI s = sorted(v); if (std::adjacent_find(s.begin(), s.end()) != s.end()) { p.skip = "pinched-face"; return p; }
      if (v.size() < 3) { p.degF.push_back(f); continue; } key[f] = s; g2[s].push_back(f);
    }
    std::set<VI> both; for (auto& q : g2) if (q.second.size() > 1) { p.fg.push_back(q.second); for (int f : q.second) for (int h : q.second) if (!sameCycle(p.cyc[f], p.cyc[h], false) && !sameCycle(p.cyc[f], p.cyc[h], true)) { p.skip = "crossed-faces"; return p; } }
    { VI ra = m.up(0, m.E[e][0], 3), rz = m.up(0, m.E[e][1], 3), re = m.up(1, e, 3); for (int r : ra) if (std::count(rz.begin(), rz.end(), r) && !std::count(re.begin(), re.end(), r)) { p.skip = "pinched-region"; return p; } }
    for (int r = 0; r < m.n(3); r++) {
      VI left; bool coin = false; for (int f : m.R[r].f) if (key[f].size()) { for (int h : left) coin |= key[f] == key[h]; left.push_back(f); }
      if (coin) { if (left.size() != 2) { p.skip = "open-degenerate-region"; return p; } p.degR.push_back(r); }
    }
    return p;
  }
  // the predicted mesh; kept[d]: deleted member of a coincident group -> surviving one
  Edit predict(int e, int k, const Plan& p, const std::map<int, int> kept[2]) {
    Edit P(m); RMesh& x = P.m; int del = m.E[e][0] == k ? m.E[e][1] : m.E[e][0]; for (auto& q : x.E) for (int& v : q) if (v == del) v = k;
    std::set<int> dead(p.degR.begin(), p.degR.end()), df(p.degF.begin(), p.degF.end());
    for (int f = 0; f < m.n(2); f++) { auto& F = x.F[f]; VI v, ee; for (size_t j = 0; j < F.v.size(); j++) if (F.e[j] != e) { v.push_back(F.v[j] == del ? k : F.v[j]); int g = F.e[j]; auto it = kept[0].find(g); ee.push_back(it == kept[0].end() ? g : it->second); } F.v = v; F.e = ee; F.d.clear(); for (size_t j = 0; j < v.size(); j++) F.d.push_back(x.E[ee[j]][0] == v[j]); }
    for (int r = 0; r < m.n(3); r++) { auto& R = x.R[r]; VI f, d; for (size_t j = 0; j < R.f.size(); j++) { int g = R.f[j]; if (df.count(g)) continue; auto it = kept[1].find(g); if (it == kept[1].end()) { f.push_back(g); d.push_back(R.d[j]); } else { f.push_back(it->second); d.push_back(R.d[j] ^ !sameCycle(x.F[g].v, x.F[it->second].v, false)); } } R.f = f; R.d = d; }
    P.kill(0, del); P.kill(1, e); for (auto& q : kept[0]) P.kill(1, q.first); for (auto& q : kept[1]) P.kill(2, q.first); for (int f : p.degF) P.kill(2, f); for (int r : p.degR) P.kill(3, r);
    return P;
  }
  std::map<int, int> any(const std::vector<VI>& g) { std::map<int, int> k; for (auto& q : g) for (size_t i = 1; i < q.size(); i++) k[q[i]] = q[0]; return k; }
  bool clash(int d, const std::vector<VI>& g) { for (auto& q : g) { int lo = 9; for (int i : q) lo = std::min(lo, m.gd[d][i]); for (int i : q) for (int j : q) if (m.gd[d][i] == m.gd[d][j] && m.gi[d][i] != m.gi[d][j]) return true; } return false; }
  bool tryOne() {
    int e = c.s.draw(m.n(1)); if (lens.size() && c.s.chance(1, 3)) { int k = b.find(1, lens[c.s.draw(lens.size())]); if (k >= 0) { e = k; c.label("lens-edge"); } } int want = c.s.draw(3), topo = c.s.coin(), a = m.E[e][0], z = m.E[e][1];
    // either end may survive when none is asked for; both must then be possible
    for (int k : {a, z}) { if (want < 2 && k != m.E[e][want]) continue; Plan p = plan(e, k); if (p.skip.empty()) { std::map<int, int> kk[2] = {any(p.eg), any(p.fg)}; Edit P = predict(e, k, p, kk); P.finish(); if (P.m.n(m.topo) == 0) p.skip = "nothing-left"; else try { P.m.buildUp(); checkValid(c, P.m, "predicted"); } catch (pbt::Failure& f) { p.skip = f.kind; } } if (!p.skip.empty()) { c.label("skip:" + p.skip); return false; } }
    int ga = m.gd[0][a], gz = m.gd[0][z]; bool onto[2] = {true, true}; // may a / z survive
    if (want < 2) onto[!want] = false;
    if (topo) { if (ga == gz) { if (m.gi[0][a] != m.gi[0][z]) onto[0] = onto[1] = false; } else if (ga < gz) onto[1] = false; else onto[0] = false; }
    Plan pa = plan(e, a); bool bad = topo && (clash(1, pa.eg) || clash(2, pa.fg)); bool must = (onto[0] || onto[1]) && !bad;
    c.note("collapse %d-%d keep %s topo %d%s", a, z, want == 2 ? "any" : want ? "second" : "first", topo, must ? "" : " must be refused");
    VI gid[3]; for (int d = 0; d < 3; d++) for (void* q : b.ent[d]) gid[d].push_back(MEnt_GlobalID(q));
    // asked for no particular vertex: the one on the outside survives when the classification does not matter, the one with the lower global ID when it allows both
    int better = -1; if (want == 2) { auto ext = [&](int v) { for (int i : m.up(0, v, 1)) if (m.up(1, i, 2).size() < 2) return true; for (int f : m.up(0, v, 2)) if (m.up(2, f, 3).size() == 1) return true; return false; };
      if (!topo) { bool xa = ext(a), xz = ext(z); if (xa != xz) better = xa ? a : z; } else if (onto[0] && onto[1] && gid[0][a] != gid[0][z]) better = gid[0][a] < gid[0][z] ? a : z; }
    std::vector<void*> old[4]; for (int d = 0; d < 4; d++) old[d] = b.ent[d];
    List_ptr del = nullptr, mer = nullptr; void* r = ME_Collapse(H(1, e), want == 2 ? nullptr : H(0, m.E[e][want]), topo, &del, &mer);
    if (!must) { REQ(c, !r, "not-refused", "ME_Collapse did not refuse a collapse against the classification (%s)", bad ? "merged edges or faces" : "vertices"); unchanged("ME_Collapse refused"); refused++; c.label(bad ? "refused:merge" : "refused:vertices"); return false; }
    REQ(c, r, "refused", "ME_Collapse refused a permitted collapse"); REQ(c, r == H(0, a) || r == H(0, z), "result", "result is not an end of the edge"); int k = r == H(0, a) ? a : z, dv = k == a ? z : a;
    REQ(c, onto[k == z], "kept-vertex", "ME_Collapse kept the %s vertex", want < 2 ? "other" : "higher-dimensional");
    if (better >= 0) { REQ(c, k == better, "preferred-vertex", "ME_Collapse kept vertex %d (global ID %d), not vertex %d (global ID %d)", k, gid[0][k], better, gid[0][better]); c.label(topo ? "lower-global-id" : "external-vertex"); }
    Plan p = plan(e, k); REQ(c, del && mer, "lists", "lists of deleted entities and merged pairs not returned");
    std::vector<void*> dl, ml; int x = 0; void* h; for (int i = 0; i < List_Num_Entries(del); i++) dl.push_back(List_Entry(del, i)); for (int i = 0; i < List_Num_Entries(mer); i++) ml.push_back(List_Entry(mer, i)); (void)x; (void)h;
    REQ(c, ml.size() % 2 == 0 && ml.size() >= 2 && ml[0] && ml[1], "pairs", "merged pairs list has %zu entries", ml.size());
    std::map<int, int> kept[2]; bool vp = false;
    for (size_t i = 0; i < ml.size(); i += 2) { int d = -1, q = -1, s = -1; for (int D = 0; D < 3; D++) { int t = b.find(D, ml[i]); if (t >= 0) { d = D; q = t; s = b.find(D, ml[i + 1]); } }
      REQ(c, d >= 0 && s >= 0 && q != s, "pairs", "merged pair %zu is not a pair of old entities of one dimension", i / 2);
      if (d == 0) { REQ(c, !vp && q == dv && s == k, "pairs", "wrong vertex pair"); vp = true; continue; } REQ(c, !kept[d - 1].count(q), "pairs", "entity %d of dimension %d merged twice", q, d); kept[d - 1][q] = s;
      if (topo) { int g1 = m.gd[d][s], g2 = m.gd[d][q]; REQ(c, g1 < g2 || (g1 == g2 && m.gi[d][s] == m.gi[d][q]), "topology", "entity of dimension %d classified (%d,%d) was merged into one classified (%d,%d)", d, g2, m.gi[d][q], g1, m.gi[d][s]); if (g1 < g2) c.label("to-lower-dim"); } }
    REQ(c, vp, "pairs", "the pair of vertices is missing");
    for (int d = 1; d <= 2; d++) { auto& K = kept[d - 1]; for (auto& q : K) { int t = q.second, n = 0; while (K.count(t) && n++ < 50) t = K[t]; REQ(c, n < 50, "pairs", "merged pairs form a cycle"); q.second = t; }
      std::set<VI> w, g; for (auto& q : d == 1 ? p.eg : p.fg) w.insert(sorted(q)); std::map<int, VI> gr; for (auto& q : K) gr[q.second].push_back(q.first); for (auto& q : gr) { q.second.push_back(q.first); g.insert(sorted(q.second)); }
      if (w != g) { for (auto& q : w) c.note("want %s", str(q).c_str()); for (auto& q : g) c.note("got %s", str(q).c_str()); for (auto& q : w) for (int f : q) if (d == 2) c.note("face %d cycle %s regs %s -> %s", f, str(m.F[f].v).c_str(), str(m.fR[f]).c_str(), str(p.cyc[f]).c_str()); }
      REQ(c, w == g, "pairs", "%zu groups of merged entities of dimension %d, expected %zu, or they differ", g.size(), d, w.size()); }
    // of two coincident entities, the one on the boundary survives, otherwise the one with the lower global ID
    for (int d = 1; d <= 2; d++) for (auto& q : d == 1 ? p.eg : p.fg) if (q.size() == 2) {
      int u = q[0], v = q[1], s = kept[d - 1].count(u) ? v : u; if (topo && m.gd[d][u] != m.gd[d][v]) continue; bool bu, bv;
      if (d == 1) { if (m.gd[1][u] > 3 || m.gd[1][v] > 3) continue; bu = m.gd[1][u] == 1 || m.gd[1][u] == 2; bv = m.gd[1][v] == 1 || m.gd[1][v] == 2; }
      else { auto out = [&](int f) { for (int r : m.up(2, f, 3)) if (!std::count(p.degR.begin(), p.degR.end(), r)) return false; return true; }; bu = out(u); bv = out(v); }
      if (bu == bv && gid[d][u] == gid[d][v]) continue; int w = bu != bv ? (bu ? u : v) : gid[d][u] < gid[d][v] ? u : v; c.label(bu != bv ? "boundary-survives" : "lower-id-survives");
      REQ(c, s == w, "survivor", "of coincident entities %d and %d of dimension %d (classified %d and %d, %s, global IDs %d and %d) %d survives", u, v, d, m.gd[d][u], m.gd[d][v], bu == bv ? "both alike" : "one on the boundary", gid[d][u], gid[d][v], s); }
    Edit P = predict(e, k, p, kept);
    { std::set<void*> want; for (int d = 0; d < 4; d++) for (int i = 0; i < m.n(d); i++) if (P.dead[d][i]) want.insert(H(d, i)); std::set<void*> g(dl.begin(), dl.end()); REQ(c, g.size() == dl.size(), "deleted-list", "deleted entities listed twice"); REQ(c, g == want, "deleted-list", "%zu deleted entities listed, expected %zu, or they differ", g.size(), want.size()); }
    ModOpt o; o.level = m.n(2) > 40 ? 1 : 2; step(P, "ME_Collapse", o); eff++;
    for (void* q : dl) REQ(c, MEnt_Dim(q) == MDELETED, "deleted-list", "a deleted entity is not marked deleted");
    if (c.s.coin()) { for (void* q : dl) MEnt_Delete(q, 0); ModOpt o2; o2.level = 0; unchanged("MEnt_Delete", o2); c.label("freed"); }
    List_Delete(del); List_Delete(mer);
    if (p.degF.size()) c.label("faces-removed"); if (p.degR.size()) c.label("regions-removed"); if (p.eg.size()) c.label("edges-merged"); if (p.fg.size()) c.label("faces-merged"); if (want == 2) c.label("keep-any"); if (topo) c.label("topo");
    for (int f : p.degF) for (int i : m.fR.empty() ? VI() : VI()) (void)i, (void)f;
    return true;
  }
};
static void run(Case& c) {
  GenOpt o; o.maxcells = 3 + c.s.draw(3 + c.size); o.simplex = c.s.chance(2, 5); o.polys = !o.simplex; o.surface3d = true; o.orientFlips = c.s.coin(); o.extras = c.s.chance(1, 5);
  RMesh g = c.s.coin() ? genMesh3D(c, o) : genMesh2D(c, o); c.label(g.topo == 3 ? "3D" : "2D");
  // flat regions between two faces with all but one vertex in common: collapsing the edge between those two removes the region
  std::vector<std::array<int, 2>> le; if (g.topo == 3 && c.s.coin()) { g.derive(); g.buildUp(); for (int t = 1 + c.s.draw(3); t > 0; t--) { Edit P(g); RMesh& x = P.m; VI big; for (int i = 0; i < x.n(2); i++) if (x.F[i].v.size() > 4) big.push_back(i); int r = c.s.draw(x.n(3)), k = c.s.draw(x.R[r].f.size()); if (big.size() && c.s.chance(2, 3)) { int q = c.s.pick(big); r = x.fR[q][0]; k = std::find(x.R[r].f.begin(), x.R[r].f.end(), q) - x.R[r].f.begin(); } int f = x.R[r].f[k], d = x.R[r].d[k], n = x.F[f].v.size(), j = c.s.draw(n); if (x.R[r].f.size() > 30) continue;
      VI cyc = x.F[f].v; int v = cyc[j], pv = cyc[(j + n - 1) % n], nx = cyc[(j + 1) % n]; V3 cen = {0, 0, 0}; VI rv = x.regVerts(r); for (int q : rv) cen = cen + (1.0 / rv.size()) * x.X[q]; int nv = P.addV(x.X[v] + c.s.real(.1, .4) * (cen - x.X[v]));
      cyc[j] = nv; int f2 = P.addF(cyc), t1 = P.addF({pv, v, nv}), t2 = P.addF({v, nx, nv}); P.replF(r, f, {f2, t1, t2}, {d, d, d}); P.addR({f, f2, t1, t2}, {d, !d, !d, !d}); P.finish(); g = P.m; g.buildUp(); le.push_back({v, nv}); c.label(n > 4 ? "lens-polygons" : "lens"); } }
  int w0 = c.s.draw(4); g.derive(); g.buildUp(); if (w0 < 2) classifyFree(c, g); else for (int d = 0; d < 4; d++) { g.gd[d].assign(g.n(d), w0 == 2 ? g.topo : 4); g.gi[d].assign(g.n(d), w0 == 2 ? 1 : 0); }
  RepType rep = c.s.chance(2, 5) ? F4 : F1; c.label(rep == F1 ? "F1" : "F4"); Col w(c); w.start(g, rep);
  for (auto& q : le) for (int i = 0; i < w.m.n(1); i++) if (sorted(VI{w.m.E[i][0], w.m.E[i][1]}) == sorted(VI{q[0], q[1]})) w.lens.push_back(w.b.ent[1][i]);
  if (c.s.coin()) { for (int d = 0; d < 4; d++) { std::vector<int> p(w.m.n(d)); std::iota(p.begin(), p.end(), 1); c.s.shuffle(p); for (int i = 0; i < w.m.n(d); i++) MEnt_Set_GlobalID(w.b.ent[d][i], p[i]); } c.label("global-ids"); }
  int n = 2 + c.s.draw(4 + c.size / 3), tries = 6 * n; while (n > 0 && tries-- > 0) if (w.m.n(1) && w.tryOne()) n--;
  MESH_Delete(w.mesh); if (w.eff >= 2) c.nontrivial();
}
int main(int argc, char** argv) { static pbt::Property P = {"C23", "at least two collapses took effect", run, 3000, 40000}; return pbt::main_serial(argc, argv, P); }
