#include "mod.h"
// Meshes cut into pieces and glued back by merging vertices, edges and faces; each merge is compared with the merged model.
struct Merge : World {
  int eff = 0, refused = 0, arb = 0; std::unordered_map<void*, int> org; std::vector<MSet_ptr> sets; std::vector<std::vector<void*>> sv;
  Merge(Case& c_) : World(c_) {}
  void* H(int d, int i) { return b.ent[d][i]; }
  bool common(const VI& a, const VI& q) { for (int i : a) for (int j : q) if (i == j) return true; return false; }
  VI cellsOf(int d, int i) { VI r; for (int D = d + 1; D <= m.topo; D++) for (int k : m.up(d, i, D)) r.push_back(D * 1000000 + k); return r; }
  bool dbl() { std::set<VI> s; for (auto& e : m.E) if (!s.insert(sorted(VI{e[0], e[1]})).second) return true; s.clear(); for (auto& f : m.F) if (!s.insert(sorted(f.e)).second) return true; return false; }
  // what merging requires besides the classification
  bool fits(int d, int i, int j) {
    if (d == 0) return true;
    if (d == 1) return sorted(VI{m.E[i][0], m.E[i][1]}) == sorted(VI{m.E[j][0], m.E[j][1]});
    if (sorted(m.F[i].e) != sorted(m.F[j].e)) return false;
    bool same = sameCycle(m.F[i].v, m.F[j].v, false); int side[2] = {0, 0}; for (int r : m.fR[i]) for (size_t k = 0; k < m.R[r].f.size(); k++) if (m.R[r].f[k] == i) side[m.R[r].d[k]]++;
    for (int r : m.fR[j]) for (size_t k = 0; k < m.R[r].f.size(); k++) if (m.R[r].f[k] == j && side[m.R[r].d[k] ^ !same]) { c.label("side-taken"); return false; }
    return true;
  }
  void checkSets(const char* what) {
    for (size_t k = 0; k < sets.size(); k++) {
      std::vector<void*> g; int x = 0; void* h; while ((h = MSet_Next_Entry(sets[k], &x))) g.push_back(h);
      auto w = sv[k]; std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end()); REQ(c, g == w, "mset", "%s: entity set %zu has %zu entries that are not the %zu expected ones", what, k, g.size(), w.size());
    }
  }
  bool merge(int d, int i, int j, int topo) {
    const char* nm[] = {"MVs_Merge", "MEs_Merge", "MFs_Merge"}; void *a = H(d, i), *q = H(d, j);
    int d1 = m.gd[d][i], d2 = m.gd[d][j], i1 = m.gi[d][i], i2 = m.gi[d][j];
    bool must = fits(d, i, j), mustnot = !must;
    if (topo && !mustnot) { if (d2 < d1 || (d1 == d2 && i1 != i2)) { mustnot = true; c.label(d2 < d1 ? "dim-reduction" : "other-entity"); } must = !mustnot && (d ? true : d1 == d2); if (d2 > d1) c.label("to-lower-dim"); }
    else if (mustnot) c.label("mismatch");
    c.note("%s %d <- %d topo %d classes (%d,%d) (%d,%d)%s", nm[d], i, j, topo, d1, i1, d2, i2, mustnot ? " must be refused" : "");
    void* r = d == 0 ? (void*)MVs_Merge(a, q, topo) : d == 1 ? (void*)MEs_Merge(a, q, topo) : (void*)MFs_Merge(a, q, topo);
    REQ(c, !r || r == a, "result", "%s returned neither the kept entity nor nothing", nm[d]);
    REQ(c, r || !must, "refused", "%s refused a merge of entities classified (%d,%d) and (%d,%d) with topoflag %d", nm[d], d1, i1, d2, i2, topo);
    REQ(c, !r || !mustnot, "not-refused", "%s merged %s", nm[d], fits(d, i, j) ? "against the classification" : "entities whose boundaries differ");
    ModOpt o; o.valid = false; o.closed = false; o.level = 0;
    if (!r) { unchanged(nm[d], o); checkSets(nm[d]); refused++; c.label("refused"); return false; }
    Edit P(m); RMesh& p = P.m;
    if (d == 0) { for (auto& e : p.E) for (int& v : e) if (v == j) v = i; for (auto& f : p.F) for (int& v : f.v) if (v == j) v = i; }
    if (d == 1) { bool same = p.E[i][0] == p.E[j][0]; if (!same) c.label("opposite-edge"); for (auto& f : p.F) for (size_t k = 0; k < f.e.size(); k++) if (f.e[k] == j) { f.e[k] = i; if (!same) f.d[k] ^= 1; } }
    if (d == 2) { bool same = sameCycle(p.F[i].v, p.F[j].v, false); if (p.F[i].v.size() > 2 && !same) c.label("opposite-face"); for (auto& R : p.R) for (size_t k = 0; k < R.f.size(); k++) if (R.f[k] == j) { R.f[k] = i; if (!same) R.d[k] ^= 1; } }
    P.kill(d, j); p.derive();
    for (auto& s : sv) { bool has = std::count(s.begin(), s.end(), a); for (size_t k = 0; k < s.size(); k++) if (s[k] == q) { if (has) s.erase(s.begin() + k--), c.label("set-both"); else s[k] = a, c.label("set-replaced"); } }
    org.erase(q);
    step(P, nm[d], o); checkSets(nm[d]);
    c.label(nm[d]); eff++; return true;
  }
};
static void run(Case& c) {
  bool two = c.s.chance(2, 5); GenOpt o; o.polys = !c.s.chance(1, 4); o.maxcells = two ? 4 + c.size : 3 + c.size / 2; o.surface3d = true; o.orientFlips = true;
  RMesh g = two ? genMesh2D(c, o) : genMesh3D(c, o); RepType rep = c.s.chance(1, 3) ? F4 : F1; int T = g.topo;
  g.derive(); g.buildUp(); if (c.s.chance(2, 3)) classifyFree(c, g); else for (int d = 0; d < 4; d++) { g.gd[d].assign(g.n(d), T); g.gi[d].assign(g.n(d), 1); }
  // pieces
  int nc = g.n(T), np = nc < 2 ? 1 : 2 + (c.s.chance(1, 3) ? c.s.draw(3) : 0); VI pc(nc);
  if (c.s.coin()) { V3 n = {c.s.real(-1, 1), c.s.real(-1, 1), c.s.real(-1, 1)}; std::vector<std::pair<double, int>> s; for (int i = 0; i < nc; i++) { V3 x = {0, 0, 0}; VI vs = T == 2 ? g.F[i].v : g.regVerts(i); for (int v : vs) x = x + (1.0 / vs.size()) * g.X[v]; s.push_back({dot(x, n), i}); } std::sort(s.begin(), s.end()); for (int i = 0; i < nc; i++) pc[s[i].second] = (int)((long)i * np / nc); }
  else for (int& p : pc) p = c.s.draw(np);
  // the cut mesh: one copy of an entity per piece, or a shared one
  RMesh h; h.topo = T; std::map<std::pair<int, int>, int> cp[4]; VI orig[4]; bool offset = c.s.chance(1, 4); int relax = c.s.draw(3);
  auto cls = [&](int d, int i, bool first) { int gd = g.gd[d][i], gi = g.gi[d][i];
    if (!first && c.s.chance(relax, 5)) { int k = c.s.draw(3); if (k == 0) gi += 1000; else if (k == 1 && gd < T) { gd++; gi = 2000 + c.s.draw(3); } else if (gd > d) { gd--; gi = 3000 + c.s.draw(3); } }
    h.gd[d].push_back(gd); h.gi[d].push_back(gi); orig[d].push_back(i); };
  auto pieces = [&](int d, int i) { std::set<int> s; if (d == T) s.insert(pc[i]); else for (int k : g.up(d, i, T)) s.insert(pc[k]); if (s.empty()) s.insert(0); return s; };
  int keepTogether = c.s.draw(5);
  for (int i = 0; i < g.n(0); i++) { bool sel = !c.s.chance(keepTogether, 8); int first = -1; for (int p : pieces(0, i)) { if (first >= 0 && !sel) { cp[0][{i, p}] = first; continue; } V3 x = g.X[i]; if (offset && first >= 0) x = x + V3{c.s.real(-.1, .1), c.s.real(-.1, .1), c.s.real(-.1, .1)}; h.X.push_back(x); cls(0, i, first < 0); cp[0][{i, p}] = (int)h.X.size() - 1; if (first < 0) first = h.X.size() - 1; } }
  for (int i = 0; i < g.n(1); i++) { bool sel = !c.s.chance(keepTogether, 8); std::map<VI, int> seen; bool first = true; for (int p : pieces(1, i)) {
    auto vp = [&](int v) { auto it = cp[0].find({v, p}); if (it != cp[0].end()) return it->second; for (auto& q : cp[0]) if (q.first.first == v) return q.second; return -1; };
    int a = vp(g.E[i][0]), q = vp(g.E[i][1]); VI key = {a, q, sel ? p : -1}; auto it = seen.find(key); if (it != seen.end()) { cp[1][{i, p}] = it->second; continue; }
    if (c.s.coin()) std::swap(a, q); h.E.push_back({a, q}); cls(1, i, first); first = false; cp[1][{i, p}] = seen[key] = (int)h.E.size() - 1; } }
  auto mkFace = [&](int i, int p) { RFace f; for (int v : g.F[i].v) { auto it = cp[0].find({v, p}); f.v.push_back(it->second); } for (int e : g.F[i].e) f.e.push_back(cp[1].at({e, p})); for (size_t k = 0; k < f.v.size(); k++) f.d.push_back(h.E[f.e[k]][0] == f.v[k]); return f; };
  auto revF = [&](const RFace& s) { RFace t; int n = s.v.size(); for (int k = n; k-- > 0;) { t.v.push_back(s.v[(k + 1) % n]); t.e.push_back(s.e[k]); t.d.push_back(!s.d[k]); } return t; };
  VI flip; for (int i = 0; i < g.n(2); i++) { bool sel = !c.s.chance(keepTogether, 8); std::map<VI, int> seen; bool first = true; for (int p : pieces(2, i)) {
    RFace f = mkFace(i, p); VI key = f.e; key.push_back(sel ? p : -1); auto it = seen.find(key); if (it != seen.end()) { cp[2][{i, p}] = it->second; continue; }
    bool fl = T == 3 && !first && c.s.coin(); if (fl) f = revF(f); int rot = c.s.draw(f.v.size()); std::rotate(f.v.begin(), f.v.begin() + rot, f.v.end()); std::rotate(f.e.begin(), f.e.begin() + rot, f.e.end()); std::rotate(f.d.begin(), f.d.begin() + rot, f.d.end());
    h.F.push_back(f); flip.push_back(fl); cls(2, i, first); first = false; cp[2][{i, p}] = seen[key] = (int)h.F.size() - 1; } }
  for (int i = 0; i < g.n(3); i++) { RReg R = g.R[i]; R.sv.clear(); for (size_t k = 0; k < R.f.size(); k++) { int f = cp[2].at({R.f[k], pc[i]}); R.f[k] = f; R.d[k] ^= flip[f]; } h.R.push_back(R); cls(3, i, true); }
  h.derive(); h.buildUp();
  Merge w(c); RMesh hc = h; BM b0; w.start(hc, rep);
  for (int d = 0; d < 4; d++) REQ(c, w.m.n(d) == h.n(d), "harness", "built mesh differs");
  for (int d = 0; d < 4; d++) for (int i = 0; i < h.n(d); i++) w.org[w.b.ent[d][i]] = orig[d][i];
  for (int t = 0, ns = c.s.draw(7); t < ns; t++) {   // several sets, of one dimension or of entities of all dimensions
    char nm[16]; sprintf(nm, "s%d", t); int k = c.s.draw(5); if (k > 2) c.label("set-any-type"); MSet_ptr s = MSet_New(w.mesh, nm, k == 0 ? MVERTEX : k == 1 ? MEDGE : k == 2 ? MFACE : MALLTYPE); std::vector<void*> v;
    int den = 1 + c.s.draw(4); for (int d = k > 2 ? 0 : k; d <= (k > 2 ? T : k); d++) for (int i = 0; i < w.m.n(d); i++) if (!c.s.draw(den)) { MSet_Add(s, w.b.ent[d][i]); v.push_back(w.b.ent[d][i]); } w.sets.push_back(s); w.sv.push_back(v); }
  { VI cnt; int tot = 0; for (int d = 0; d < 3; d++) tot += h.n(d) - g.n(d); c.note("%s cells %d pieces %d, duplicates %d", rep == F1 ? "F1" : "F4", nc, np, tot); if (!tot) c.label("no-cut"); }
  int mode = c.s.draw(4), budget = 6 + 4 * c.size, stuck = 0; // 0: mixed order with topology, 1: without, 2: any, 3: with unrelated vertices
  while (budget-- > 0 && stuck < 60) {
    int topo = mode == 0 ? 1 : mode == 1 ? 0 : c.s.coin(); RMesh& m = w.m;
    if (mode == 3 && c.s.chance(1, 3)) { int i = c.s.draw(m.n(0)), j = c.s.draw(m.n(0)); if (i == j || w.common(w.cellsOf(0, i), w.cellsOf(0, j))) continue; if (w.org[w.H(0, i)] != w.org[w.H(0, j)]) { if (w.merge(0, i, j, topo)) { w.arb++; c.label("unrelated-vertices"); } continue; } }
    if (c.s.chance(1, 10)) { int d = 1 + c.s.draw(T - 1), i = c.s.draw(m.n(d)), j = c.s.draw(m.n(d)); // a wrong pair
      if (d == 2 && c.s.chance(2, 3)) { auto& ef = m.eF[m.F[i].e[c.s.draw(m.F[i].e.size())]]; j = ef[c.s.draw(ef.size())]; } if (d == 1 && c.s.coin()) { auto& ve = m.vE[m.E[i][0]]; j = ve[c.s.draw(ve.size())]; }
      if (i != j && !w.fits(d, i, j)) { w.merge(d, i, j, topo); continue; } }
    // an eligible pair
    std::vector<std::array<int, 3>> cand; for (int d = 0; d < T; d++) { std::map<VI, VI> grp; for (int i = 0; i < m.n(d); i++) { VI k; if (d == 0) k = {w.org[w.H(0, i)]}; else if (d == 1) k = sorted(VI{m.E[i][0], m.E[i][1]}); else k = sorted(m.F[i].e); grp[k].push_back(i); }
      for (auto& q : grp) for (size_t x = 0; x < q.second.size(); x++) for (size_t y = 0; y < q.second.size(); y++) if (x != y) { int i = q.second[x], j = q.second[y]; if (!w.common(w.cellsOf(d, i), w.cellsOf(d, j))) cand.push_back({d, i, j}); } }
    if (cand.empty()) break; auto k = cand[c.s.draw(cand.size())]; int before = w.eff; w.merge(k[0], k[1], k[2], topo); stuck = w.eff > before ? 0 : stuck + 1;
  }
  // the rest without regard to topology, then the whole mesh must be the original again
  if (!w.arb && c.s.chance(2, 3)) {
    for (int d = 0; d < T; d++) for (bool more = true; more;) { more = false; RMesh& m = w.m; std::map<int, int> seen; for (int i = 0; i < m.n(d); i++) { int k = w.org[w.H(d, i)]; if (!seen.count(k)) { seen[k] = i; continue; } int a = seen[k], q = i; if (c.s.coin()) std::swap(a, q); w.merge(d, a, q, 0); more = true; break; } }
    for (int d = 0; d < 4; d++) REQ(c, w.m.n(d) == g.n(d), "glued", "gluing every copy left %d entities of dimension %d, the mesh had %d", w.m.n(d), d, g.n(d));
    checkValid(c, w.m, "glued", false); RMesh x = w.m; x.buildUp(); checkAdjacency(c, w.b, x, "glued", 2); checkOrientation(c, w.b, x, "glued"); c.label("glued-back");
  }
  if (w.eff) c.nontrivial();
  MESH_Delete(w.mesh);
}
int main(int argc, char** argv) { static pbt::Property P = {"C24", "at least one merge was performed", run, 1200, 20000}; return pbt::main_serial(argc, argv, P); }
