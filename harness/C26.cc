#include "mod.h"
extern "C" void MR_Update_ElementType(MRegion_ptr r);
// Sequences of low-level topology edits, each compared with the edited model.
struct Low : World {
  bool closed = true, valid = true; int eff = 0; Low(Case& c_) : World(c_) {}
  void* E(int i) { return b.ent[1][i]; } void* F(int i) { return b.ent[2][i]; } void* R(int i) { return b.ent[3][i]; } void* V(int i) { return b.ent[0][i]; }
  void done(Edit& P, const char* what) { ModOpt o; o.valid = valid; o.closed = closed; o.level = !closed ? 0 : m.n(2) > 40 ? 1 : 2; step(P, what, o); c.label(what); eff++; }
  MVertex_ptr newV(Edit& P, V3 x) { MVertex_ptr v = MV_New(mesh); double d[3] = {x[0], x[1], x[2]}; MV_Set_Coords(v, d); MV_Set_GEntDim(v, 2); MV_Set_GEntID(v, 7); P.addV(x, 2, 7); return v; }
  MEdge_ptr newE(MVertex_ptr a, MVertex_ptr q) { MEdge_ptr e = ME_New(mesh); ME_Set_Vertex(e, 0, a); ME_Set_Vertex(e, 1, q); return e; }
  V3 between(int a, int q, double t) { V3 z = {c.s.real(-.05, .05), c.s.real(-.05, .05), m.topo == 2 ? 0 : c.s.real(-.05, .05)}; return (1 - t) * m.X[a] + t * m.X[q] + z; }
  // edges k consecutive from position i of face f become nn edges, in all faces of 'fs'
  void chain() {
    int f = c.s.draw(m.n(2)), ne = m.F[f].e.size(); int k, i = c.s.draw(ne); VI fs; bool all = true;
    if (c.s.chance(2, 3)) {  // a chain all of whose users use the whole of it
      k = 1; while (k < ne - 1 && c.s.chance(3, 4)) { int v = m.F[f].v[(i + k) % ne]; if (m.vE[v].size() != 2) break; k++; }
      fs = m.eF[m.F[f].e[i]]; for (int j = 1; j < k; j++) if (sorted(m.eF[m.F[f].e[(i + j) % ne]]) != sorted(fs)) return;
    } else { k = 1 + c.s.draw(ne - 2); fs = {f}; all = false; }
    int nn = 1 + c.s.draw(4); if (c.s.chance(1, 3)) nn = k; if (c.s.chance(1, 12)) nn += c.s.draw(24);
    for (int g : fs) { int n = m.F[g].e.size() - k + nn; if (n < 3 || n > 32) return; }
    VI oe; for (int j = 0; j < k; j++) oe.push_back(m.F[f].e[(i + j) % ne]);
    int a = m.F[f].v[i], q = m.F[f].v[(i + k) % ne]; int ex = nn == 1 ? m.edgeBetween(a, q) : -1;
    if (nn == 1 && ex >= 0 && k > 1) { if (!m.eF[ex].empty() && !all) return; for (int g : m.eF[ex]) for (int h : fs) if (g == h) return; }
    bool del = (nn == 1 && k == 1) || c.s.coin(); if (del) for (int e : oe) if (m.eF[e].size() != fs.size()) { if (nn == 1 && k == 1) return; del = false; }
    if (!all && m.topo == 3 && !m.fR[f].empty()) return;
    Edit P(m); std::vector<void*> ch; std::vector<int> pe, pv = {a}; std::vector<void*> hv = {V(a)};
    if (nn == 1 && ex >= 0 && k > 1) { ch.push_back(E(ex)); pe.push_back(ex); pv.push_back(q); c.label("existing-edge"); }
    else {
      for (int j = 1; j < nn; j++) { hv.push_back(newV(P, between(a, q, (double)j / nn))); pv.push_back(P.m.n(0) - 1); }
      hv.push_back(V(q)); pv.push_back(q);
      for (int j = 0; j < nn; j++) { bool fl = c.s.coin(); ch.push_back(newE(hv[j + fl], hv[j + !fl])); ME_Set_GEntDim(ch.back(), 2); ME_Set_GEntID(ch.back(), 5); pe.push_back(P.addE(pv[j + fl], pv[j + !fl], 2, 5)); }
    }
    int way = c.s.draw(4); std::set<void*> regs;
    for (int g : fs) {
      // position of the chain in g
      int n = m.F[g].e.size(), p0 = -1; bool bw = false;
      for (int s = 0; s < n; s++) { bool x = true, y = true; for (int j = 0; j < k; j++) { x &= m.F[g].e[(s + j) % n] == oe[j]; y &= m.F[g].e[(s + j) % n] == oe[k - 1 - j]; } if (x && m.F[g].v[s] == a) p0 = s; else if (y && m.F[g].v[s] == q) { p0 = s; bw = true; } }
      REQ(c, p0 >= 0, "harness", "chain not found");
      VI cyc, ces; std::vector<void*> newl, oldl; VI pes = pe, pvs = pv; if (bw) { std::reverse(pes.begin(), pes.end()); std::reverse(pvs.begin(), pvs.end()); }
      for (int j = 0; j < nn; j++) { cyc.push_back(pvs[j]); ces.push_back(pes[j]); } for (int j = k; j < n; j++) { cyc.push_back(m.F[g].v[(p0 + j) % n]); ces.push_back(m.F[g].e[(p0 + j) % n]); }
      RFace& T = P.m.F[g]; T.v = cyc; T.e = ces; T.d.clear(); for (size_t j = 0; j < cyc.size(); j++) T.d.push_back(P.m.E[ces[j]][0] == cyc[j]);
      newl = ch; for (int e : oe) oldl.push_back(E(e)); if (c.s.coin()) std::reverse(newl.begin(), newl.end()); if (c.s.coin()) std::reverse(oldl.begin(), oldl.end());
      VI now; { List_ptr l = MF_Edges(F(g), 1, 0); int x = 0; void* h; while ((h = List_Next_Entry(l, &x))) now.push_back(b.find(1, h)); List_Delete(l); }
      if (way == 3) { std::vector<void*> el; VI dl = T.d; std::map<int, void*> hh; for (int j = 0; j < nn; j++) hh[pe[j]] = ch[j]; for (int e : ces) el.push_back(hh.count(e) ? hh[e] : E(e)); int rot = c.s.draw(el.size()); std::rotate(el.begin(), el.begin() + rot, el.end()); std::rotate(dl.begin(), dl.begin() + rot, dl.end()); MF_Set_Edges(F(g), el.size(), el.data(), dl.data()); c.label("set-edges"); }
      else if (way == 2) { int s = 0; for (; s < n; s++) if (now[s] == (bw ? oe[k - 1] : oe[0])) break; MF_Replace_Edges_i(F(g), k, s, nn, newl.data()); if (s + k > n) c.label("wraps"); }
      else { MF_Replace_Edges(F(g), k, oldl.data(), nn, newl.data()); int s = 0; for (; s < n; s++) if (now[s] == (bw ? oe[k - 1] : oe[0])) break; if (s + k > n) c.label("wraps"); }
      for (int r : m.fR[g]) regs.insert(R(r));
    }
    for (void* r : regs) MR_Update_ElementType(r);
    if (del) for (int e : oe) { ME_Delete(E(e), 0); P.kill(1, e); }
    if (k > 1) { if (nn < k) c.label("shrinks"); } if (nn > k) c.label("grows");
    done(P, way == 3 ? "MF_Set_Edges" : way == 2 ? "MF_Replace_Edges_i" : "MF_Replace_Edges");
  }
  void revEdge() {
    int e = c.s.draw(m.n(1)); Edit P(m); std::swap(P.m.E[e][0], P.m.E[e][1]); ME_Set_Vertex(E(e), 0, V(m.E[e][1])); ME_Set_Vertex(E(e), 1, V(m.E[e][0]));
    for (int f : m.eF[e]) for (size_t k = 0; k < m.F[f].e.size(); k++) if (m.F[f].e[k] == e) { P.m.F[f].d[k] ^= 1; if (c.s.coin()) MF_Rev_EdgeDir(F(f), E(e)); else { List_ptr l = MF_Edges(F(f), 1, 0); int p = List_Locate(l, E(e)); List_Delete(l); MF_Rev_EdgeDir_i(F(f), p); } }
    done(P, "MF_Rev_EdgeDir");
  }
  void revFace() {
    int f = c.s.draw(m.n(2)); Edit P(m); RFace T; int n = m.F[f].v.size(); for (int k = n; k-- > 0;) { T.v.push_back(m.F[f].v[(k + 1) % n]); T.e.push_back(m.F[f].e[k]); T.d.push_back(!m.F[f].d[k]); } P.m.F[f] = T;
    std::vector<void*> el; for (int e : T.e) el.push_back(E(e)); MF_Set_Edges(F(f), n, el.data(), T.d.data());
    for (int r : m.fR[f]) for (size_t k = 0; k < m.R[r].f.size(); k++) if (m.R[r].f[k] == f) P.m.R[r].d[k] ^= 1;
    if (!m.fR[f].empty()) {
      int r = c.s.pick(m.fR[f]); List_ptr l = MR_Faces(R(r)); int p = List_Locate(l, F(f)); List_Delete(l); int w = c.s.draw(4);
      if (w == 0) MR_Rev_FaceDir(R(r), F(f)); else if (w == 1) MR_Rev_FaceDir_i(R(r), p);
      else for (int q : m.fR[f]) for (size_t k = 0; k < m.R[q].f.size(); k++) if (m.R[q].f[k] == f) { if (w == 2) MR_Set_FaceDir(R(q), F(f), P.m.R[q].d[k]); else { List_ptr l2 = MR_Faces(R(q)); int p2 = List_Locate(l2, F(f)); List_Delete(l2); MR_Set_FaceDir_i(R(q), p2, P.m.R[q].d[k]); } }
      done(P, w < 2 ? "MR_Rev_FaceDir" : "MR_Set_FaceDir");
    } else done(P, "reverse-face");
  }
  // faces of one region replaced by copies, parts or unions
  void replFaces() {
    if (!m.n(3)) return; int r = c.s.draw(m.n(3)); auto& RR = m.R[r]; VI pool = RR.f; c.s.shuffle(pool); Edit P(m);
    if (RR.f.size() > 60) return;
    struct Grp { VI old, nu, same; std::vector<void*> h; int other; }; std::vector<Grp> gs; std::set<int> used; int want = 1 + c.s.draw(4);
    auto dirIn = [&](int q, int f) { for (size_t k = 0; k < m.R[q].f.size(); k++) if (m.R[q].f[k] == f) return m.R[q].d[k]; return -1; };
    auto other = [&](int f) { for (int q : m.fR[f]) if (q != r) return q; return -1; };
    auto mk = [&](Grp& G, VI cyc, bool outlike) {  // a face on the cycle 'cyc' oriented like the old one seen from r, or reversed
      std::vector<void*> el; VI dl; bool fl = c.s.coin(); if (fl) std::reverse(cyc.begin(), cyc.end());
      for (size_t k = 0; k < cyc.size(); k++) { int a = cyc[k], q = cyc[(k + 1) % cyc.size()], e = P.edge(a, q); REQ(c, e >= 0, "harness", "edge missing"); el.push_back(eh(P, e)); dl.push_back(P.m.E[e][0] == a); }
      MFace_ptr h = MF_New(mesh); MF_Set_GEntDim(h, 2); MF_Set_GEntID(h, 3); MF_Set_Edges(h, el.size(), el.data(), dl.data()); G.nu.push_back(P.addF(cyc, 2, 3)); G.h.push_back(h); G.same.push_back(fl ? 0 : 1); (void)outlike; };
    extraE.clear(); extraV.clear();
    for (int f : pool) {
      if ((int)gs.size() >= want) break; if (used.count(f)) continue; Grp G; G.old = {f}; G.other = other(f); int d = dirIn(r, f); VI cyc = m.F[f].v; if (!d) std::reverse(cyc.begin(), cyc.end()); int n = cyc.size();  // outward cycle
      int kind = c.s.draw(4);
      if (kind == 0) { mk(G, cyc, true); c.label("copy-face"); }
      else if (kind == 1 && n >= 4) { int i = c.s.draw(n), j = (i + 2 + c.s.draw(n - 3)) % n; if (P.edge(cyc[i], cyc[j]) >= 0) continue; MEdge_ptr h = newE(V(cyc[i]), V(cyc[j])); ME_Set_GEntDim(h, 2); ME_Set_GEntID(h, 5); extraE[P.addE(cyc[i], cyc[j], 2, 5)] = h;
        VI A, B; for (int k = i;; k = (k + 1) % n) { A.push_back(cyc[k]); if (k == j) break; } for (int k = j;; k = (k + 1) % n) { B.push_back(cyc[k]); if (k == i) break; } mk(G, A, true); mk(G, B, true); c.label("split-face"); }
      else if (kind == 2) { V3 x = {0, 0, 0}; for (int v : cyc) x = x + (1.0 / n) * m.X[v]; MVertex_ptr v = newV(P, x); int vi = P.m.n(0) - 1; for (int k = 0; k < n; k++) { MEdge_ptr h = newE(v, V(cyc[k])); ME_Set_GEntDim(h, 2); ME_Set_GEntID(h, 5); extraE[P.addE(vi, cyc[k], 2, 5)] = h; } for (int k = 0; k < n; k++) mk(G, {vi, cyc[k], cyc[(k + 1) % n]}, true); c.label("star-face"); }
      else {  // union with a neighbour used by the same regions
        int g = -1; for (int e : m.F[f].e) for (int h : m.eF[e]) if (g < 0 && h != f && !used.count(h) && dirIn(r, h) >= 0 && other(h) == G.other) { VI sv; for (int v : m.F[h].v) if (std::count(cyc.begin(), cyc.end(), v)) sv.push_back(v); if (sv.size() == 2 && (int)RR.f.size() > 4 && (G.other < 0 || m.R[G.other].f.size() > 4) && gs.empty()) g = h; }
        if (g < 0) continue; VI cg = m.F[g].v; if (!dirIn(r, g)) std::reverse(cg.begin(), cg.end()); if (cg.size() + n - 2 > 32) continue;
        int p = 0; for (int k = 0; k < n; k++) if (std::count(cg.begin(), cg.end(), cyc[k]) && std::count(cg.begin(), cg.end(), cyc[(k + 1) % n])) p = k;
        std::rotate(cyc.begin(), cyc.begin() + (p + 1) % n, cyc.end());  // shared edge: last -> first
        int q = std::find(cg.begin(), cg.end(), cyc[0]) - cg.begin(); std::rotate(cg.begin(), cg.begin() + q, cg.end()); if (cg[1] != cyc.back()) continue;
        // edges joining the two more than once would stay inside
        int sh = 0; for (int e : m.F[g].e) sh += std::count(m.F[f].e.begin(), m.F[f].e.end(), e); if (sh != 1) continue;
        if (P.face([&] { VI z = cyc; for (size_t k = 2; k < cg.size(); k++) z.push_back(cg[k]); return z; }()) >= 0) continue;
        for (size_t k = 2; k < cg.size(); k++) cyc.push_back(cg[k]); std::swap(cg, cg); G.old.push_back(g); used.insert(g); mk(G, cyc, true); c.label("union-face");
      }
      used.insert(f); gs.push_back(G);
    }
    if (gs.empty()) return;
    // apply per region
    std::map<int, std::vector<int>> per; for (size_t i = 0; i < gs.size(); i++) { per[r].push_back(i); if (gs[i].other >= 0) per[gs[i].other].push_back(i); }
    for (auto& pr : per) {
      int q = pr.first; std::vector<void*> oldl, nul; VI nd; std::vector<std::pair<void*, int>> nn;
      for (int i : pr.second) { auto& G = gs[i]; for (int f : G.old) oldl.push_back(F(f)); VI dd; for (size_t k = 0; k < G.nu.size(); k++) { int d = q == r ? G.same[k] : !G.same[k]; dd.push_back(d); nn.push_back({G.h[k], d}); } P.replF(q, G.old[0], G.nu, dd); for (size_t k = 1; k < G.old.size(); k++) P.replF(q, G.old[k], {}, {}); }
      c.s.shuffle(oldl); c.s.shuffle(nn); for (auto& x : nn) { nul.push_back(x.first); nd.push_back(x.second); }
      if (oldl.size() == 1 && nul.size() == 1 && c.s.coin()) { List_ptr l = MR_Faces(R(q)); int p = List_Locate(l, oldl[0]); List_Delete(l); MR_Replace_Face_i(R(q), p, nul[0], nd[0]); c.label("MR_Replace_Face_i"); }
      else if (c.s.chance(1, 3)) {  // the whole boundary anew
        std::vector<std::pair<void*, int>> all = nn; List_ptr l = MR_Faces(R(q)); for (int k = 0; k < List_Num_Entries(l); k++) if (!std::count(oldl.begin(), oldl.end(), List_Entry(l, k))) all.push_back({List_Entry(l, k), MR_FaceDir_i(R(q), k)}); List_Delete(l);
        c.s.shuffle(all); nul.clear(); nd.clear(); for (auto& x : all) { nul.push_back(x.first); nd.push_back(x.second); } MR_Set_Faces(R(q), nul.size(), nul.data(), nd.data()); c.label("MR_Set_Faces"); }
      else MR_Replace_Faces(R(q), oldl.size(), oldl.data(), nul.size(), nul.data(), nd.data());
      if (P.m.R[q].f.size() > 32) c.label("over-32-faces");
    }
    bool del = true; for (auto& G : gs) if (del) for (int f : G.old) { MF_Delete(F(f), 0); P.kill(2, f); }
    done(P, "MR_Replace_Faces");
  }
  std::map<int, void*> extraE; std::map<int, void*> extraV;
  void* eh(Edit&, int e) { auto it = extraE.find(e); return it == extraE.end() ? E(e) : it->second; }
  void remFace() {
    if (!m.n(3)) return; int r = c.s.draw(m.n(3)); if (m.R[r].f.size() < 2) return; int f = c.s.pick(m.R[r].f); int d = 0; for (size_t k = 0; k < m.R[r].f.size(); k++) if (m.R[r].f[k] == f) d = m.R[r].d[k];
    bool was = closed, wv = valid; closed = false; valid = false; { Edit P(m); P.replF(r, f, {}, {}); MR_Rem_Face(R(r), F(f)); done(P, "MR_Rem_Face"); } closed = was; valid = wv;
    Edit P(m); P.m.R[r].f.push_back(f); P.m.R[r].d.push_back(d); void* h = F(f); MR_Replace_Faces(R(r), 0, NULL, 1, &h, &d); done(P, "MR_Replace_Faces add");
  }
  void replVertex() {  // all edges of a vertex move to a new one
    int v = c.s.draw(m.n(0)); if (m.vE[v].empty()) return; Edit P(m); MVertex_ptr h = newV(P, m.X[v] + V3{0.1, 0.1, 0}); int nv = P.m.n(0) - 1; VI es = m.vE[v]; c.s.shuffle(es);
    for (int e : es) { ME_Replace_Vertex(E(e), V(v), h); for (int& x : P.m.E[e]) if (x == v) x = nv; } for (auto& T : P.m.F) for (int& x : T.v) if (x == v) x = nv;
    if (c.s.coin()) { MV_Delete(V(v), 0); P.kill(0, v); }
    done(P, "ME_Replace_Vertex");
  }
  void contract() {  // an edge is taken out of its faces after its vertices were identified
    VI es; for (int e = 0; e < m.n(1); e++) { bool ok = !m.eF[e].empty(); for (int f : m.eF[e]) ok &= m.F[f].e.size() > 3; if (ok) es.push_back(e); } if (es.empty()) return; int e = c.s.pick(es), k = c.s.draw(2), a = m.E[e][k], q = m.E[e][!k];
    std::set<int> na; for (int x : m.vE[a]) na.insert(m.E[x][0] ^ m.E[x][1] ^ a); for (int x : m.vE[q]) if (na.count(m.E[x][0] ^ m.E[x][1] ^ q)) return;
    for (int f : m.up(0, a, 2)) if (std::count(m.F[f].v.begin(), m.F[f].v.end(), q) && !std::count(m.eF[e].begin(), m.eF[e].end(), f)) return;
    Edit P(m); VI other = m.vE[q]; for (int x : other) if (x != e) { ME_Replace_Vertex(E(x), V(q), V(a)); for (int& y : P.m.E[x]) if (y == q) y = a; }
    std::set<void*> regs; VI fs = m.eF[e]; c.s.shuffle(fs);
    for (int f = 0; f < m.n(2); f++) { RFace& T = P.m.F[f]; bool has = std::count(m.eF[e].begin(), m.eF[e].end(), f); if (has) { RFace N; for (size_t j = 0; j < T.e.size(); j++) if (T.e[j] != e) { N.v.push_back(T.v[j] == q ? a : T.v[j]); N.e.push_back(T.e[j]); N.d.push_back(T.d[j]); } T = N; } else for (int& y : T.v) if (y == q) y = a; }
    for (int f : fs) { MF_Rem_Edge(F(f), E(e)); for (int r : m.fR[f]) regs.insert(R(r)); }
    for (void* r : regs) MR_Update_ElementType(r);
    if (c.s.coin()) { ME_Delete(E(e), 0); P.kill(1, e); if (c.s.coin()) { MV_Delete(V(q), 0); P.kill(0, q); } }
    std::set<VI> ss; for (int i = 0; i < P.m.n(2); i++) if (!ss.insert(sorted(P.m.F[i].v)).second) valid = false;
    done(P, "MF_Rem_Edge");
  }
};
static void run(Case& c) {
  GenOpt o; o.planar = false; o.maxcells = 1 + c.s.draw(2 + c.size / 6); o.extras = c.s.chance(1, 5); RMesh g = genMesh(c, o); g.buildUp(); RepType rep = c.s.chance(2, 5) ? F4 : F1; c.label(rep == F1 ? "F1" : "F4"); c.label(g.topo == 2 ? "2D" : "3D");
  Low w(c); w.start(g, rep); int n = 2 + c.s.draw(3 + c.size / 3);
  for (int i = 0; i < n; i++) { if (!w.valid && w.eff) break; int k = c.s.draw(12); if (k < 5) w.chain(); else if (k == 5) w.revEdge(); else if (k == 6) w.revFace(); else if (k < 9) w.replFaces(); else if (k == 9) w.remFace(); else if (k == 10) w.replVertex(); else w.contract(); }
  MESH_Delete(w.mesh); if (w.eff >= 2) c.nontrivial();
}

int main(int argc, char** argv) { static pbt::Property P = {"C26", "at least two edits took effect", run, 6000, 60000}; return pbt::main_serial(argc, argv, P); }
