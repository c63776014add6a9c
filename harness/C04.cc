#include "rmesh.h"
// Histories of creation, deletion (permanent or keeping), restoration, lookup
// and renumbering over one mesh, against the set of live model entities.
enum St { ABSENT, LIVE, KEPT };
struct Ent { St st = ABSENT; void* h = nullptr; int id = 0, att = 0, gd = 0, gi = 0; std::vector<void*> def; };
struct World {
  Case& c; RMesh m; Mesh_ptr mesh; MAttrib_ptr att; std::vector<Ent> e[4]; std::vector<std::pair<int, void*>> grave; int serial = 0; RepType rep;
  int dels = 0, keeps = 0, restores = 0, recreates = 0;
  World(Case& c_) : c(c_) {}
  VI bdry(int d, int i) { VI r; if (d == 1) r = {m.E[i][0], m.E[i][1]}; else if (d == 2) r = m.F[i].e; else if (d == 3) r = m.R[i].f; return r; }
  bool canCreate(int d, int i) { if (e[d][i].st == LIVE) return false; for (int k : bdry(d, i)) if (e[d - 1][k].st != LIVE) return false; return true; }
  bool canDelete(int d, int i) { if (e[d][i].st != LIVE) return false; if (d < 3) for (int D = d + 1; D < 4; D++) for (int k : m.up(d, i, D)) if (e[D][k].st == LIVE) return false; return true; }
  std::vector<void*> defOf(int d, int i) { std::vector<void*> r; for (int k : bdry(d, i)) r.push_back(e[d - 1][k].h); return r; }
  bool canRestore(int d, int i) { if (e[d][i].st != KEPT) return false; for (int k : bdry(d, i)) if (e[d - 1][k].st != LIVE) return false; return defOf(d, i) == e[d][i].def; }
  void adopt(int d, int i, void* h) {
    Ent& x = e[d][i]; if (x.st == KEPT) { grave.push_back({d, x.h}); recreates++; }
    x.h = h; x.st = LIVE; x.id = MEnt_ID(h); x.att = ++serial; MEnt_Set_IntAttVal(h, att, x.att);
    x.gd = d + (int)c.s.draw(4 - d); x.gi = 1 + c.s.draw(9); MEnt_Set_GEntDim(h, x.gd); MEnt_Set_GEntID(h, x.gi); x.def = defOf(d, i);
  }
  void newV(int i) { MVertex_ptr v = MV_New(mesh); double x[3] = {m.X[i][0], m.X[i][1], m.X[i][2]}; MV_Set_Coords(v, x); adopt(0, i, v); }
  void flipEdge(int i) { std::swap(m.E[i][0], m.E[i][1]); for (auto& F : m.F) for (size_t k = 0; k < F.e.size(); k++) if (F.e[k] == i) F.d[k] = !F.d[k];
    if (e[1][i].st == LIVE) e[1][i].def = defOf(1, i); }
  void newE(int i) { if (c.s.coin()) flipEdge(i); MEdge_ptr h = ME_New(mesh); ME_Set_Vertex(h, 0, e[0][m.E[i][0]].h); ME_Set_Vertex(h, 1, e[0][m.E[i][1]].h); adopt(1, i, h); }
  int vidx(void* v) { for (int i = 0; i < m.n(0); i++) if (e[0][i].st == LIVE && e[0][i].h == v) return i; return -1; }
  int eidx(void* v) { for (int i = 0; i < m.n(1); i++) if (e[1][i].st == LIVE && e[1][i].h == v) return i; return -1; }
  void implicitEdges(int f, MFace_ptr h) {  // edges made on the fly by the construction of a face
    List_ptr l = MF_Edges(h, 1, 0); REQ(c, l && List_Num_Entries(l) == (int)m.F[f].e.size(), "implicit-edge", "face built from vertices has a wrong number of edges");
    int idx = 0; void* p; while ((p = List_Next_Entry(l, &idx))) {
      int a = vidx(ME_Vertex(p, 0)), b = vidx(ME_Vertex(p, 1)); REQ(c, a >= 0 && b >= 0, "deleted-entity-used", "edge of a new face uses a deleted vertex");
      int k = m.edgeBetween(a, b); REQ(c, k >= 0, "implicit-edge", "new face has an edge between %d and %d", a, b);
      if (e[1][k].st == LIVE) { REQ(c, e[1][k].h == p, "duplicate-edge", "a second edge was made between %d and %d although one is live", a, b); continue; }
      REQ(c, MEnt_Dim(p) == MEDGE, "deleted-entity-used", "new face uses a deleted edge");
      if (m.E[k][0] != a) flipEdge(k);
      adopt(1, k, p);
    }
    List_Delete(l);
  }
  void newF(int i, bool byV) {
    RFace& F = m.F[i];
    MFace_ptr h = MF_New(mesh);
    if (byV) { std::vector<void*> v; for (int k : F.v) v.push_back(e[0][k].h); MF_Set_Vertices(h, v.size(), v.data()); implicitEdges(i, h); c.label("face-by-vertices"); }
    else { std::vector<void*> v; for (int k : F.e) v.push_back(e[1][k].h); VI d = F.d; MF_Set_Edges(h, v.size(), v.data(), d.data()); }
    adopt(2, i, h);
  }
  void newR(int i, bool byV) {
    RReg& R = m.R[i]; MRegion_ptr h = MR_New(mesh);
    if (!byV) { std::vector<void*> v; for (int k : R.f) v.push_back(e[2][k].h); VI d = R.d; MR_Set_Faces(h, v.size(), v.data(), d.data()); }
    else {
      std::vector<void*> v; for (int k : R.sv) v.push_back(e[0][k].h);
      MR_Set_Vertices(h, v.size(), v.data(), 0, NULL); c.label("region-by-vertices");
      List_ptr l = MR_Faces(h); REQ(c, l && List_Num_Entries(l) == (int)R.f.size(), "implicit-face", "region built from vertices has a wrong number of faces");
      int idx = 0; void* p; while ((p = List_Next_Entry(l, &idx))) {
        REQ(c, MEnt_Dim(p) == MFACE, "deleted-entity-used", "new region uses a deleted face");
        List_ptr lv = MF_Vertices(p, 1, 0); VI q; int j = 0; void* w; while ((w = List_Next_Entry(lv, &j))) { q.push_back(vidx(w)); REQ(c, q.back() >= 0, "deleted-entity-used", "face of a new region uses a deleted vertex"); } List_Delete(lv);
        int k = -1; for (int f : R.f) if (sorted(m.F[f].v) == sorted(q)) k = f; REQ(c, k >= 0, "implicit-face", "new region has a face %s that is none of its faces", str(q).c_str());
        if (e[2][k].st == LIVE) { REQ(c, e[2][k].h == p, "duplicate-face", "a second face was made on %s although one is live", str(q).c_str()); continue; }
        implicitEdges(k, p);
        RFace& F = m.F[k]; bool rev = !sameCycle(q, F.v, false); F.v = q;
        for (size_t t = 0; t < q.size(); t++) { int ed = m.edgeBetween(q[t], q[(t + 1) % q.size()]); F.e[t] = ed; F.d[t] = m.E[ed][0] == q[t]; }
        if (rev) for (auto& S : m.R) for (size_t t = 0; t < S.f.size(); t++) if (S.f[t] == k) S.d[t] = !S.d[t];
        adopt(2, k, p);
      }
      List_Delete(l);
    }
    adopt(3, i, h);
  }
  bool create(int d, int i) {
    bool byV = false;
    if (d >= 2 && c.s.chance(1, 3) && (d == 2 || (m.R[i].type != POLYHED && !m.R[i].sv.empty()))) {
      if (e[d][i].st == LIVE) return false;
      byV = true; for (int v : m.vertsOf(d, i)) byV &= e[0][v].st == LIVE;
      // a kept face of the region cannot be re-made with another orientation while neighbours know it
    }
    if (!byV && !canCreate(d, i)) return false;
    if (d == 0) newV(i); else if (d == 1) newE(i); else if (d == 2) newF(i, byV); else newR(i, byV);
    return true;
  }
  void del(int d, int i, bool keep) {
    Ent& x = e[d][i]; void* h = x.h; x.def = defOf(d, i);
    if (c.s.coin()) MEnt_Delete(h, keep); else if (d == 0) MV_Delete(h, keep); else if (d == 1) ME_Delete(h, keep); else if (d == 2) MF_Delete(h, keep); else MR_Delete(h, keep);
    x.st = keep ? KEPT : ABSENT; dels++; keeps += keep;
    if (keep) REQ(c, MEnt_Dim(h) == MDELETED, "deleted-flag", "a deleted entity that was kept does not say so");
  }
  void restore(int d, int i) {
    Ent& x = e[d][i]; void* h = x.h;
    if (d == 0) MV_Restore(h); else if (d == 1) ME_Restore(h); else if (d == 2) MF_Restore(h); else MR_Restore(h);
    x.st = LIVE; restores++;
    REQ(c, MEnt_ID(h) == x.id, "restored-id", "ID of a restored entity changed from %d to %d", x.id, MEnt_ID(h));
  }
  void verify(const char* op, int level) {
    RMesh s; BM b; b.m = mesh; s.topo = m.topo; VI map[4];
    for (int d = 0; d < 4; d++) { map[d].assign(m.n(d), -1); int k = 0; for (int i = 0; i < m.n(d); i++) if (e[d][i].st == LIVE) { map[d][i] = k; b.put(d, k, e[d][i].h); s.gd[d].push_back(e[d][i].gd); s.gi[d].push_back(e[d][i].gi); k++; } }
    for (int i = 0; i < m.n(0); i++) if (map[0][i] >= 0) s.X.push_back(m.X[i]);
    for (int i = 0; i < m.n(1); i++) if (map[1][i] >= 0) s.E.push_back({map[0][m.E[i][0]], map[0][m.E[i][1]]});
    for (int i = 0; i < m.n(2); i++) if (map[2][i] >= 0) { RFace F = m.F[i]; for (int& k : F.v) k = map[0][k]; for (int& k : F.e) k = map[1][k]; s.F.push_back(F); }
    for (int i = 0; i < m.n(3); i++) if (map[3][i] >= 0) { RReg R = m.R[i]; for (int& k : R.f) k = map[2][k]; R.sv.clear(); s.R.push_back(R); }
    s.derive();
    checkDatabase(c, b, op); checkAdjacency(c, b, s, op, level); if (level >= 2) checkOrientation(c, b, s, op); checkClassifn(c, b, s, op); checkCoords(c, b, s, op);
    for (int d = 0; d < 4; d++) for (auto& x : e[d]) if (x.st == LIVE) {
      REQ(c, MEnt_Get_IntAttVal(x.h, att) == x.att, "attribute-value", "%s: attribute of a live entity of dimension %d is %d, set to %d", op, d, MEnt_Get_IntAttVal(x.h, att), x.att);
      REQ(c, MEnt_ID(x.h) == x.id, "entity-id", "%s: ID of an entity of dimension %d changed from %d to %d", op, d, x.id, MEnt_ID(x.h));
    }
  }
};

static void run(Case& c) {
  GenOpt o; o.planar = false; o.extras = c.s.chance(1, 3); o.maxcells = 2 + c.s.draw(5);
  World w(c); w.m = genMesh(c, o); RMesh& m = w.m; m.buildUp();
  w.rep = c.s.coin() ? F4 : F1; w.mesh = MESH_New(w.rep); c.label(w.rep == F1 ? "F1" : "F4"); c.label(m.topo == 2 ? "2D" : "3D");
  w.att = MAttrib_New(w.mesh, "tag", INT, MALLTYPE);
  for (int d = 0; d < 4; d++) w.e[d].resize(m.n(d));
  bool whole = c.s.chance(3, 4);
  if (whole) { for (int d = 0; d < 4; d++) for (int i = 0; i < m.n(d); i++) if (w.e[d][i].st != LIVE) w.create(d, i); w.verify("initial mesh", 2); }
  int nops = 4 + c.s.draw(2 * c.size + 2), eff = 0;
  auto pickOne = [&](std::function<bool(int, int)> f, bool topdown) -> std::pair<int, int> {
    int d0 = c.s.draw(4), tot = 0; (void)topdown;
    for (int q = 0; q < 4; q++) { int d = (d0 + q) % 4; VI cand; for (int i = 0; i < m.n(d); i++) if (f(d, i)) cand.push_back(i); tot += cand.size(); if (!cand.empty()) return {d, c.s.pick(cand)}; }
    return {-1, -1};
  };
  for (int st = 0; st < nops; st++) {
    int op = c.s.draw(16); char nm[80]; snprintf(nm, sizeof nm, "step %d op %d", st, op);
    if (op <= 2) { auto p = pickOne([&](int d, int i) { return w.canDelete(d, i); }, true); if (p.first < 0) continue; w.del(p.first, p.second, true); }
    else if (op == 3 || op == 4) { auto p = pickOne([&](int d, int i) { return w.canDelete(d, i); }, true); if (p.first < 0) continue; w.del(p.first, p.second, false); }
    else if (op <= 7) { auto p = pickOne([&](int d, int i) { return w.canRestore(d, i); }, false); if (p.first < 0) continue; w.restore(p.first, p.second); }
    else if (op <= 9) { auto p = pickOne([&](int d, int i) { return w.e[d][i].st != LIVE && w.canCreate(d, i); }, false); if (p.first < 0) continue; w.create(p.first, p.second); }
    else if (op == 10) {  // an element with its closure, elements first; the lower entities only if nothing else uses them
      int D = c.s.coin() && m.n(3) ? 3 : m.topo; if (!m.n(D)) continue; int i = c.s.draw(m.n(D)); if (!w.canDelete(D, i)) continue; bool keep = c.s.coin();
      std::vector<std::pair<int, int>> done; w.del(D, i, keep); done.push_back({D, i});
      VI cl[3]; cl[0] = m.vertsOf(D, i); if (D == 3) { cl[2] = m.R[i].f; cl[1] = m.regEdges(i); } else cl[1] = D == 2 ? m.F[i].e : VI{};
      for (int d = D - 1; d >= 0; d--) for (int k : cl[d]) if (w.canDelete(d, k)) { w.del(d, k, keep); done.push_back({d, k}); }
      c.label("delete-closure");
      if (keep && c.s.coin()) { w.verify(nm, 1); for (size_t k = done.size(); k-- > 0;) w.restore(done[k].first, done[k].second); c.label("restore-closure"); }
    }
    else if (op == 11) {  // delete while iterating
      int d = c.s.draw(4), mod = 1 + c.s.draw(4), keep = c.s.coin(); std::map<void*, int> at; int n = 0; for (int i = 0; i < m.n(d); i++) if (w.e[d][i].st == LIVE) { at[w.e[d][i].h] = i; n++; }
      int idx = 0, seen = 0; void* p; std::set<void*> dup;
      while ((p = d == 0 ? MESH_Next_Vertex(w.mesh, &idx) : d == 1 ? MESH_Next_Edge(w.mesh, &idx) : d == 2 ? MESH_Next_Face(w.mesh, &idx) : MESH_Next_Region(w.mesh, &idx))) {
        REQ(c, at.count(p) && dup.insert(p).second, "iteration", "%s: iteration with deletions visits an entity that is dead or visited before", nm);
        seen++; int i = at[p]; if (i % mod == 0 && w.canDelete(d, i)) w.del(d, i, keep);
      }
      REQ(c, seen == n, "iteration", "%s: iteration with deletions visits %d of %d entities of dimension %d", nm, seen, n, d); c.label("delete-while-iterating");
    }
    else if (op == 12) { MESH_Enable_LocalIDSearch(w.mesh); c.label("id-search"); }
    else if (op == 13) {  // finish a kept deletion
      VI ds, is; for (int d = 0; d < 4; d++) for (int i = 0; i < m.n(d); i++) if (w.e[d][i].st == KEPT) { ds.push_back(d); is.push_back(i); }
      if (ds.empty()) continue; int k = c.s.draw(ds.size()); int d = ds[k], i = is[k]; MEnt_Delete(w.e[d][i].h, 0); w.e[d][i].st = ABSENT; c.label("kept-then-permanent");
    }
    else if (op == 14) {  // renumber, only when nothing can come back with an old ID
      bool kept = false; for (int d = 0; d < 4; d++) for (auto& x : w.e[d]) kept |= x.st == KEPT; if (kept) continue;
      MESH_Renumber(w.mesh, 0, MALLTYPE); for (int d = 0; d < 4; d++) for (auto& x : w.e[d]) if (x.st == LIVE) x.id = MEnt_ID(x.h); c.label("renumber");
    }
    else { int d = c.s.draw(4); VI cand; for (int i = 0; i < m.n(d); i++) if (w.canRestore(d, i)) cand.push_back(i); for (int i : cand) w.restore(d, i); if (cand.empty()) continue; }
    eff++;
    w.verify(nm, c.s.chance(1, 4) ? 2 : 1);
  }
  w.verify("end", 2);
  if (w.restores) c.label("restored");
  if (w.recreates) c.label("recreated-while-kept");
  c.note("%s rep %s, %d effective operations: %d deletions (%d kept), %d restorations", describe(m).c_str(), w.rep == F1 ? "F1" : "F4", eff, w.dels, w.keeps, w.restores);
  for (auto& g : w.grave) MEnt_Delete(g.second, 0);
  w.verify("after freeing kept entities", 1);
  MESH_Delete(w.mesh);
  if (w.dels >= 2 && w.restores >= 1) c.nontrivial();
}
static pbt::Property P = {"C04", "history with at least two deletions and one restoration; distinct by choice tape", run, 4000, 150000};
int main(int argc, char** argv) { return pbt::main_serial(argc, argv, P); }
