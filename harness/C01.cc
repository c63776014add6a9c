#include "rmesh.h"
static void run(Case& c) {
  GenOpt o; o.extras = true; o.materials = true; o.planar = false;
  Route route = (Route)c.s.draw(3);
  RepType rep = c.s.coin() ? F4 : F1;
  if (route == REGVERTS) o.extras = false;
  RMesh m = route == REGVERTS ? genMesh3D(c, o) : genMesh(c, o);
  if (route == FACEVERTS && m.n(1) && [&] { for (auto& f : m.eF) if (f.empty()) return true; return false; }()) route = EXPLICIT;
  c.note("%s rep %s route %d", describe(m).c_str(), rep == F1 ? "F1" : "F4", (int)route);
  c.label(rep == F1 ? "F1" : "F4"); c.label(m.topo == 2 ? "2D" : "3D"); c.label(route == EXPLICIT ? "explicit" : route == FACEVERTS ? "by-face-vertices" : "by-region-vertices");
  checkValid(c, m, "generator");
  BM b = build(c, m, rep, route);
  checkAdjacency(c, b, m, "built mesh");
  // absent common edges / faces
  for (int t = 0; t < 8; t++) {
    int v = c.s.draw(m.n(0)), w = c.s.draw(m.n(0));
    if (v == w) continue;
    int e = m.edgeBetween(v, w);
    void* p = MVs_CommonEdge(b.ent[0][v], b.ent[0][w]);
    REQ(c, p == (e < 0 ? nullptr : b.ent[1][e]), "common-edge", "MVs_CommonEdge(%d,%d) wrong (model edge %d)", v, w, e);
    if (e >= 0) REQ(c, ME_UsesEntity(p, b.ent[0][v], MVERTEX), "uses-entity", "edge does not use its vertex");
    int x = c.s.draw(m.n(0)); if (x == v || x == w) continue;
    int want = -1; for (int f = 0; f < m.n(2); f++) if (sorted(m.F[f].v) == sorted({v, w, x})) want = f;
    if (e >= 0) { void* q[3] = {b.ent[0][v], b.ent[0][w], b.ent[0][x]}; void* g = MVs_CommonFace(3, q);
      REQ(c, g == (want < 0 ? nullptr : b.ent[2][want]), "common-face", "MVs_CommonFace(%d,%d,%d) wrong (model face %d)", v, w, x, want); }
  }
  // a second round of queries must not have been disturbed by the first
  checkAdjacency(c, b, m, "second query round", 1);
  MESH_Delete(b.m);
  if (m.n(2) >= 2) c.nontrivial();
}
static pbt::Property P = {"C01", "mesh with at least two faces; distinct by choice tape", run, 2500, 40000};
int main(int argc, char** argv) { return pbt::main_serial(argc, argv, P); }
