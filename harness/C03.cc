#include "rmesh.h"
static void run(Case& c) {
  GenOpt o; o.extras = c.s.draw(4) == 3; o.planar = false;
  Route route = (Route)c.s.draw(3);
  RepType rep = c.s.draw(4) == 3 ? F4 : F1;
  if (route == REGVERTS) o.extras = false;
  RMesh m = route == REGVERTS ? genMesh3D(c, o) : genMesh(c, o);
  if (route == FACEVERTS) for (auto& f : m.eF) if (f.empty()) { route = EXPLICIT; break; }
  c.note("%s rep %s route %d", describe(m).c_str(), rep == F1 ? "F1" : "F4", (int)route);
  c.label(rep == F1 ? "F1" : "F4"); c.label(m.topo == 2 ? "2D" : "3D"); c.label(route == EXPLICIT ? "explicit" : route == FACEVERTS ? "by-face-vertices" : "by-region-vertices");
  BM b = build(c, m, rep, route);
  checkOrientation(c, b, m, "built mesh");
  checkRegionOrder(c, b, m, "built mesh");
  // reversing / resetting a face direction changes exactly that direction
  if (m.n(2) && rep == F1) {
    int f = c.s.draw(m.n(2)); void* p = b.ent[2][f];
    if (m.topo == 3 && !m.fR[f].empty() && c.s.coin()) {
      int r = m.fR[f][c.s.draw(m.fR[f].size())];
      int want = -1; for (size_t k = 0; k < m.R[r].f.size(); k++) if (m.R[r].f[k] == f) want = m.R[r].d[k];
      REQ(c, MR_FaceDir(b.ent[3][r], p) == want, "face-dir", "MR_FaceDir(%d,%d) != %d", r, f, want);
      REQ(c, MR_FaceDir(b.ent[3][r], p) == (MF_Region(p, 0) == b.ent[3][r]), "face-side", "MR_FaceDir and MF_Region disagree for region %d face %d", r, f);
      c.label("dir-vs-side");
    }
  }
  MESH_Delete(b.m);
  if (m.n(2) >= 2) c.nontrivial();
}
static pbt::Property P = {"C03", "random mesh built by one of three creation routes with at least two faces; distinct by choice tape", run, 2500, 40000};
int main(int argc, char** argv) { return pbt::main_serial(argc, argv, P); }
