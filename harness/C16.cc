#include "rmesh.h"
// Structured meshes against an independently computed grid.
static void run(Case& c) {
  int D = c.s.coin() ? 3 : 2, hi = D == 3 ? 2 + c.size / 25 : 2 + c.size / 10;
  int n[3] = {1 + (int)c.s.draw(hi), 1 + (int)c.s.draw(hi), D == 3 ? 1 + (int)c.s.draw(hi) : 0};
  double lo[3], up[3]; double scale = std::pow(10.0, c.s.range(-3, 4));
  for (int k = 0; k < 3; k++) { lo[k] = c.s.chance(1, 3) ? 0 : scale * c.s.real(-5, 5); up[k] = lo[k] + scale * (c.s.chance(1, 3) ? 1 : c.s.real(0.1, 5)); }
  if (D == 2) lo[2] = up[2] = 0;
  c.note("box [%g,%g]x[%g,%g]x[%g,%g] with %d x %d x %d cells", lo[0], up[0], lo[1], up[1], lo[2], up[2], n[0], n[1], n[2]); c.label(D == 3 ? "3d" : "2d");
  Mesh_ptr mesh = MESH_Gen_Structured(lo[0], lo[1], lo[2], up[0], up[1], up[2], n[0], n[1], n[2]); REQ(c, mesh, "null", "no mesh");
  int N0 = (n[0] + 1) * (n[1] + 1) * (n[2] + 1), N1, N2, N3;
  if (D == 2) { N1 = n[0] * (n[1] + 1) + n[1] * (n[0] + 1); N2 = n[0] * n[1]; N3 = 0; }
  else { int a = n[0], b = n[1], d = n[2]; N1 = a * (b + 1) * (d + 1) + b * (a + 1) * (d + 1) + d * (a + 1) * (b + 1); N2 = (a + 1) * b * d + (b + 1) * a * d + (d + 1) * a * b; N3 = a * b * d; }
  int got[4] = {MESH_Num_Vertices(mesh), MESH_Num_Edges(mesh), MESH_Num_Faces(mesh), MESH_Num_Regions(mesh)}, want[4] = {N0, N1, N2, N3};
  for (int d = 0; d < 4; d++) REQ(c, got[d] == want[d], "count", "%d entities of dimension %d, expected %d", got[d], d, want[d]);
  BM b; b.m = mesh; RMesh m = extract(c, mesh, b); m.topo = D; checkValid(c, m, "generated"); checkDatabase(c, b, "generated", true);
  m.derive(); m.buildUp(); checkAdjacency(c, b, m, "generated", 1); checkOrientation(c, b, m, "generated"); 
  // vertices <-> lattice points
  std::vector<std::array<int, 3>> L(N0); std::set<std::array<int, 3>> seen; double h[3]; for (int k = 0; k < 3; k++) h[k] = n[k] ? (up[k] - lo[k]) / n[k] : 1;
  for (int i = 0; i < N0; i++) {
    for (int k = 0; k < 3; k++) { double t = (m.X[i][k] - lo[k]) / h[k]; int q = (int)std::floor(t + 0.5); L[i][k] = q;
      REQ(c, q >= 0 && q <= n[k] && std::fabs(m.X[i][k] - (lo[k] + q * h[k])) <= 1e-10 * (std::fabs(lo[k]) + std::fabs(up[k])), "coordinate", "vertex %d coordinate %d is %.17g", i, k, m.X[i][k]);
      if (q == 0 || q == n[k]) REQ(c, m.X[i][k] == (q ? up[k] : lo[k]), "boundary-coordinate", "vertex %d coordinate %d is %.17g, box limit %.17g", i, k, m.X[i][k], q ? up[k] : lo[k]); }
    REQ(c, seen.insert(L[i]).second, "coincident", "two vertices at one lattice point");
  }
  // expected classification of an entity from the lattice points it spans
  auto cls = [&](const VI& vs, int& gd, int& gi) {
    int side[3];  // 0 low, 2 high, 1 neither
    for (int k = 0; k < 3; k++) { bool l = true, u = true; for (int v : vs) { l &= L[v][k] == 0; u &= L[v][k] == n[k]; } side[k] = l ? 0 : u ? 2 : 1; }
    if (D == 2) {
      int ex = (side[0] != 1) + (side[1] != 1); gd = 2 - ex;
      if (ex == 0) gi = 1; else if (ex == 2) gi = side[0] == 0 ? (side[1] == 0 ? 1 : 4) : (side[1] == 0 ? 2 : 3);
      else gi = side[1] == 0 ? 1 : side[0] == 2 ? 2 : side[1] == 2 ? 3 : 4;
      return;
    }
    int ex = (side[0] != 1) + (side[1] != 1) + (side[2] != 1); gd = 3 - ex;
    int fx = side[0] == 0 ? 6 : 5, fy = side[1] == 0 ? 1 : 2, fz = side[2] == 0 ? 3 : 4;
    if (ex == 0) gi = 1;
    else if (ex == 1) gi = side[0] != 1 ? fx : side[1] != 1 ? fy : fz;
    else if (ex == 3) gi = 1 + (side[0] == 2) + 2 * (side[1] == 2) + 4 * (side[2] == 2);
    else if (side[0] == 1) { int t[2][2] = {{1, 3}, {5, 7}}; gi = t[side[1] == 2][side[2] == 2]; }      // along x: [y][z]
    else if (side[1] == 1) { int t[2][2] = {{9, 12}, {10, 11}}; gi = t[side[0] == 2][side[2] == 2]; }   // along y: [x][z]
    else { int t[2][2] = {{4, 8}, {2, 6}}; gi = t[side[0] == 2][side[1] == 2]; }                         // along z: [x][y]
  };
  for (int d = 0; d <= D; d++) for (int i = 0; i < want[d]; i++) {
    VI vs = d == 3 ? m.regVerts(i) : m.vertsOf(d, i); int mn[3], mx[3];
    for (int k = 0; k < 3; k++) { mn[k] = mx[k] = L[vs[0]][k]; for (int v : vs) { mn[k] = std::min(mn[k], L[v][k]); mx[k] = std::max(mx[k], L[v][k]); } }
    int span = 0; bool unit = true; for (int k = 0; k < 3; k++) { span += mx[k] - mn[k]; unit &= mx[k] - mn[k] <= 1; }
    REQ(c, unit && span == d && (int)vs.size() == 1 << d, "not-a-grid-entity", "entity %d of dimension %d spans %d directions with %zu vertices", i, d, span, vs.size());
    if (d == 2) { auto& F = m.F[i]; for (int k = 0; k < 4; k++) { int s = 0; for (int q = 0; q < 3; q++) s += std::abs(L[F.v[k]][q] - L[F.v[(k + 1) % 4]][q]); REQ(c, s == 1, "face-order", "vertices of face %d are not in cyclic order", i); } }
    int gd, gi; cls(vs, gd, gi); void* e = b.ent[d][i];
    REQ(c, MEnt_GEntDim(e) == gd, "class-dim", "entity %d of dimension %d has model dimension %d, expected %d", i, d, MEnt_GEntDim(e), gd);
    REQ(c, MEnt_GEntID(e) == gi, "class-id", "entity %d of dimension %d (model dimension %d) has model ID %d, expected %d", i, d, gd, MEnt_GEntID(e), gi);
  }
  std::set<VI> cells;
  for (int d = 1; d <= D; d++) { cells.clear(); for (int i = 0; i < want[d]; i++) REQ(c, cells.insert(sorted(d == 3 ? m.regVerts(i) : m.vertsOf(d, i))).second, "duplicate", "two entities of dimension %d on the same vertices", d); }
  if (D == 2) for (int i = 0; i < N2; i++) { V3 a = m.faceVecArea(i); REQ(c, a[2] > 0, "orientation", "face %d does not point to +z", i); }
  else for (int i = 0; i < N3; i++) {
    REQ(c, m.regVolume(i) > 0, "orientation", "region %d is inside out", i);
    List_ptr l = MR_Vertices(b.ent[3][i]); REQ(c, MR_ElementType(b.ent[3][i]) == HEX && List_Num_Entries(l) == 8, "element-type", "region %d is not a hex", i); List_Delete(l);
  }
  double tot = D == 2 ? m.totalArea() : m.totalVolume(), ref = 1; for (int k = 0; k < D; k++) ref *= up[k] - lo[k];
  double cond = 1; for (int k = 0; k < D; k++) cond += std::fabs(lo[k] / (up[k] - lo[k]));
  REQ(c, std::fabs(tot - ref) <= 1e-9 * ref * cond * cond * cond, "measure", "total measure %.12g, box %.12g", tot, ref);
  if (n[0] * n[1] > 1) c.nontrivial();
  for (int k = 0; k < 3; k++) if (n[k] == 1) c.label("one-cell-direction");
  MESH_Delete(mesh);
}
int main(int argc, char** argv) { static pbt::Property P = {"C16", "the grid has more than one cell", run, 1600, 16000, {}, MSTK_Init}; return pbt::main_serial(argc, argv, P); }
