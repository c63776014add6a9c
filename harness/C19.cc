#include "rmesh.h"
// Geometric queries against direct computation from coordinates, before and after a rigid motion.
static V3 unit(V3 a) { return (1 / len(a)) * a; }
struct Res { std::vector<double> elen, ang, dih, cond; };
static bool planar(const RMesh& m, int f, double tol) { V3 n = m.faceVecArea(f); double l = len(n); if (l < 1e-12) return false; n = unit(n); double s = std::sqrt(l); for (int v : m.F[f].v) if (std::fabs(dot(n, m.X[v] - m.X[m.F[f].v[0]])) > tol * s) return false; return true; }
// inward in-plane direction of face f at edge e, valid when the face centre lies strictly on that side (the documented restriction)
static bool inward(const RMesh& m, int f, int e, V3& dir) {
  V3 a = m.X[m.E[e][0]], t = unit(m.X[m.E[e][1]] - a), mid{0, 0, 0}; int k = -1; const RFace& F = m.F[f];
  for (size_t i = 0; i < F.e.size(); i++) if (F.e[i] == e) k = i;
  for (int v : F.v) mid = mid + m.X[v]; mid = (1.0 / F.v.size()) * mid;
  V3 n = unit(m.faceVecArea(f)); dir = cross(n, t); if (!F.d[k]) dir = -1.0 * dir;
  V3 r = mid - a; r = r - dot(r, t) * t; return len(r) > 1e-3 * std::sqrt(m.faceArea(f)) && dot(r, dir) > 0.5 * len(r);
}
static void measure(Case& c, const BM& b, const RMesh& m, const VI& pe, const VI& pf, Res& r, const char* tag, double tol) {
  for (int i = 0; i < m.n(1); i++) {
    V3 d = m.X[m.E[i][1]] - m.X[m.E[i][0]]; double v[3]; ME_Vec(b.ent[1][i], v); double L = ME_Len(b.ent[1][i]), L2 = ME_LenSqr(b.ent[1][i]);
    for (int k = 0; k < 3; k++) REQ(c, v[k] == d[k], "edge-vector", "%s: vector of edge %d component %d is %g, expected %g", tag, i, k, v[k], d[k]);
    REQ(c, std::fabs(L - len(d)) <= 1e-14 * len(d) && std::fabs(L2 - dot(d, d)) <= 1e-14 * dot(d, d), "edge-length", "%s: length of edge %d is %g (square %g), expected %g", tag, i, L, L2, len(d)); r.elen.push_back(L);
  }
  for (size_t q = 0; q + 1 < pe.size(); q += 2) {
    auto A = m.E[pe[q]], B = m.E[pe[q + 1]]; int s = -1, a = -1, bb = -1; for (int x = 0; x < 2 && s < 0; x++) for (int y = 0; y < 2 && s < 0; y++) if (A[x] == B[y]) { s = A[x]; a = A[1 - x]; bb = B[1 - y]; }
    double w = s < 0 ? 0 : dot(unit(m.X[a] - m.X[s]), unit(m.X[bb] - m.X[s])), g = MEs_Angle(b.ent[1][pe[q]], b.ent[1][pe[q + 1]]);
    REQ(c, std::fabs(g - w) <= tol, "edge-angle", "%s: cosine between edges %d and %d is %.12g, expected %.12g", tag, pe[q], pe[q + 1], g, w); r.ang.push_back(g); c.label(s < 0 ? "no-common-vertex" : "edge-angle");
  }
  for (size_t q = 0; q + 1 < pf.size(); q += 2) {
    int f = pf[q], g = pf[q + 1]; VI se; for (int e : m.F[f].e) for (int e2 : m.F[g].e) if (e == e2) se.push_back(e);
    if (se.empty()) { REQ(c, MFs_DihedralAngle(b.ent[2][f], b.ent[2][g], NULL) == 0, "dihedral", "%s: faces %d and %d share no edge", tag, f, g); continue; }
    if (!planar(m, f, 1e-9) || !planar(m, g, 1e-9)) { c.label("non-planar-skipped"); continue; }
    bool okAll = true, anyMatch = false; double first = 0; double gn = MFs_DihedralAngle(b.ent[2][f], b.ent[2][g], NULL);
    for (int e : se) {
      V3 d1, d2; if (!inward(m, f, e, d1) || !inward(m, g, e, d2)) { okAll = false; c.label("centre-outside-skipped"); continue; }
      double w = dot(d1, d2), v = MFs_DihedralAngle(b.ent[2][f], b.ent[2][g], b.ent[1][e]), v2 = MFs_DihedralAngle(b.ent[2][g], b.ent[2][f], b.ent[1][e]); first = w;
      REQ(c, std::fabs(v - w) <= 20 * tol, "dihedral", "%s: cosine of the dihedral angle of faces %d and %d at edge %d is %.12g, expected %.12g", tag, f, g, e, v, w);
      REQ(c, std::fabs(v2 - w) <= 20 * tol, "dihedral-symmetry", "%s: dihedral angle of faces %d and %d at edge %d depends on their order: %.12g and %.12g", tag, f, g, e, v, v2);
      if (std::fabs(gn - w) <= 20 * tol) anyMatch = true;
      r.dih.push_back(v); c.label(m.F[f].v.size() != m.F[g].v.size() ? "dihedral-mixed-faces" : "dihedral"); if (w > -1 + 1e-6) c.label("dihedral-bent");
    }
    if (okAll) REQ(c, anyMatch, "dihedral-any-edge", "%s: dihedral angle of faces %d and %d without edge is %.12g, expected %.12g", tag, f, g, gn, first);
  }
  for (int f = 0; f < m.n(2); f++) {
    int n = -1; double xyz[40][3]; MF_Coords(b.ent[2][f], &n, xyz); const VI& V = m.F[f].v; REQ(c, n == (int)V.size(), "face-coords", "%s: MF_Coords of face %d gives %d points", tag, f, n);
    VI got; for (int i = 0; i < n; i++) { int hit = -1; for (int v : V) if (m.X[v][0] == xyz[i][0] && m.X[v][1] == xyz[i][1] && m.X[v][2] == xyz[i][2]) hit = v; got.push_back(hit); }
    REQ(c, sameCycle(got, V, false), "face-coords", "%s: MF_Coords of face %d lists vertices %s, expected %s", tag, f, str(got).c_str(), str(V).c_str());
    int nc = -1; double cn[40]; MF_CondNums(b.ent[2][f], &nc, cn); REQ(c, nc == n, "cond-count", "%s: %d condition numbers on a face of %d vertices", tag, nc, n);
    for (int i = 0; i < n; i++) {
      V3 p = m.X[got[i]], a = m.X[got[(i + 1) % n]] - p, d = m.X[got[(i + n - 1) % n]] - p; double A2 = len(cross(a, d)); double q = dot(a, a) + dot(d, d);
      if (A2 < 1e-3 * q) { c.label("flat-corner-skipped"); continue; }
      double w = q / (2 * A2); REQ(c, std::fabs(cn[i] - w) <= 1e-7 * w, "cond-number", "%s: condition number at corner %d of face %d is %.12g, expected %.12g", tag, i, f, cn[i], w); r.cond.push_back(cn[i]);
      REQ(c, cn[i] >= 1 - 1e-9, "cond-number", "%s: condition number %.12g below 1", tag, cn[i]);
    }
  }
  for (int i = 0; i < m.n(3); i++) {
    int n = -1; double xyz[200][3]; MR_Coords(b.ent[3][i], &n, xyz); List_ptr l = MR_Vertices(b.ent[3][i]); VI V = m.regVerts(i);
    REQ(c, n == List_Num_Entries(l) && n == (int)V.size(), "region-coords", "%s: MR_Coords of region %d gives %d points, it has %zu vertices", tag, i, n, V.size());
    for (int k = 0; k < n; k++) { int v = b.find(0, List_Entry(l, k)); REQ(c, v >= 0 && m.X[v][0] == xyz[k][0] && m.X[v][1] == xyz[k][1] && m.X[v][2] == xyz[k][2], "region-coords", "%s: MR_Coords of region %d, point %d", tag, i, k); }
    List_Delete(l);
  }
}
static void run(Case& c) {
  GenOpt o; o.maxcells = 4 + c.size / 4; o.planar = c.s.chance(3, 4); RMesh m = genMesh(c, o); BM b = build(c, m, c.s.coin() ? F4 : F1, EXPLICIT); m.buildUp();
  for (int i = 0; i < m.n(1); i++) if (len(m.X[m.E[i][1]] - m.X[m.E[i][0]]) < 1e-9) { c.label("degenerate"); return; }
  for (int i = 0; i < m.n(2); i++) if (m.faceArea(i) < 1e-9) { c.label("degenerate"); return; }
  VI pe, pf;
  for (int k = 0; k < 12 && m.n(1); k++) { int e = c.s.draw(m.n(1)); VI n; for (int v : {m.E[e][0], m.E[e][1]}) for (int x : m.up(0, v, 1)) if (x != e) n.push_back(x); int g = !n.empty() && c.s.chance(9, 10) ? c.s.pick(n) : (int)c.s.draw(m.n(1)); if (e == g) continue; bool two = (m.E[e][0] == m.E[g][0] && m.E[e][1] == m.E[g][1]) || (m.E[e][0] == m.E[g][1] && m.E[e][1] == m.E[g][0]); if (two) continue; pe.push_back(e); pe.push_back(g); }
  for (int k = 0; k < 16 && m.n(2); k++) { int f = c.s.draw(m.n(2)); VI n; for (int e : m.F[f].e) for (int x : m.up(1, e, 2)) if (x != f) n.push_back(x); int g = !n.empty() && c.s.chance(9, 10) ? c.s.pick(n) : (int)c.s.draw(m.n(2)); if (f == g) continue; pf.push_back(f); pf.push_back(g); }
  Res r1, r2; measure(c, b, m, pe, pf, r1, "original", 1e-12);
  // rigid motion
  double q[4], s = 0; for (double& x : q) { x = c.s.real(-1, 1); s += x * x; } if (s < 1e-3) { q[0] = 1; q[1] = q[2] = q[3] = 0; s = 1; } for (double& x : q) x /= std::sqrt(s);
  double w = q[0], x = q[1], y = q[2], z = q[3]; double M[3][3] = {{1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)}, {2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)}, {2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)}};
  V3 t{c.s.real(-3, 3), c.s.real(-3, 3), c.s.real(-3, 3)};
  for (int i = 0; i < m.n(0); i++) { V3 p = m.X[i]; for (int k = 0; k < 3; k++) m.X[i][k] = M[k][0] * p[0] + M[k][1] * p[1] + M[k][2] * p[2] + t[k]; double a[3] = {m.X[i][0], m.X[i][1], m.X[i][2]}; MV_Set_Coords(b.ent[0][i], a); }
  measure(c, b, m, pe, pf, r2, "moved", 1e-9);
  auto cmp = [&](const std::vector<double>& a, const std::vector<double>& d, const char* what) { if (a.size() != d.size()) return; for (size_t i = 0; i < a.size(); i++) REQ(c, std::fabs(a[i] - d[i]) <= 1e-6 * (1 + std::fabs(a[i])), "not-invariant", "%s changed from %.12g to %.12g under a rigid motion", what, a[i], d[i]); };
  cmp(r1.elen, r2.elen, "edge length"); cmp(r1.ang, r2.ang, "edge angle"); cmp(r1.dih, r2.dih, "dihedral angle"); cmp(r1.cond, r2.cond, "condition number");
  if (!r1.dih.empty()) c.nontrivial();
  MESH_Delete(b.m);
}
int main(int argc, char** argv) { static pbt::Property P = {"C19", "at least one dihedral angle between planar faces was compared, before and after a rigid motion", run, 4000, 80000}; return pbt::main_serial(argc, argv, P); }
