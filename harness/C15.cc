#include "rmesh.h"
// MESH_BuildClassfn: the classification it builds, against a direct computation
// from the topology (and the dihedral and edge angles) of the model.
static const double SHARP = std::cos(5 * 3.141592 / 6);
struct UF { VI p; explicit UF(int n) : p(n) { for (int i = 0; i < n; i++) p[i] = i; } int f(int i) { while (p[i] != i) i = p[i] = p[p[i]]; return i; } void u(int a, int b) { p[f(a)] = f(b); } };
static V3 unit(const V3& a) { return (1 / len(a)) * a; }
// same[i]: class of entity i (-1: not compared); got: ids; equal classes <=> equal ids
static void bijection(Case& c, const VI& cls, const VI& id, const char* what, const char* kind) {
  std::map<int, int> a, b; for (size_t i = 0; i < cls.size(); i++) if (cls[i] >= 0) {
    auto p = a.emplace(cls[i], (int)i), q = b.emplace(id[i], (int)i);
    REQ(c, id[p.first->second] == id[i], kind, "%ss %d and %zu bound the same and are on model entities %d and %d", what, p.first->second, i, id[p.first->second], id[i]);
    REQ(c, cls[q.first->second] == cls[i], kind, "%ss %d and %zu do not belong together and are both on model entity %d", what, q.first->second, i, id[i]); }
}
static void run(Case& c) {
  GenOpt o; o.maxcells = 4 + c.size / 3; o.materials = true; o.extras = c.s.chance(1, 3); bool geo = c.s.coin(); o.planar = geo || c.s.coin(); RMesh m = genMesh(c, o); if (!m.n(2)) return; m.buildUp(); int T = m.topo;
  c.label(geo ? "geometry" : "topology-only"); int mode = c.s.draw(4);  // of elements: 0 one material, 1 several, 2 none, 3 some without
  VI mat = m.gi[T]; if (mat.empty()) mat.assign(m.n(T), 1); int spread = 1 + c.s.draw(3), base = c.s.draw(3) == 0 ? 1 : 1 + c.s.draw(40); if (mode == 1 && c.s.coin()) for (int& x : mat) x = 1 + c.s.draw(1 + spread);
  for (int& x : mat) x = mode == 0 ? base : mode == 2 ? 0 : base + x; if (mode == 3) for (int& x : mat) if (c.s.chance(1, 3)) x = 0; c.label(mode == 0 ? "one-material" : mode == 1 ? "materials" : mode == 2 ? "no-materials" : "partial-materials");
  for (int d = 0; d < 4; d++) { m.gd[d].clear(); m.gi[d].clear(); } if (T == 3) { m.gd[3].assign(m.n(3), 3); m.gi[3] = mat; }
  BM b = build(c, m, c.s.coin() ? F1 : F4, EXPLICIT);
  if (T == 2) for (int i = 0; i < m.n(2); i++) if (mat[i]) { MF_Set_GEntDim(b.ent[2][i], 2); MF_Set_GEntID(b.ent[2][i], mat[i]); }
  // what regions will be
  VI reg(m.n(3)); if (T == 3) { int mx = 0; for (int x : mat) mx = std::max(mx, x); for (int i = 0; i < m.n(3); i++) reg[i] = mat[i] ? mat[i] : mx + 1; }
  std::vector<std::vector<std::pair<int, int>>> pre(3); for (int d = 0; d < 3; d++) pre[d].assign(m.n(d), {-1, 0});
  // interior entities, by topology
  VI fin(m.n(2), 0); if (T == 3) for (int f = 0; f < m.n(2); f++) { VI r = m.up(2, f, 3); fin[f] = r.size() == 2 && reg[r[0]] == reg[r[1]]; }
  VI ein(m.n(1)), vin(m.n(0)); for (int e = 0; e < m.n(1); e++) { VI f = m.up(1, e, 2); ein[e] = !f.empty(); for (int x : f) ein[e] &= fin[x]; } for (int v = 0; v < m.n(0); v++) { VI e = m.up(0, v, 1); vin[v] = !e.empty(); for (int x : e) vin[v] &= ein[x]; }
  if (!geo && c.s.coin()) { c.label("partial-classification"); for (int d = 0; d < 3; d++) if (!(d == 2 && T == 2) && c.s.coin()) { int den = 1 + c.s.draw(4), top = 1 + c.s.draw(6); for (int i = 0; i < m.n(d); i++) if (!(d == 2 ? fin[i] : d == 1 ? ein[i] : vin[i]) && c.s.chance(1, den)) { pre[d][i] = {d, d == 0 ? 3 * i + 2 : 1 + (int)c.s.draw(top)}; MEnt_Set_GEntDim(b.ent[d][i], d); MEnt_Set_GEntID(b.ent[d][i], pre[d][i].second); } } }
  if (T == 3 && c.s.chance(1, 3)) { c.label("stale-faces"); for (int f = 0; f < m.n(2); f++) if (!pre[2][f].second && c.s.chance(1, 3)) { MF_Set_GEntDim(b.ent[2][f], 3); MF_Set_GEntID(b.ent[2][f], c.s.draw(8)); } }  // marked interior, on the boundary or in another region
  int natt = MESH_Num_Attribs(b.m);
  if (geo) {  // no angle near the threshold
    for (int v = 0; v < m.n(0); v++) { VI es = m.up(0, v, 1); for (size_t i = 0; i < es.size(); i++) for (size_t j = 0; j < i; j++) { auto o2 = [&](int e) { return m.X[m.E[e][0] == v ? m.E[e][1] : m.E[e][0]] - m.X[v]; }; V3 a = o2(es[i]), q = o2(es[j]); if (len(a) == 0 || len(q) == 0 || std::fabs(dot(unit(a), unit(q)) - SHARP) < 1e-5) { c.label("skip-threshold"); return; } } } }
  auto dih = [&](int e, int f) { V3 x = m.X[m.E[e][0]], t = unit(m.X[m.E[e][1]] - x), g = {0, 0, 0}; for (int v : m.F[f].v) g = g + (1.0 / m.F[f].v.size()) * m.X[v]; V3 d = g - x; d = d - dot(d, t) * t; return d; };
  std::vector<double> fcos(m.n(1), 2); VI gf(m.n(2), -1);
  REQ(c, MESH_BuildClassfn(b.m, geo) == 1, "return", "MESH_BuildClassfn failed");
  REQ(c, MESH_Num_Attribs(b.m) == natt, "attributes", "%d attributes after, %d before", MESH_Num_Attribs(b.m), natt);
  VI D[4], I[4]; for (int d = 0; d < 4; d++) for (void* p : b.ent[d]) { D[d].push_back(MEnt_GEntDim(p)); I[d].push_back(MEnt_GEntID(p)); }
  // regions
  for (int i = 0; i < m.n(3); i++) REQ(c, D[3][i] == 3 && I[3][i] == reg[i], "region", "region %d is on (%d,%d), expected model region %d", i, D[3][i], I[3][i], reg[i]);
  // faces
  VI cls(m.n(2), -1); std::map<VI, int> keys;
  for (int f = 0; f < m.n(2); f++) {
    VI r = m.up(2, f, 3), k; for (int x : r) k.push_back(reg[x]); k.resize(2, 0); k = sorted(k);
    if (fin[f]) { REQ(c, D[2][f] == 3 && I[2][f] == k[0], "interior-face", "face %d inside model region %d is on (%d,%d)", f, k[0], D[2][f], I[2][f]); continue; }
    REQ(c, D[2][f] == 2 && I[2][f] > 0, "boundary-face", "face %d between model regions %d and %d is on (%d,%d)", f, k[0], k[1], D[2][f], I[2][f]);
    int set = T == 2 ? mat[f] : pre[2][f].second; if (set) { if (!geo) REQ(c, I[2][f] == set, "face-kept", "face %d was on model face %d and is on %d", f, set, I[2][f]); if (geo) cls[f] = keys.emplace(VI{-1, set}, keys.size()).first->second; continue; }
    cls[f] = keys.emplace(k, keys.size()).first->second;
  }
  if (geo && T == 2 && mode == 3) for (int f = 0; f < m.n(2); f++) if (!mat[f]) { cls[f] = -1; for (int g = 0; g < m.n(2) && cls[f] < 0; g++) if (mat[g]) cls[f] = cls[g]; if (cls[f] < 0) cls[f] = 0; }  // they join the first model face
  if (geo) {
    UF u(m.n(2)); for (int e = 0; e < m.n(1); e++) { VI f; for (int x : m.up(1, e, 2)) if (!fin[x]) f.push_back(x); if (f.size() != 2) continue; V3 p = dih(e, f[0]), q = dih(e, f[1]); double L = len(m.X[m.E[e][1]] - m.X[m.E[e][0]]); if (!(len(p) > 1e-3 * L && len(q) > 1e-3 * L)) { c.label("skip-degenerate"); return; } fcos[e] = dot(unit(p), unit(q)); if (std::fabs(fcos[e] - SHARP) < 1e-5) { c.label("skip-threshold"); return; } if (cls[f[0]] == cls[f[1]] && fcos[e] <= SHARP) u.u(f[0], f[1]); if (fcos[e] > SHARP) c.label("sharp-edge"); }
    for (int f = 0; f < m.n(2); f++) if (cls[f] >= 0) cls[f] = u.f(f);
  }
  bijection(c, cls, I[2], "face", "model-face");
  // edges, from the faces as they are
  VI ecls(m.n(1), -1); std::map<VI, int> ek; VI crack(m.n(1), 0);
  for (int e = 0; e < m.n(1); e++) {
    VI k; for (int f : m.up(1, e, 2)) if (D[2][f] == 2) k.push_back(I[2][f]); k = sorted(k);
    if (ein[e]) { int g = I[2][m.up(1, e, 2)[0]]; REQ(c, D[1][e] == 3 && I[1][e] == g, "interior-edge", "edge %d inside model region %d is on (%d,%d)", e, g, D[1][e], I[1][e]); continue; }
    if (pre[1][e].second) { REQ(c, D[1][e] == 1 && I[1][e] == pre[1][e].second, "edge-kept", "edge %d was on model edge %d and is on (%d,%d)", e, pre[1][e].second, D[1][e], I[1][e]); continue; }
    bool sharp = geo && k.size() == 2 && fcos[e] > SHARP; if (k.size() == 2 && k[0] == k[1] && !sharp) { REQ(c, D[1][e] == 2 && I[1][e] == k[0], "face-edge", "edge %d inside model face %d is on (%d,%d)", e, k[0], D[1][e], I[1][e]); continue; }
    REQ(c, D[1][e] == 1 && I[1][e] > 0, "model-edge", "edge %d of model faces %s is on (%d,%d)", e, str(k).c_str(), D[1][e], I[1][e]); if (k.empty()) c.label("isolated-edge"); ecls[e] = ek.emplace(k, ek.size()).first->second; if (k.size() == 2 && k[0] == k[1]) c.label("sharp-inside-face");
  }
  VI corner(m.n(0), 0);
  if (geo) { UF u(m.n(1)); for (int v = 0; v < m.n(0); v++) { VI es; for (int e : m.up(0, v, 1)) if (D[1][e] == 1) es.push_back(e); if (es.size() != 2 || ecls[es[0]] != ecls[es[1]]) { corner[v] = !es.empty(); continue; } V3 d[2]; for (int z = 0; z < 2; z++) { auto& E = m.E[es[z]]; d[z] = unit(m.X[E[0] == v ? E[1] : E[0]] - m.X[v]); } if (dot(d[0], d[1]) <= SHARP) u.u(es[0], es[1]); else { corner[v] = 1; c.label("corner"); } } for (int e = 0; e < m.n(1); e++) if (ecls[e] >= 0) ecls[e] = u.f(e); }
  bijection(c, ecls, I[1], "edge", "model-edge-sharing");
  // vertices, from the edges as they are
  std::map<int, int> at; for (int v = 0; v < m.n(0); v++) {
    std::set<int> k1, k2; int n1 = 0, g3 = 0; auto es = m.up(0, v, 1); for (int e : es) if (D[1][e] == 1) { n1++; k1.insert(I[1][e]); } else if (D[1][e] == 2) k2.insert(I[1][e]); else g3 = I[1][e];
    if (vin[v]) { REQ(c, D[0][v] == 3 && I[0][v] == g3, "interior-vertex", "vertex %d inside model region %d is on (%d,%d)", v, g3, D[0][v], I[0][v]); continue; }
    if (pre[0][v].second) { REQ(c, D[0][v] == 0 && I[0][v] == pre[0][v].second, "vertex-kept", "vertex %d was on model vertex %d and is on (%d,%d)", v, pre[0][v].second, D[0][v], I[0][v]); }
    else if (!n1 && k2.size() == 1) { REQ(c, D[0][v] == 2 && I[0][v] == *k2.begin(), "face-vertex", "vertex %d inside model face %d is on (%d,%d)", v, *k2.begin(), D[0][v], I[0][v]); continue; }
    else if (n1 == 2 && k1.size() == 1 && !corner[v]) { REQ(c, D[0][v] == 1 && I[0][v] == *k1.begin(), "edge-vertex", "vertex %d inside model edge %d is on (%d,%d)", v, *k1.begin(), D[0][v], I[0][v]); continue; }
    REQ(c, D[0][v] == 0 && I[0][v] > 0, "model-vertex", "vertex %d is on (%d,%d), expected a model vertex", v, D[0][v], I[0][v]); auto it = at.emplace(I[0][v], v); REQ(c, it.second, "model-vertex-twice", "vertices %d and %d are on model vertex %d", it.first->second, v, I[0][v]);
  }
  for (int d = 0; d < 3; d++) for (int i = 0; i < m.n(d); i++) for (int D2 = d + 1; D2 < 4; D2++) for (int j : m.up(d, i, D2)) { bool p = (D2 < 3 && pre[D2][j].second) || (d < 3 && pre[d][i].second); if (!p) REQ(c, D[D2][j] >= D[d][i] && (D[D2][j] > D[d][i] || I[D2][j] == I[d][i]), "closure", "entity (%d,%d) is on (%d,%d) and its boundary (%d,%d) on (%d,%d)", D2, j, D[D2][j], I[D2][j], d, i, D[d][i], I[d][i]); }
  checkAdjacency(c, b, m, "after classification", 1); checkDatabase(c, b, "after classification");
  if (c.s.coin() && !geo) { MESH_BuildClassfn(b.m, 0); for (int d = 0; d < 4; d++) for (int i = 0; i < m.n(d); i++) REQ(c, MEnt_GEntDim(b.ent[d][i]) == D[d][i] && MEnt_GEntID(b.ent[d][i]) == I[d][i], "idempotent", "classification of entity (%d,%d) changes from (%d,%d) to (%d,%d) when it is built again", d, i, D[d][i], I[d][i], MEnt_GEntDim(b.ent[d][i]), MEnt_GEntID(b.ent[d][i])); c.label("rebuilt"); }
  MESH_Delete(b.m); std::set<std::pair<int, int>> g; for (int d = 0; d < 4; d++) for (int i = 0; i < m.n(d); i++) g.insert({D[d][i], I[d][i]}); if (g.size() >= 3) c.nontrivial();
}
int main(int argc, char** argv) { static pbt::Property P = {"C15", "the classification has at least three model entities", run, 6000, 150000}; return pbt::main_serial(argc, argv, P); }
