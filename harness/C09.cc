#include "rmesh.h"
extern "C" void MESH_Reset_Cached_MaxIDs(Mesh_ptr);
// Native format: writing and reading back is the identity on what the file's
// representation type stores; a second writing gives the same file.
struct At { std::string name; MAttType t; int dim, nc; std::map<std::pair<int, int>, std::vector<double>> v; };
static const char* RN[] = {"F1", "F4", "R1", "R2", "R4"};

static double ctol(double x) { return 1.2e-16 + 4e-16 * std::fabs(x); }
static void sameFile(Case& c, const char* p, const char* q) {
  FILE *a = fopen(p, "r"), *b = fopen(q, "r"); REQ(c, a && b, "second-file", "cannot open the files"); char x[4096], y[4096]; long k = 0;
  for (;;) {
    int r = fscanf(a, "%4000s", x), s = fscanf(b, "%4000s", y); if (r == 1 && s != 1 && !strcmp(x, "attributes") && fscanf(a, "%4000s", x) != 1) break;  // no attribute had a value
    REQ(c, r == s, "second-file", "files written before and after reading differ in length at token %ld", k); if (r != 1) break;
    if (strcmp(x, y)) { char *e, *f; double u = strtod(x, &e), v = strtod(y, &f); REQ(c, !*e && !*f && std::fabs(u - v) <= 2 * ctol(u), "second-file", "token %ld was %s, is %s after reading and writing", k, x, y); }
    k++;
  }
  fclose(a); fclose(b);
}
static VI rv(Case& c, const BM& b, int d, void* e) { return toIdx(c, b, 0, d == 3 ? MR_Vertices(e) : MF_Vertices(e, 1, 0), "vertices"); }

static void run(Case& c) {
  GenOpt o; o.maxcells = 3 + c.size / 4; o.materials = true; o.extras = c.s.chance(1, 3); RepType frep = (RepType)(c.s.chance(1, 2) ? F1 : (int[]){F1, F4, R1, R2, R4}[c.s.draw(5)]);
  bool red = frep != F1 && frep != F4; if (red) { o.extras = false; o.nonmanifold = false; } if (frep == R1 || frep == R2) o.standardOnly = true;
  RMesh m = genMesh(c, o);
  if (c.s.chance(1, 12)) { m = RMesh(); m.topo = 2; int n = 1 + c.s.draw(5), ne = c.s.coin() ? 0 : n - 1; for (int i = 0; i < n; i++) { m.X.push_back({c.s.real(-5, 5), c.s.real(-5, 5), c.s.real(-5, 5)}); m.gd[0].push_back(0); m.gi[0].push_back(i + 1); } for (int i = 0; i < ne; i++) { m.E.push_back({i, i + 1}); m.gd[1].push_back(1); m.gi[1].push_back(i); } m.derive(); c.label(ne ? "wire" : "points"); if (red) { frep = F1; red = false; } }
  double sc = std::pow(10.0, c.s.range(-3, 7)); if (c.s.coin()) { for (auto& x : m.X) x = sc * x; c.label("scaled"); }
  RepType r1 = c.s.coin() ? F1 : F4; BM b0 = build(c, m, r1, EXPLICIT);
  // deletions leave holes in the lists, IDs need not be contiguous
  if (m.n(m.topo) > 1 && c.s.chance(1, 4)) { c.label("deleted"); int T = m.topo; for (int i = 0; i + 1 < m.n(T); i++) if (c.s.chance(1, 4)) { if (T == 3) MR_Delete(b0.ent[3][i], 0); else MF_Delete(b0.ent[2][i], 0); }
    for (int d = T - 1; d >= 0; d--) for (void* e : b0.ent[d]) { List_ptr l = d == 2 ? MF_Regions(e) : d == 1 ? ME_Faces(e) : MV_Edges(e); bool used = l && List_Num_Entries(l); if (l) List_Delete(l); if (!used && (red || c.s.coin())) { if (d == 2) MF_Delete(e, 0); else if (d == 1) ME_Delete(e, 0); else MV_Delete(e, 0); } } }
  if (c.s.chance(1, 3)) { c.label("gaps"); BM t; extract(c, b0.m, t); for (int d = 0; d < 4; d++) { VI p = c.s.perm(t.ent[d].size()); int id = 0; for (int i : p) { id += 1 + (c.s.chance(1, 3) ? c.s.draw(4) : 0); MEnt_Set_ID(t.ent[d][i], id); } } MESH_Reset_Cached_MaxIDs(b0.m); }
  BM b; RMesh x = extract(c, b0.m, b); int T = x.n(3) ? 3 : 2; Mesh_ptr M = b0.m; c.label(std::string("file-") + RN[frep]);
  std::vector<At> as; int na = c.s.draw(5); static int dummy;
  for (int k = 0; k < na; k++) {
    MAttType ts[] = {INT, DOUBLE, VECTOR, TENSOR, POINTER}; int dims[] = {0, 1, 2, T, MALLTYPE}; At a; a.t = ts[c.s.draw(5)]; a.dim = dims[c.s.draw(5)]; a.nc = a.t == VECTOR || a.t == TENSOR ? 1 + (int)c.s.draw(10) : 1;
    a.name = k == 0 && c.s.chance(1, 4) ? "vidatt" : k == 1 && c.s.chance(1, 4) ? "attributes" : pbt::format("att%d", k); MAttrib_ptr q = a.t == VECTOR || a.t == TENSOR ? MAttrib_New(M, a.name.c_str(), a.t, (MType)a.dim, a.nc) : MAttrib_New(M, a.name.c_str(), a.t, (MType)a.dim);
    double mag = std::pow(10.0, c.s.coin() ? 0 : c.s.range(-12, 12)); int dens = c.s.draw(4);
    for (int d = 0; d < 4; d++) if (a.dim == d || a.dim == MALLTYPE) for (int i = 0; i < x.n(d); i++) if (c.s.draw(3) < (uint64_t)dens) {
      std::vector<double> v; for (int z = 0; z < a.nc; z++) v.push_back(a.t == INT ? c.s.range(-99, 99) : mag * c.s.real(-9, 9)); void* e = b.ent[d][i]; a.v[{d, i}] = v;
      if (a.t == INT) MEnt_Set_IntAttVal(e, q, (int)v[0]); else if (a.t == DOUBLE) MEnt_Set_DblAttVal(e, q, v[0]); else if (a.t == POINTER) MEnt_Set_PtrAttVal(e, q, &dummy); else if (a.t == VECTOR) MEnt_Set_VecAttVal(e, q, v.data()); else MEnt_Set_TnsrAttVal(e, q, v.data());
    }
    as.push_back(a); c.label(pbt::format("att-type-%d", a.t));
  }
  int nat = MESH_Num_Attribs(M); std::string path = c.s.chance(1, 8) ? c.scratch + "/" + std::string(70, 'n') + ".mstk" : "a.mstk"; bool api = c.s.coin();
  RepType arg = frep == r1 && c.s.coin() ? UNKNOWN_REP : frep;
  if (c.s.chance(1, 10)) { std::string bad = c.scratch + "/nodir/" + std::string(80, 'z'); REQ(c, MESH_WriteToFile(M, bad.c_str(), arg, NULL) == 0, "bad-path", "writing into a missing directory succeeded"); Mesh_ptr t = MESH_New(F1); REQ(c, MESH_InitFromFile(t, bad.c_str(), NULL) == 0, "bad-path", "reading a missing file succeeded"); MESH_Delete(t); c.label("bad-path"); }
  if (api && arg == UNKNOWN_REP) REQ(c, MESH_ExportToFile(M, path.c_str(), "mstk", 0, NULL, NULL, NULL) == 1, "return", "export failed"); else REQ(c, MESH_WriteToFile(M, path.c_str(), arg, NULL) == 1, "return", "writing failed");
  { BM b2; RMesh y = extract(c, M, b2); bool same = MESH_Num_Attribs(M) == nat; for (int d = 0; d < 4; d++) same = same && b2.ent[d] == b.ent[d] && y.gd[d] == x.gd[d] && y.gi[d] == x.gi[d]; REQ(c, same, "source", "writing changed the mesh"); checkDatabase(c, b, "source after writing"); }
  RepType trep = c.s.chance(1, 4) ? (red ? F1 : UNKNOWN_REP) : c.s.coin() ? F1 : F4; bool keepred = red && c.s.chance(1, 5) && !(frep == R4 && x.n(3)); // queries of solid R4 meshes: see C02
  if (keepred) trep = UNKNOWN_REP;
  Mesh_ptr k = MESH_New(trep);
  if (api) REQ(c, MESH_ImportFromFile(k, path.c_str(), "mstk", NULL, NULL) == 1, "return", "import failed"); else REQ(c, MESH_InitFromFile(k, path.c_str(), NULL) == 1, "return", "reading failed");
  if (trep == UNKNOWN_REP) REQ(c, MESH_RepType(k) == frep, "reptype", "mesh of type %d read from a file of type %d", (int)MESH_RepType(k), (int)frep);
  auto near = [](const V3& p, const V3& q) { for (int i = 0; i < 3; i++) if (std::fabs(p[i] - q[i]) > ctol(p[i])) return false; return true; };
  bool hasF = frep == R4 || (frep != F1 && frep != F4 && !x.n(3));
  BM kb; kb.m = k;
  if (keepred) {  // only what such a mesh holds explicitly
    c.label("read-reduced"); REQ(c, MESH_Num_Vertices(k) == x.n(0) && (!x.n(3) || MESH_Num_Regions(k) == x.n(3)), "count", "%d vertices and %d regions, expected %d and %d", MESH_Num_Vertices(k), MESH_Num_Regions(k), x.n(0), x.n(3));
    for (int i = 0; i < x.n(0); i++) { void* v = MESH_Vertex(k, i); double p[3]; MV_Coords(v, p); REQ(c, near(x.X[i], {p[0], p[1], p[2]}), "coordinate", "vertex %d at (%.17g,%.17g,%.17g)", i, p[0], p[1], p[2]); REQ(c, MV_GEntDim(v) == x.gd[0][i] && MV_GEntID(v) == x.gi[0][i], "classification", "vertex %d", i); kb.put(0, i, v); }
    for (int i = 0; i < x.n(3); i++) { void* r = MESH_Region(k, i); kb.put(3, i, r); REQ(c, MR_GEntDim(r) == x.gd[3][i] && MR_GEntID(r) == x.gi[3][i], "classification", "region %d", i); REQ(c, rv(c, kb, 3, r) == rv(c, b, 3, b.ent[3][i]), "region", "vertices of region %d differ", i); }
    if (!x.n(3)) for (int i = 0; i < x.n(2); i++) { void* f = MESH_Face(k, i); kb.put(2, i, f); REQ(c, MF_GEntDim(f) == x.gd[2][i] && MF_GEntID(f) == x.gi[2][i], "classification", "face %d", i); REQ(c, rv(c, kb, 2, f) == rv(c, b, 2, b.ent[2][i]), "face", "vertices of face %d differ", i); }
  } else {
    RMesh y = extract(c, k, kb); checkDatabase(c, kb, "read mesh", !red); checkAdjacency(c, kb, y, "read mesh", 1);
    REQ(c, y.n(0) == x.n(0), "count", "%d vertices, expected %d", y.n(0), x.n(0)); for (int d = 1; d < 4; d++) if (!red || d == T) REQ(c, y.n(d) == x.n(d), "count", "%d entities of dimension %d, expected %d", y.n(d), d, x.n(d));
    for (int i = 0; i < x.n(0); i++) REQ(c, near(x.X[i], y.X[i]), "coordinate", "vertex %d at (%.17g,%.17g,%.17g), was (%.17g,%.17g,%.17g)", i, y.X[i][0], y.X[i][1], y.X[i][2], x.X[i][0], x.X[i][1], x.X[i][2]);
    for (int d = 0; d < 4; d++) if (!red || !d || d == T || (d == 2 && hasF)) for (int i = 0; i < x.n(d); i++) REQ(c, y.gd[d][i] == x.gd[d][i] && y.gi[d][i] == x.gi[d][i], "classification", "entity %d of dimension %d is on (%d,%d), was (%d,%d)", i, d, y.gd[d][i], y.gi[d][i], x.gd[d][i], x.gi[d][i]);
    if (!red) {
      REQ(c, y.E == x.E, "edges", "vertices of edges differ"); for (int i = 0; i < x.n(2); i++) REQ(c, y.F[i].e == x.F[i].e && y.F[i].d == x.F[i].d && y.F[i].v == x.F[i].v, "face", "edges of face %d: %s, were %s", i, str(y.F[i].e).c_str(), str(x.F[i].e).c_str());
      for (int i = 0; i < x.n(3); i++) REQ(c, y.R[i].f == x.R[i].f && y.R[i].d == x.R[i].d, "region", "faces of region %d: %s %s, were %s %s", i, str(y.R[i].f).c_str(), str(y.R[i].d).c_str(), str(x.R[i].f).c_str(), str(x.R[i].d).c_str());
    } else {
      if (hasF) for (int i = 0; i < x.n(2); i++) REQ(c, y.F[i].v == rv(c, b, 2, b.ent[2][i]), "face", "vertices of face %d: %s", i, str(y.F[i].v).c_str());
      if (frep == R4) for (int i = 0; i < x.n(3); i++) REQ(c, y.R[i].f == x.R[i].f && y.R[i].d == x.R[i].d, "region", "faces of region %d differ", i);
      for (int i = 0; i < x.n(3); i++) { REQ(c, MR_ElementType(kb.ent[3][i]) == MR_ElementType(b.ent[3][i]), "region-type", "type of region %d", i); if (frep != R4) REQ(c, sorted(rv(c, kb, 3, kb.ent[3][i])) == sorted(rv(c, b, 3, b.ent[3][i])), "region", "vertices of region %d: %s, were %s", i, str(rv(c, kb, 3, kb.ent[3][i])).c_str(), str(rv(c, b, 3, b.ent[3][i])).c_str()); }
      RMesh xu = dropUnused(x); if (distinctPoints(xu, 1e-9 * sc) && distinctShapes(xu)) { MatchOpt mo; mo.tol = 1e-14 * sc * 10; if (dropUnused(y).n(0) == y.n(0)) matchMesh(c, xu, k, "read mesh", mo); }
    }
  }
  // attributes
  int expect = 0; char nm[256];
  for (auto& a : as) { if (a.t == POINTER) continue; bool any = false; for (auto& q : a.v) { int d = q.first.first; if (!red || !d || d == T || (d == 2 && hasF)) any = true; } if (!any) continue; expect++;
    MAttrib_ptr q = nullptr; int idx = 0; MAttrib_ptr z; while ((z = MESH_Next_Attrib(k, &idx))) if (a.name == MAttrib_Get_Name(z, nm)) { REQ(c, !q, "attribute-twice", "two attributes %s", nm); q = z; }
    REQ(c, q, "attribute-missing", "no attribute %s", a.name.c_str()); REQ(c, MAttrib_Get_Type(q) == a.t && (int)MAttrib_Get_EntDim(q) == a.dim && MAttrib_Get_NumComps(q) == a.nc, "attribute-def", "definition of %s differs", a.name.c_str());
    for (int d = 0; d < 4; d++) if ((a.dim == d || a.dim == MALLTYPE) && (!red || !d || d == T || (d == 2 && hasF))) for (int i = 0; i < (int)kb.ent[d].size(); i++) {
      int iv = 0; double r = 0; void* p = nullptr; int st = MEnt_Get_AttVal(kb.ent[d][i], q, &iv, &r, &p); auto it = a.v.find({d, i}); REQ(c, !!st == (it != a.v.end()), "attribute-set", "%s of entity %d of dimension %d is %s", a.name.c_str(), i, d, st ? "set" : "missing"); if (!st) continue;
      for (int z = 0; z < a.nc; z++) { double v = a.t == INT ? iv : a.t == DOUBLE ? r : ((double*)p)[z]; REQ(c, std::fabs(v - it->second[z]) <= 1e-15 * std::fabs(v), "attribute-value", "component %d of %s of entity %d of dimension %d is %.17g, expected %.17g", z, a.name.c_str(), i, d, v, it->second[z]); }
    } }
  REQ(c, MESH_Num_Attribs(k) == expect, "attribute-count", "%d attributes read, expected %d", MESH_Num_Attribs(k), expect);
  if (!red) { REQ(c, MESH_WriteToFile(k, "b.mstk", frep, NULL) == 1, "return", "writing the read mesh failed"); sameFile(c, path.c_str(), "b.mstk"); }
  MESH_Delete(M); MESH_Delete(k); if (x.n(T) > 1) c.nontrivial();
}
int main(int argc, char** argv) { static pbt::Property P = {"C09", "a mesh with at least two elements was written and read back", run, 6000, 120000}; return pbt::main_serial(argc, argv, P); }
