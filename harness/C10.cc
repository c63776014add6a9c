#include "rmesh.h"
extern "C" void MESH_Reset_Cached_MaxIDs(Mesh_ptr);
// Exodus II: export then import is the identity on what the format holds, and
// files written without MSTK are read for what they say.

static bool starShaped(const RMesh& m, int r) {
  VI v = m.regVerts(r); V3 cen = {0, 0, 0}; for (int k : v) cen = cen + m.X[k]; cen = (1.0 / v.size()) * cen;
  for (size_t i = 0; i < m.R[r].f.size(); i++) { int f = m.R[r].f[i]; V3 fc = {0, 0, 0}; for (int k : m.F[f].v) fc = fc + m.X[k]; fc = (1.0 / m.F[f].v.size()) * fc; V3 n = m.faceVecArea(f); double s = dot(n, fc - cen) * (m.R[r].d[i] ? 1 : -1); if (s <= 1e-6 * len(n) * len(fc - cen)) return false; }
  return true;
}
static void checkSet(Case& c, const char* tag, Mesh_ptr mesh, const std::string& name, int dim, std::set<void*> want, bool exactType = true) {
  MSet_ptr s = MESH_MSetByName(mesh, name.c_str()); REQ(c, s, "set-missing", "%s: no set %s", tag, name.c_str());
  if (exactType) REQ(c, (int)MSet_EntDim(s) == dim, "set-type", "%s: set %s holds entities of type %d, expected %d", tag, name.c_str(), (int)MSet_EntDim(s), dim);
  REQ(c, MSet_Num_Entries(s) == (int)want.size(), "set-size", "%s: set %s has %d entries, expected %zu", tag, name.c_str(), MSet_Num_Entries(s), want.size());
  int idx = 0; void* e; while ((e = MSet_Next_Entry(s, &idx))) REQ(c, want.count(e), "set-member", "%s: set %s holds %s %d, which is not in the original", tag, name.c_str(), "entity", MEnt_ID(e));
}
static void checkVal(Case& c, const char* tag, Mesh_ptr mesh, const std::string& name, int dim, void* e, const std::vector<double>& w) {
  MAttrib_ptr a = nullptr; int idx = 0; MAttrib_ptr q; char nm[256];
  while ((q = MESH_Next_Attrib(mesh, &idx))) if ((int)MAttrib_Get_EntDim(q) == dim && name == MAttrib_Get_Name(q, nm)) { REQ(c, !a, "field-twice", "%s: two fields %s on entities of dimension %d", tag, name.c_str(), dim); a = q; }
  REQ(c, a, "field-missing", "%s: no field %s on entities of dimension %d", tag, name.c_str(), dim); REQ(c, MAttrib_Get_NumComps(a) == (int)w.size(), "field-components", "%s: field %s has %d components, expected %zu", tag, name.c_str(), MAttrib_Get_NumComps(a), w.size());
  int iv = 0; double rv = 0; void* pv = nullptr; MEnt_Get_AttVal(e, a, &iv, &rv, &pv);
  if (MAttrib_Get_Type(a) == DOUBLE) { REQ(c, w.size() == 1 && rv == w[0], "field-value", "%s: %s of entity %d is %.17g, expected %.17g", tag, name.c_str(), MEnt_ID(e), rv, w[0]); return; }
  REQ(c, MAttrib_Get_Type(a) == VECTOR || MAttrib_Get_Type(a) == TENSOR, "field-type", "%s: field %s has type %d", tag, name.c_str(), (int)MAttrib_Get_Type(a)); REQ(c, pv, "field-value", "%s: %s of entity %d has no value", tag, name.c_str(), MEnt_ID(e));
  for (size_t k = 0; k < w.size(); k++) REQ(c, ((double*)pv)[k] == w[k], "field-value", "%s: component %zu of %s of entity %d is %.17g, expected %.17g", tag, k, name.c_str(), MEnt_ID(e), ((double*)pv)[k], w[k]);
}
static void checkBlock(Case& c, const char* tag, const Match& M, int T, int el, int id) {
  void* e = M.at(T, el); REQ(c, MEnt_GEntID(e) == id && MEnt_GEntDim(e) == T, "block-classification", "%s: element %d is classified on (%d,%d), block %d", tag, el, MEnt_GEntDim(e), MEnt_GEntID(e), id);
  MAttrib_ptr a = MESH_AttribByName(M.b.m, "elemblock"); REQ(c, a && MEnt_Get_IntAttVal(e, a) == id, "block-attribute", "%s: elemblock of element %d is %d, expected %d", tag, el, a ? MEnt_Get_IntAttVal(e, a) : -1, id);
}
struct Att { std::string name; MAttType t; int dim, nc; MAttrib_ptr a; std::map<std::pair<int, int>, std::vector<double>> v; };

static void roundtrip(Case& c, RMesh& m0) {
  int T = m0.topo; RMesh m = dropUnused(m0); bool extras = m.n(0) != m0.n(0) || m.n(1) != m0.n(1) || m.n(2) != m0.n(2); if (extras) c.label("unused-entities");
  if (!distinctPoints(m, 0) || !distinctShapes(m)) { c.label("skip-coincident"); return; }
  if (T == 3) for (int r = 0; r < m.n(3); r++) if (!starShaped(m, r)) { c.label("skip-not-star-shaped"); return; }
  // old index of each kept entity
  VI old[4]; { std::vector<char> u[4]; for (int d = 0; d < 4; d++) u[d].assign(m0.n(d), d == T); for (auto& R : m0.R) for (int f : R.f) u[2][f] = 1; for (int f = 0; f < m0.n(2); f++) if (u[2][f]) { for (int e : m0.F[f].e) u[1][e] = 1; for (int v : m0.F[f].v) u[0][v] = 1; } for (int d = 0; d < 4; d++) for (int i = 0; i < m0.n(d); i++) if (u[d][i]) old[d].push_back(i); }
  BM b = build(c, m0, c.s.coin() ? F1 : F4, EXPLICIT); bool gaps = c.s.chance(1, 3);
  if (gaps) { c.label("gaps"); for (int d = 0; d < 4; d++) { VI p = c.s.perm(m0.n(d)); int id = 0; for (int i = 0; i < m0.n(d); i++) { id += 1 + (c.s.chance(1, 3) ? c.s.draw(4) : 0); MEnt_Set_ID(b.ent[d][p[i]], id); } } MESH_Reset_Cached_MaxIDs(b.m); }
  // sets
  struct St { std::string name; int dim; MSet_ptr s; VI in; bool out; }; std::vector<St> ss; int ns = c.s.draw(5);
  for (int k = 0; k < ns; k++) {
    static const char* pre[] = {"nodeset_", "sideset_", "elemset_", "myset", "nodeset_"}; int w = c.s.draw(5); St s; s.dim = w == 0 ? 0 : w == 1 ? T - 1 : w == 2 ? T : w == 3 ? (int)c.s.draw(T + 1) : T; s.out = w < 3; if (w == 4) s.name = "other_";
    s.name += pre[w] + std::to_string(w < 3 ? 20000 + 100 * k + (int)c.s.draw(99) : k); s.s = MSet_New(b.m, s.name.c_str(), (MType)s.dim);
    for (int i = 0; i < m.n(s.dim); i++) if (c.s.coin()) s.in.push_back(i); c.s.shuffle(s.in);
    if (s.out && s.in.empty() && m.n(s.dim)) s.in.push_back(0);
    for (int i : s.in) MSet_Add(s.s, b.ent[s.dim][old[s.dim][i]]); ss.push_back(s); if (s.out) c.label(std::string("set-") + pre[w]);
  }
  // fields
  std::vector<Att> as; int na = c.s.draw(5);
  for (int k = 0; k < na; k++) {
    MAttType ts[] = {DOUBLE, VECTOR, TENSOR, INT, POINTER}; int dims[] = {0, T, MALLTYPE, 1, T - 1}; Att a; a.t = ts[c.s.draw(5)]; a.dim = dims[c.s.draw(5)]; a.nc = a.t == VECTOR || a.t == TENSOR ? 1 + (int)c.s.draw(c.s.chance(1, 6) ? 12 : 6) : 1;
    a.name = pbt::format("f%d", k) + (c.s.chance(1, 4) ? "_velocity_x1" : ""); a.a = a.t == VECTOR || a.t == TENSOR ? MAttrib_New(b.m, a.name.c_str(), a.t, (MType)a.dim, a.nc) : MAttrib_New(b.m, a.name.c_str(), a.t, (MType)a.dim); bool full = c.s.chance(2, 3);
    for (int d = 0; d < 4; d++) if (a.dim == d || a.dim == MALLTYPE) for (int i = 0; i < m.n(d); i++) if (full || c.s.coin()) {
      std::vector<double> v; for (int q = 0; q < a.nc; q++) v.push_back(c.s.real(-9, 9)); a.v[{d, i}] = v; void* e = b.ent[d][old[d][i]];
      if (a.t == INT) MEnt_Set_IntAttVal(e, a.a, (int)v[0]); else if (a.t == DOUBLE) MEnt_Set_DblAttVal(e, a.a, v[0]); else if (a.t == VECTOR) MEnt_Set_VecAttVal(e, a.a, v.data()); else if (a.t == TENSOR) MEnt_Set_TnsrAttVal(e, a.a, v.data()); else MEnt_Set_PtrAttVal(e, a.a, &c);
    }
    if (!full) c.label("partly-set-field"); if (a.nc > 6) c.label("many-components"); as.push_back(a);
  }
  int geo = c.s.chance(1, 4), contig = extras || gaps ? 1 : (int)c.s.coin(), opts[3] = {0, geo, contig}; bool defopt = !geo && contig && c.s.coin(); int natt = c.s.chance(1, 6) ? -1 : 0;
  if (geo) c.label("geometry-sets"); if (natt < 0) c.label("no-fields"); if (!contig) c.label("keep-ids");
  int nat0 = MESH_Num_Attribs(b.m), nst0 = MESH_Num_MSets(b.m), times = 1 + c.s.chance(1, 3);
  std::string path = c.s.chance(1, 8) ? c.scratch + "/" + std::string(60, 'd') + ".exo" : "t.exo"; if (path.size() > 20) c.label("long-path");
  for (int t = 0; t < times; t++) REQ(c, MESH_ExportToFile(b.m, path.c_str(), "exodusii", natt, NULL, defopt ? NULL : opts, NULL) == 1, "return", "export failed");
  if (times > 1) c.label("exported-twice");
  // the source is as it was
  checkDatabase(c, b, "source after export"); checkAdjacency(c, b, m0, "source after export", 1); checkCoords(c, b, m0, "source after export"); checkClassifn(c, b, m0, "source after export");
  REQ(c, MESH_Num_Attribs(b.m) == nat0, "source-fields", "export left %d attributes on the mesh", MESH_Num_Attribs(b.m) - nat0); REQ(c, MESH_Num_MSets(b.m) == nst0, "source-sets", "export left %d sets on the mesh", MESH_Num_MSets(b.m) - nst0);
  for (auto& s : ss) { int idx = 0; size_t k = 0; void* e; while ((e = MSet_Next_Entry(s.s, &idx))) { REQ(c, k < s.in.size() && e == b.ent[s.dim][old[s.dim][s.in[k]]], "source-set", "export changed set %s", s.name.c_str()); k++; } REQ(c, k == s.in.size(), "source-set", "export changed set %s", s.name.c_str()); }
  Mesh_ptr k = MESH_New(c.s.coin() ? F1 : F4); REQ(c, MESH_ImportFromFile(k, path.c_str(), "exodusii", NULL, NULL) == 1, "return", "import failed");
  Match M = matchMesh(c, m, k, "round trip");
  for (int i = 0; i < m.n(T); i++) checkBlock(c, "round trip", M, T, i, m.gi[T][i]);
  std::map<int, std::set<void*>> mats; for (int i = 0; i < m.n(T); i++) mats[m.gi[T][i]].insert(M.at(T, i)); for (auto& q : mats) checkSet(c, "round trip", k, pbt::format("matset_%d", q.first), T, q.second);
  if (!contig) for (int i = 0; i < m.n(0); i++) REQ(c, MV_ID(M.at(0, i)) == MV_ID(b.ent[0][i]), "node-id", "vertex %d became node %d, exported with its own ID", MV_ID(b.ent[0][i]), MV_ID(M.at(0, i)));
  std::map<std::string, std::pair<int, std::set<void*>>> want;
  for (auto& s : ss) if (s.out) { auto& w = want[s.name]; w.first = s.dim; for (int i : s.in) w.second.insert(M.at(s.dim, i)); }
  if (geo) {
    for (int i = 0; i < m.n(T - 1); i++) if (T == 3 ? m.gd[2][i] != 3 : m.gd[1][i] == 1) { auto& w = want[pbt::format("sideset_%d", m.gi[T - 1][i])]; w.first = T - 1; w.second.insert(M.at(T - 1, i)); }
    for (int i = 0; i < m.n(0); i++) if (m.gd[0][i] < 2) { auto& w = want[pbt::format("nodeset_%d", m.gd[0][i] * 10000 + m.gi[0][i])]; w.first = 0; w.second.insert(M.at(0, i)); }
  }
  for (auto& w : want) checkSet(c, "round trip", k, w.first, w.second.first, w.second.second);
  int idx = 0; MSet_ptr s; char nm[256]; while ((s = MESH_Next_MSet(k, &idx))) { MSet_Name(s, nm); REQ(c, want.count(nm) || !strncmp(nm, "matset_", 7) || !strcmp(nm, "faceset"), "set-extra", "import made a set %s that was not exported", nm); }
  for (auto& a : as) { if (a.t != DOUBLE && a.t != VECTOR && a.t != TENSOR) continue;
    for (int d : {0, T}) if (a.dim == d || a.dim == MALLTYPE) { if (natt < 0) { int i2 = 0; MAttrib_ptr q; while ((q = MESH_Next_Attrib(k, &i2))) REQ(c, a.name != MAttrib_Get_Name(q, nm), "field-extra", "field %s written although none were asked for", nm); continue; }
      c.label(pbt::format("field-%s-%s", a.t == DOUBLE ? "real" : a.t == VECTOR ? "vector" : "tensor", d ? "element" : "node"));
      for (int i = 0; i < m.n(d); i++) { auto it = a.v.find({d, i}); checkVal(c, "round trip", k, a.name, d, M.at(d, i), it == a.v.end() ? std::vector<double>(a.nc, 0) : it->second); } } }
  MESH_Delete(b.m); MESH_Delete(k); if (m.n(T) > 1) c.nontrivial();
}
static void external(Case& c, RMesh& m) {
  int T = m.topo; if (!distinctPoints(m, 0) || !distinctShapes(m)) { c.label("skip-coincident"); return; }
  ExoFile f = genExo(c, m, true);
  if (T == 3) for (auto& b : f.blocks) if (b.poly) for (int r : b.el) if (!starShaped(m, r)) { c.label("skip-not-star-shaped"); return; }
  VI el = f.elems(), blk(m.n(T)), poly(m.n(T)); for (auto& b : f.blocks) for (int e : b.el) { blk[e] = b.id; poly[e] = b.poly; }
  bool sides = T == 3 || f.ndim == 2;
  for (int k = c.s.draw(3); k > 0; k--) { ExoSet s; s.id = 10 * k + c.s.draw(9); for (int i = 0; i < m.n(0); i++) if (c.s.coin()) s.ents.push_back(i); c.s.shuffle(s.ents); if (s.ents.size()) f.nsets.push_back(s); }
  for (int k = c.s.draw(3); k > 0; k--) { ExoSet s; s.id = 10 * k + c.s.draw(9); for (int i = 0; i < m.n(T); i++) if (c.s.coin()) s.ents.push_back(i); c.s.shuffle(s.ents); if (s.ents.size()) f.esets.push_back(s); }
  if (sides) for (int k = c.s.draw(3); k > 0; k--) { ExoSet s; s.id = 10 * k + c.s.draw(9); if (c.s.coin()) s.name = pbt::format("wall %d", k); std::set<VI> seen; for (int i : c.s.perm(m.n(T))) for (int q = 0; q < exoSides(m, i, poly[i]); q++) if (c.s.coin() && seen.insert(sorted(exoSide(m, i, poly[i], q))).second) s.sides.push_back({i, q}); if (s.sides.size()) f.ssets.push_back(s); }
  if (c.s.chance(1, 2)) { f.nodemap = c.s.perm(m.n(0)); for (int& x : f.nodemap) x = 3 * x + 1; c.label("node-map"); } if (c.s.chance(1, 2)) { f.elemmap = c.s.perm(m.n(T)); for (int& x : f.elemmap) x = 2 * x + 5; c.label("element-map"); }
  for (int w = 0; w < 2; w++) for (int k = c.s.draw(4); k > 0; k--) { int nc = c.s.coin() ? 1 : 1 + c.s.draw(12); for (int q = 0; q < nc; q++) { ExoVar v; v.name = pbt::format("%c%d", w ? 'e' : 'n', k) + (nc > 1 ? pbt::format("_veccomp%d", q) : ""); for (int i = 0; i < m.n(w ? T : 0); i++) v.val.push_back(c.s.real(-5, 5)); (w ? f.evars : f.nvars).push_back(v); } }
  writeExo(c, m, f, "x.exo");
  Mesh_ptr k = MESH_New(c.s.coin() ? F1 : F4); REQ(c, MESH_ImportFromFile(k, "x.exo", "exodusii", NULL, NULL) == 1, "return", "import failed");
  Match M = matchMesh(c, m, k, "file"); BM& b = M.b;
  MAttrib_ptr nm = MESH_AttribByName(k, "node_map"), em = MESH_AttribByName(k, "elem_map"); REQ(c, nm && em, "map", "no node_map or elem_map attribute");
  for (int i = 0; i < m.n(0); i++) { void* v = MESH_Vertex(k, i); int w = f.nodemap.empty() ? i + 1 : f.nodemap[i]; REQ(c, v == M.at(0, f.node[i]) && MV_ID(v) == i + 1, "node-order", "vertex %d is not node %d", i + 1, i + 1); REQ(c, MEnt_Get_IntAttVal(v, nm) == w && MV_GlobalID(v) == w, "node-map", "map value of node %d is %d/%d, expected %d", i + 1, MEnt_Get_IntAttVal(v, nm), MV_GlobalID(v), w); }
  for (int i = 0; i < m.n(T); i++) { void* e = T == 3 ? (void*)MESH_Region(k, i) : (void*)MESH_Face(k, i); int w = f.elemmap.empty() ? i + 1 : f.elemmap[i]; REQ(c, e == M.at(T, el[i]), "element-order", "element %d of the mesh is not element %d of the file", i + 1, i + 1); REQ(c, MEnt_Get_IntAttVal(e, em) == w && MEnt_GlobalID(e) == w, "element-map", "map value of element %d is %d/%d, expected %d", i + 1, MEnt_Get_IntAttVal(e, em), MEnt_GlobalID(e), w); }
  for (int i = 0; i < m.n(T); i++) checkBlock(c, "file", M, T, i, blk[i]);
  for (auto& q : f.blocks) { std::set<void*> w; for (int e : q.el) w.insert(M.at(T, e)); checkSet(c, "file", k, pbt::format("matset_%d", q.id), T, w); }
  for (auto& q : f.nsets) { std::set<void*> w; for (int e : q.ents) w.insert(M.at(0, e)); checkSet(c, "file", k, pbt::format("nodeset_%d", q.id), 0, w); c.label("node-set"); }
  for (auto& q : f.esets) { std::set<void*> w; for (int e : q.ents) w.insert(M.at(T, e)); checkSet(c, "file", k, pbt::format("elemset_%d", q.id), T, w); c.label("element-set"); }
  for (auto& q : f.ssets) { std::set<void*> w; for (auto& x : q.sides) { VI v = sorted(exoSide(m, x.first, poly[x.first], x.second)); int id = -1; if (T == 2) id = m.edgeBetween(v[0], v[1]); else for (int g : m.R[x.first].f) if (sorted(m.F[g].v) == v) id = g; REQ(c, id >= 0, "harness", "side not found"); w.insert(M.at(T - 1, id)); } checkSet(c, "file", k, q.name.empty() ? pbt::format("sideset_%d", q.id) : q.name, T - 1, w); c.label("side-set"); }
  for (int w = 0; w < 2; w++) { auto& vs = w ? f.evars : f.nvars; int d = w ? T : 0; for (size_t q = 0; q < vs.size();) { size_t n = 1, p = vs[q].name.find("_veccomp"); std::string name = vs[q].name; if (p != std::string::npos) { name = name.substr(0, p); while (q + n < vs.size() && vs[q + n].name.substr(0, p + 8) == name + "_veccomp") n++; }
    for (int i = 0; i < m.n(d); i++) { std::vector<double> val; for (size_t z = 0; z < n; z++) val.push_back(vs[q + z].val[i]); checkVal(c, "file", k, name, d, M.at(d, d ? el[i] : f.node[i]), val); } q += n; c.label(w ? "element-field" : "node-field"); } }
  MESH_Delete(k); if (m.n(T) > 1) c.nontrivial();
}
static void run(Case& c) {
  GenOpt o; o.maxcells = 4 + c.size / 4; o.materials = true; bool ext = c.s.coin(); o.surface3d = c.s.coin(); o.extras = !ext && c.s.chance(1, 4); o.nonmanifold = c.s.chance(1, 4);
  RMesh m = genMesh(c, o); if (!m.n(m.topo)) return; c.label(ext ? "external-file" : "round-trip");
  if (m.topo == 2) { bool flat = true; for (auto& x : m.X) if (x[2] != m.X[0][2]) flat = false; if (flat) for (auto& x : m.X) x[2] = 0; } // planar files hold no z
  if (ext) external(c, m); else roundtrip(c, m);
}
int main(int argc, char** argv) { static pbt::Property P = {"C10", "a mesh with at least two elements was read back and compared", run, 2500, 40000}; return pbt::main_serial(argc, argv, P); }
