#include "gmv.h"
using namespace gmvf;
extern "C" void MESH_Reset_Cached_MaxIDs(Mesh_ptr);
// GMV: exported files say exactly what the mesh is (independent parser), files
// written without MSTK are read for what they say, and export then import is
// the identity on vertices, cells, material partition and scalar attributes.

static VI outward(const RMesh& m, int r, int k) { VI v = m.F[m.R[r].f[k]].v; if (!m.R[r].d[k]) std::reverse(v.begin(), v.end()); return rot(v); }
static bool usable(Case& c, const RMesh& m) { if (!distinctPoints(m, 0) || !distinctShapes(m)) { c.label("skip-coincident"); return false; } return true; }
static MAttrib_ptr attOn(Case& c, Mesh_ptr k, const std::string& name, int dim) {
  MAttrib_ptr a = nullptr, all = nullptr, q; int idx = 0; char nm[256];
  while ((q = MESH_Next_Attrib(k, &idx))) if (name == MAttrib_Get_Name(q, nm)) { int d = MAttrib_Get_EntDim(q); if (d == dim) { REQ(c, !a, "attribute-twice", "two attributes %s on entities of dimension %d", nm, dim); a = q; } else if (d == MALLTYPE) { REQ(c, !all, "attribute-twice", "two attributes %s on all entities", nm); all = q; } }
  return a ? a : all;
}
static double valOf(Case& c, void* e, MAttrib_ptr a) { int i = 0; double r = 0; void* p; MEnt_Get_AttVal(e, a, &i, &r, &p); return MAttrib_Get_Type(a) == INT ? i : r; }

struct Att { std::string name; MAttType t; int dim; std::map<std::pair<int, int>, double> v; bool out; };
static void roundtrip(Case& c, RMesh& m) {
  if (!usable(c, m)) return; auto cells = cellsOf(m); bool mixed = false; for (auto& q : cells) if (q.first != cells[0].first) mixed = true;
  if (mixed) c.label("mixed-dimensions"); if (cells.empty()) return; int T = cells[0].first;
  BM b = build(c, m, c.s.coin() ? F1 : F4, EXPLICIT);
  if (c.s.coin()) { bool holes = c.s.coin(); c.label(holes ? "id-gaps" : "id-permuted"); for (int d = 0; d < 4; d++) { VI p = c.s.perm(m.n(d)); int id = 0; for (int i = 0; i < m.n(d); i++) { id += 1 + (holes && c.s.chance(1, 3) ? c.s.draw(4) : 0); MEnt_Set_ID(b.ent[d][p[i]], id); } } MESH_Reset_Cached_MaxIDs(b.m); }
  for (int d = 0; d < 4; d++) for (int i = 0; i < m.n(d); i++) if (c.s.chance(1, 3)) MEnt_Set_GlobalID(b.ent[d][i], 1 + c.s.draw(500));
  std::vector<Att> as; int na = c.s.draw(5); std::vector<const char*> sel; bool select = c.s.chance(1, 4);
  for (int k = 0; k < na; k++) {
    MAttType ts[] = {DOUBLE, INT, DOUBLE, POINTER, VECTOR}; int dims[] = {0, T, MALLTYPE, 1, 2}; Att a; a.t = ts[c.s.draw(5)]; a.dim = dims[c.s.draw(5)]; a.name = k == 0 && c.s.chance(1, 3) ? (const char*[]){"vidatt", "cellmk", "fidatt", "oppfaceID", "icrush"}[c.s.draw(5)] : pbt::format("a%d", k); a.out = !select || c.s.coin();
    MAttrib_ptr q = a.t == VECTOR ? MAttrib_New(b.m, a.name.c_str(), a.t, (MType)a.dim, 3) : MAttrib_New(b.m, a.name.c_str(), a.t, (MType)a.dim); double mag = std::pow(10.0, c.s.coin() ? 0 : c.s.range(-12, 12)); bool full = c.s.coin();
    if (a.t == INT || a.t == DOUBLE) for (int d = 0; d < 4; d++) if (a.dim == d || a.dim == MALLTYPE) for (int i = 0; i < m.n(d); i++) if (full || c.s.coin()) { double v = a.t == INT ? c.s.range(-99, 99) : mag * c.s.real(-9, 9); a.v[{d, i}] = v; if (a.t == INT) MEnt_Set_IntAttVal(b.ent[d][i], q, (int)v); else MEnt_Set_DblAttVal(b.ent[d][i], q, v); }
    as.push_back(a);
  }
  for (auto& a : as) if (select && a.out) sel.push_back(a.name.c_str()); if (select && sel.empty()) { select = false; for (auto& a : as) a.out = true; } if (select) c.label("selected-attributes");
  int opts[2] = {(int)c.s.coin(), !mixed && T == 3 && c.s.coin()}; bool refuse = c.s.chance(1, 12) && (mixed || T < 3), defopt = !opts[0] && !opts[1] && c.s.coin(); int nat = MESH_Num_Attribs(b.m); if (refuse) { opts[1] = 1; defopt = false; c.label("vface-refused"); } if (opts[1]) c.label("vface"); if (opts[0]) c.label("coordinates-by-column");
  std::string path = c.s.chance(1, 8) ? c.scratch + "/" + std::string(80, 'd') + ".gmv" : "t.gmv"; int times = 1 + (int)c.s.chance(1, 4);
  for (int z = 0; z < times; z++) { int st = c.s.coin() ? MESH_ExportToGMV(b.m, path.c_str(), sel.size(), select ? sel.data() : NULL, defopt ? NULL : opts, NULL) : MESH_ExportToFile(b.m, path.c_str(), "gmv", sel.size(), select ? sel.data() : NULL, defopt ? NULL : opts, NULL); REQ(c, st == !refuse, "return", "export returned %d", st); }
  checkDatabase(c, b, "source after export"); checkAdjacency(c, b, m, "source after export", 1); checkCoords(c, b, m, "source after export"); checkClassifn(c, b, m, "source after export"); REQ(c, MESH_Num_Attribs(b.m) == nat, "source-attributes", "export changed the number of attributes from %d to %d", nat, MESH_Num_Attribs(b.m));
  for (auto& a : as) if (a.t == INT || a.t == DOUBLE) { MAttrib_ptr q = attOn(c, b.m, a.name, a.dim); REQ(c, q, "source-attributes", "export removed attribute %s", a.name.c_str()); for (auto& z : a.v) REQ(c, valOf(c, b.ent[z.first.first][z.first.second], q) == z.second, "source-attributes", "export changed %s of entity %d of dimension %d", a.name.c_str(), z.first.second, z.first.first); }
  if (refuse) { MESH_Delete(b.m); return; }
  // the file
  GFile g = parse(c, path.c_str()); REQ(c, (int)g.X.size() == m.n(0), "file-count", "%zu nodes in the file, %d vertices", g.X.size(), m.n(0)); REQ(c, g.cells.size() == cells.size(), "file-count", "%zu cells in the file, expected %zu", g.cells.size(), cells.size());
  std::map<V3, int> at; for (int i = 0; i < m.n(0); i++) at[m.X[i]] = i; VI vf(m.n(0)); std::set<int> seen;
  for (int i = 0; i < m.n(0); i++) { auto it = at.find(g.X[i]); REQ(c, it != at.end(), "file-coordinate", "node %d at (%.17g,%.17g,%.17g) is not a vertex", i + 1, g.X[i][0], g.X[i][1], g.X[i][2]); REQ(c, seen.insert(it->second).second, "file-node-twice", "vertex %d appears twice", it->second); vf[i] = it->second; }
  std::map<std::pair<int, std::set<VI>>, int> by; for (size_t i = 0; i < cells.size(); i++) { std::set<VI> s; int d = cells[i].first, k = cells[i].second; if (d == 3) for (size_t f = 0; f < m.R[k].f.size(); f++) s.insert(outward(m, k, f)); else if (d == 2) s.insert(rot(m.F[k].v)); else s.insert(sorted({m.E[k][0], m.E[k][1]})); by[{d, s}] = i; }
  VI cf(cells.size()); seen.clear();
  for (size_t i = 0; i < cells.size(); i++) { auto& q = g.cells[i]; std::set<VI> s; if (q.dim == 3) for (auto f : q.faces) { for (int& v : f) v = vf[v]; s.insert(rot(f)); } else { VI v = q.v; for (int& z : v) z = vf[z]; s.insert(q.dim == 2 ? rot(v) : sorted(v)); } auto it = by.find({q.dim, s}); REQ(c, it != by.end(), "file-cell", "cell %zu (dimension %d, first face %s) is no cell of the mesh", i + 1, q.dim, str(*s.begin()).c_str()); REQ(c, seen.insert(it->second).second, "file-cell-twice", "cell %zu appears twice", i + 1); cf[i] = it->second; }
  auto gid = [&](int i) { return m.gi[cells[i].first][cells[i].second]; };
  std::map<int, int> m2g, g2m; for (size_t i = 0; i < cells.size(); i++) { int w = g.mat[i]; REQ(c, w >= 1 && w <= (int)g.mats.size(), "file-material", "material %d of %zu", w, g.mats.size()); REQ(c, g.mats[w - 1] == pbt::format("mat%d", gid(cf[i])), "file-material", "cell %zu has material %s, is on model entity %d", i + 1, g.mats[w - 1].c_str(), gid(cf[i])); m2g[w] = gid(cf[i]); }
  { std::set<std::string> u(g.mats.begin(), g.mats.end()); REQ(c, u.size() == g.mats.size() && m2g.size() == g.mats.size(), "file-material", "%zu material names for %zu materials", g.mats.size(), m2g.size()); }
  auto var = [&](const std::string& n, int on) { const GVar* r = nullptr; for (auto& v : g.vars) if (v.name == n && v.on == on) { REQ(c, !r, "file-variable-twice", "variable %s is written twice", n.c_str()); r = &v; } REQ(c, r, "file-variable", "no variable %s on %s", n.c_str(), on ? "nodes" : "cells"); return r; };
  for (size_t i = 0; i < cells.size(); i++) { REQ(c, var("itetclr", 0)->val[i] == gid(cf[i]), "file-itetclr", "cell %zu has colour %g, expected %d", i + 1, var("itetclr", 0)->val[i], gid(cf[i])); void* e = b.ent[cells[cf[i]].first][cells[cf[i]].second]; REQ(c, var("Cell_GlobalID", 0)->val[i] == MEnt_GlobalID(e), "file-global-id", "cell %zu", i + 1); }
  for (int i = 0; i < m.n(0); i++) { REQ(c, var("icr1", 1)->val[i] == 3 - m.gd[0][vf[i]], "file-icr", "node %d has %g constraints, is on a model entity of dimension %d", i + 1, var("icr1", 1)->val[i], m.gd[0][vf[i]]); REQ(c, var("Node_GlobalID", 1)->val[i] == MV_GlobalID(b.ent[0][vf[i]]), "file-global-id", "node %d", i + 1); }
  std::set<std::pair<std::string, int>> want = {{"itetclr", 0}, {"icr1", 1}, {"Node_GlobalID", 1}, {"Node_MasterPID", 1}, {"Cell_GlobalID", 0}, {"Cell_MasterPID", 0}}; std::set<int> dims; for (auto& q : cells) dims.insert(q.first);
  for (auto& a : as) if (a.out && (a.t == INT || a.t == DOUBLE)) for (int on = 0; on < 2; on++) if (on ? a.dim == 0 || a.dim == MALLTYPE : dims.count(a.dim) || a.dim == MALLTYPE) { want.insert({a.name, on}); const GVar* v = var(a.name, on);
    for (size_t i = 0; i < v->val.size(); i++) { int d = on ? 0 : cells[cf[i]].first, k = on ? vf[i] : cells[cf[i]].second; auto it = a.v.find({d, k}); double x = it == a.v.end() ? 0 : it->second; REQ(c, v->val[i] == x, "file-variable-value", "%s of entity %d of dimension %d is %.17g, expected %.17g", a.name.c_str(), k, d, v->val[i], x); } c.label(on ? "node-variable" : "cell-variable"); }
  for (auto& v : g.vars) REQ(c, want.count({v.name, v.on}) || (!v.on && std::any_of(as.begin(), as.end(), [&](const Att& a) { return a.name == v.name && a.out && a.dim; })), "file-variable-extra", "variable %s on %s was not asked for", v.name.c_str(), v.on ? "nodes" : "cells");
  // and back
  Mesh_ptr k = MESH_New(c.s.coin() ? F1 : F4); REQ(c, MESH_ImportFromFile(k, path.c_str(), "gmv", NULL, NULL) == 1, "return", "import failed"); Match M = matchMesh(c, m, k, "round trip");
  auto ent = [&](int i) { return M.at(cells[i].first, cells[i].second); };
  m2g.clear(); for (size_t i = 0; i < cells.size(); i++) { void* e = ent(i); REQ(c, MEnt_GEntDim(e) == cells[i].first, "cell-classification", "cell %zu is on a model entity of dimension %d", i, MEnt_GEntDim(e)); int w = MEnt_GEntID(e); auto it = m2g.emplace(w, gid(i)).first; auto jt = g2m.emplace(gid(i), w).first; REQ(c, it->second == gid(i) && jt->second == w, "material-partition", "material %d holds cells of model entities %d and %d", w, it->second, gid(i)); MAttrib_ptr q = attOn(c, k, "itetclr", cells[i].first); REQ(c, q && valOf(c, e, q) == gid(i), "itetclr", "colour of cell %zu", i); }
  for (int i = 0; i < m.n(0); i++) { REQ(c, MV_GEntDim(M.at(0, i)) == m.gd[0][i], "vertex-classification", "vertex %d is on a model entity of dimension %d, was %d", i, MV_GEntDim(M.at(0, i)), m.gd[0][i]); }
  for (auto& a : as) if (a.out && (a.t == INT || a.t == DOUBLE)) for (int d : {0, 1, 2, 3}) if ((a.dim == d || a.dim == MALLTYPE) && (d == 0 || dims.count(d))) { MAttrib_ptr q = attOn(c, k, a.name, d); REQ(c, q, "attribute-missing", "no attribute %s on entities of dimension %d", a.name.c_str(), d); for (auto& z : a.v) if (z.first.first == d) { bool cell = d == 0; for (auto& w : cells) if (w == z.first) cell = true; if (cell) REQ(c, valOf(c, M.at(d, z.first.second), q) == z.second, "attribute-value", "%s of entity %d of dimension %d is %.17g, was %.17g", a.name.c_str(), z.first.second, d, valOf(c, M.at(d, z.first.second), q), z.second); } }
  // a second writing names no variable twice
  REQ(c, MESH_ExportToGMV(k, "u.gmv", 0, NULL, NULL, NULL) == 1, "return", "second export failed"); GFile h = parse(c, "u.gmv"); REQ(c, h.X == g.X && h.cells.size() == g.cells.size() && (mixed || h.mat == g.mat || h.mats.size() == g.mats.size()), "second-file", "second file differs"); if (!mixed) { std::set<std::pair<std::string, int>> u; for (auto& v : h.vars) REQ(c, u.insert({v.name, v.on}).second, "second-file-variable", "variable %s twice in the second file", v.name.c_str()); }
  MESH_Delete(b.m); MESH_Delete(k); if (cells.size() > 1) c.nontrivial();
}

static void external(Case& c, RMesh& m) {
  if (!usable(c, m)) return; auto cells = cellsOf(m); if (cells.empty()) return; int T = cells[0].first; bool mixed = false; for (auto& q : cells) if (q.first != T) mixed = true;
  VI np = c.s.perm(m.n(0)), pos(m.n(0)), cp = c.s.perm(cells.size()); for (int i = 0; i < m.n(0); i++) pos[np[i]] = i + 1; bool mani = true; m.derive(); for (auto& f : m.eF) if (f.size() > 2) mani = false;
  int form = T == 3 && !mixed ? c.s.draw(3) : T == 2 && !mixed && mani ? (c.s.coin() ? 3 : 0) : 0; static const char* fn[] = {"cells", "vface3d", "faces", "vface2d"}; c.label(std::string("file-") + fn[form]);
  FILE* fp = fopen("x.gmv", "w"); fprintf(fp, "gmvinput ascii\n"); if (c.s.coin()) fprintf(fp, "codename other\nsimdate 01/01/2001\n"); if (c.s.coin()) { fprintf(fp, "comments\n made by hand nodes cells 3\nendcomm\n"); c.label("comments"); }
  if (c.s.coin()) { fprintf(fp, "nodev %d\n", m.n(0)); for (int i : np) fprintf(fp, "%.17g %.17g %.17g\n", m.X[i][0], m.X[i][1], m.X[i][2]); } else { fprintf(fp, "nodes %d\n", m.n(0)); for (int k = 0; k < 3; k++) { for (int i : np) fprintf(fp, "%.17g ", m.X[i][k]); fprintf(fp, "\n"); } }
  std::vector<VI> cellfaces(cells.size()); 
  if (form == 2) {  // left cell: normal points out of it
    fprintf(fp, "faces %d %d\n", m.n(2), m.n(3)); VI num(m.n(3)); for (size_t i = 0; i < cp.size(); i++) num[cells[cp[i]].second] = i + 1;
    for (int f : c.s.perm(m.n(2))) { int lr[2] = {0, 0}; for (int r = 0; r < m.n(3); r++) for (size_t k = 0; k < m.R[r].f.size(); k++) if (m.R[r].f[k] == f) lr[m.R[r].d[k] ? 0 : 1] = num[r]; VI v = m.F[f].v; if (!lr[0] || c.s.coin()) { std::swap(lr[0], lr[1]); std::reverse(v.begin(), v.end()); } fprintf(fp, "%zu ", v.size()); for (int x : v) fprintf(fp, "%d ", pos[x]); fprintf(fp, "%d %d\n", lr[0], lr[1]); }
  } else {
    fprintf(fp, "cells %zu\n", cells.size()); int nvf = 0; struct VF { VI v; int cell, opp; }; std::vector<VF> vfs;
    std::vector<std::pair<int, int>> slots; if (form == 1 || form == 3) { for (size_t i = 0; i < cp.size(); i++) { int k = cells[cp[i]].second; int n = form == 1 ? m.R[k].f.size() : m.F[k].v.size(); for (int j = 0; j < n; j++) slots.push_back({(int)i, j}); } if (c.s.coin()) c.s.shuffle(slots); vfs.resize(slots.size()); }
    std::map<std::pair<int, int>, int> num; for (size_t i = 0; i < slots.size(); i++) num[slots[i]] = i + 1; std::map<VI, VI> share;
    for (size_t i = 0; i < cp.size(); i++) { int d = cells[cp[i]].first, k = cells[cp[i]].second;
      if (form == 1 || form == 3) { int n = form == 1 ? m.R[k].f.size() : m.F[k].v.size(); fprintf(fp, "%s %d", fn[form], n); for (int j = 0; j < n; j++) { int q = num[{(int)i, j}]; fprintf(fp, " %d", q); VF& f = vfs[q - 1]; if (form == 1) { f.v = m.F[m.R[k].f[j]].v; if (!m.R[k].d[j]) std::reverse(f.v.begin(), f.v.end()); } else f.v = {m.F[k].v[j], m.F[k].v[(j + 1) % n]}; f.cell = i + 1; share[sorted(f.v)].push_back(q); } fprintf(fp, "\n"); nvf += n; }
      else if (d == 1) fprintf(fp, "line 2 %d %d\n", pos[m.E[k][0]], pos[m.E[k][1]]);
      else if (d == 2) { auto& v = m.F[k].v; if (v.size() <= 4 && c.s.chance(3, 4)) fprintf(fp, "%s %zu ", v.size() == 3 ? "tri" : "quad", v.size()); else fprintf(fp, "general 1\n%zu ", v.size()); for (int x : v) fprintf(fp, " %d", pos[x]); fprintf(fp, "\n"); }
      else { int z = m.R[k].sv.empty() ? -1 : kindOf(m.R[k].type); if (z >= 0 && c.s.chance(4, 5)) { fprintf(fp, "%s %d", GN[z], GV[z]); for (int j = 0; j < GV[z]; j++) fprintf(fp, " %d", pos[m.R[k].sv[GP[z][j]]]); fprintf(fp, "\n"); c.label(GN[z]); } else { fprintf(fp, "general %zu\n", m.R[k].f.size()); for (int f : m.R[k].f) fprintf(fp, "%zu ", m.F[f].v.size()); fprintf(fp, "\n"); for (size_t j = 0; j < m.R[k].f.size(); j++) for (int x : outward(m, k, j)) fprintf(fp, "%d ", pos[x]); fprintf(fp, "\n"); c.label("general"); } } }
    if (nvf) { fprintf(fp, "vfaces %d\n", nvf); for (int q = 1; q <= nvf; q++) { VF& f = vfs[q - 1]; int opp = 0; for (int z : share[sorted(f.v)]) if (z != q) opp = z; fprintf(fp, "%zu 1 %d 1 %d", f.v.size(), opp, f.cell); for (int x : f.v) fprintf(fp, " %d", pos[x]); fprintf(fp, "\n"); } }
  }
  int cl = c.s.draw(3); VI mat; for (size_t i = 0; i < cells.size(); i++) mat.push_back(1 + c.s.draw(3));  // 0 material, 1 itetclr, 2 neither
  if (cl == 0) { fprintf(fp, "material 3 0\nrock sand water\n"); for (int x : mat) fprintf(fp, "%d ", x); fprintf(fp, "\n"); c.label("material"); }
  if (c.s.chance(1, 4)) { int on = c.s.coin(); fprintf(fp, "velocity %d\n", on); for (size_t i = 0; i < 3 * (on ? (size_t)m.n(0) : cells.size()); i++) fprintf(fp, "%g ", c.s.real(-1, 1)); fprintf(fp, "\n"); c.label("velocity"); }
  std::vector<GVar> vars; VI icr; bool hasv = cl == 1 || c.s.chance(2, 3);
  if (hasv) { fprintf(fp, "variable\n"); if (cl == 1) { fprintf(fp, "itetclr 0\n"); for (int x : mat) fprintf(fp, "%d ", x); fprintf(fp, "\n"); c.label("itetclr"); }
    if (c.s.coin()) { fprintf(fp, "%s 1\n", c.s.coin() ? "icr1" : "icr"); for (int i = 0; i < m.n(0); i++) { icr.push_back(c.s.draw(4)); fprintf(fp, "%f ", (double)icr[i]); } fprintf(fp, "\n"); c.label("icr"); }
    for (int z = c.s.draw(4); z > 0; z--) { GVar v; v.name = pbt::format("var%d", z); v.on = c.s.coin(); fprintf(fp, "%s %d\n", v.name.c_str(), v.on); for (size_t i = 0; i < (v.on ? (size_t)m.n(0) : cells.size()); i++) { v.val.push_back(c.s.real(-7, 7)); fprintf(fp, "%.17g ", v.val[i]); } fprintf(fp, "\n"); vars.push_back(v); } fprintf(fp, "endvars\n"); }
  if (c.s.chance(1, 4)) { fprintf(fp, "nodeids\n"); for (int i = 0; i < m.n(0); i++) fprintf(fp, "%d ", 7 * i); fprintf(fp, "\ncellids\n"); for (size_t i = 0; i < cells.size(); i++) fprintf(fp, "%d ", 3 * (int)i); fprintf(fp, "\n"); c.label("ids"); }
  if (c.s.chance(5, 6)) fprintf(fp, "endgmv\n"); else c.label("no-end"); fclose(fp);
  Mesh_ptr k = MESH_New(c.s.coin() ? F1 : F4); REQ(c, MESH_ImportFromFile(k, "x.gmv", "gmv", NULL, NULL) == 1, "return", "import failed"); Match M = matchMesh(c, m, k, "file");
  for (int i = 0; i < m.n(0); i++) { void* v = M.at(0, np[i]); REQ(c, v == MESH_Vertex(k, i) && MV_ID(v) == i + 1, "node-order", "vertex %d of the mesh is not node %d", i, i); if (icr.size()) REQ(c, MV_GEntDim(v) == 3 - icr[i], "vertex-classification", "node with %d constraints is on a model entity of dimension %d", icr[i], MV_GEntDim(v)); }
  auto ent = [&](int i) { return M.at(cells[cp[i]].first, cells[cp[i]].second); }; int cnt[4] = {0, 0, 0, 0};
  for (size_t i = 0; i < cells.size(); i++) { int d = cells[cp[i]].first; if (!mixed && d > 1) REQ(c, ent(i) == (d == 3 ? (void*)MESH_Region(k, cnt[d]) : d == 2 ? (void*)MESH_Face(k, cnt[d]) : (void*)MESH_Edge(k, cnt[d])), "cell-order", "cell %zu", i); cnt[d]++; if (cl < 2) REQ(c, MEnt_GEntID(ent(i)) == mat[i] && MEnt_GEntDim(ent(i)) == d, "material", "cell %zu of material %d is on (%d,%d)", i, mat[i], MEnt_GEntDim(ent(i)), MEnt_GEntID(ent(i))); }
  for (auto& v : vars) for (size_t i = 0; i < v.val.size(); i++) { void* e = v.on ? M.at(0, np[i]) : ent(i); MAttrib_ptr a = attOn(c, k, v.name, v.on ? 0 : cells[cp[i]].first); REQ(c, a && valOf(c, e, a) == v.val[i], "variable", "%s of %s %zu is %.17g, expected %.17g", v.name.c_str(), v.on ? "node" : "cell", i, a ? valOf(c, e, a) : -1, v.val[i]); }
  MESH_Delete(k); if (cells.size() > 1) c.nontrivial();
}
static void run(Case& c) {
  GenOpt o; o.maxcells = 4 + c.size / 4; o.materials = true; bool ext = c.s.coin(); o.extras = c.s.chance(1, 4); o.nonmanifold = c.s.chance(1, 4); RMesh m = genMesh(c, o);
  if (c.s.chance(1, 12)) { m = RMesh(); m.topo = 2; int n = 2 + c.s.draw(5); for (int i = 0; i < n; i++) { m.X.push_back({c.s.real(-5, 5), (double)i, c.s.real(-5, 5)}); m.gd[0].push_back(0); m.gi[0].push_back(i + 1); } for (int i = 0; i + 1 < n; i++) { m.E.push_back({i, i + 1}); m.gd[1].push_back(1); m.gi[1].push_back(1 + i % 2); } m.derive(); c.label("wire"); }
  if (c.s.chance(1, 3)) { double s = std::pow(10.0, c.s.range(-9, 9)); for (auto& x : m.X) x = s * x; c.label("scaled"); }
  c.label(ext ? "external-file" : "round-trip"); if (ext) external(c, m); else roundtrip(c, m);
}
int main(int argc, char** argv) { static pbt::Property P = {"C11", "a mesh with at least two cells was written or read", run, 6000, 120000}; return pbt::main_serial(argc, argv, P); }
