#include "x3d.h"
using namespace x3df;
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>
extern "C" void MESH_Reset_Cached_MaxIDs(Mesh_ptr);
// FLAG X3D: exported files say what the mesh is (independent parser, each side
// of a face once, paired with the other), files written without MSTK are read
// for what they say, export then import is the identity on what the format holds.
static bool near(double a, double b) { return std::fabs(a - b) <= 2e-14 * std::fabs(a) + 1e-300; }

static MAttrib_ptr att(Case& c, Mesh_ptr k, const std::string& name, int dim) { MAttrib_ptr a = nullptr, q; int idx = 0; char nm[256]; while ((q = MESH_Next_Attrib(k, &idx))) if (name == MAttrib_Get_Name(q, nm) && (int)MAttrib_Get_EntDim(q) == dim) { REQ(c, !a, "attribute-twice", "two attributes %s on entities of dimension %d", nm, dim); a = q; } return a; }

struct Att { std::string name; MAttType t; int dim, nc; bool out; std::map<std::pair<int, int>, std::vector<double>> v; };
static void roundtrip(Case& c, RMesh& m) {
  int T = m.topo; BM b = build(c, m, c.s.coin() ? F1 : F4, EXPLICIT);
  if (c.s.coin()) { c.label("id-gaps"); for (int d = 0; d < 4; d++) { VI p = c.s.perm(m.n(d)); int id = 0; for (int i = 0; i < m.n(d); i++) { id += 1 + (c.s.chance(1, 3) ? c.s.draw(4) : 0); MEnt_Set_ID(b.ent[d][p[i]], id); } } MESH_Reset_Cached_MaxIDs(b.m); }
  if (c.s.coin()) { c.label("large-material-ids"); int base = c.s.draw(3) == 0 ? 0 : 17 * c.s.draw(9); for (int i = 0; i < m.n(T); i++) { m.gi[T][i] = base + 3 * (m.gi[T][i] - 1); MEnt_Set_GEntID(b.ent[T][i], m.gi[T][i]); } }
  std::vector<Att> as; std::vector<const char*> sel; int mode = c.s.draw(4); int na = c.s.draw(5);  // 0: none, 1: selection, else all
  for (int k = 0; k < na; k++) {
    MAttType ts[] = {DOUBLE, INT, VECTOR, POINTER, TENSOR, VECTOR}; int dims[] = {0, T, MALLTYPE, T - 1}; Att a; a.t = ts[c.s.draw(6)]; a.dim = dims[c.s.draw(4)]; a.nc = a.t == VECTOR || a.t == TENSOR ? (c.s.chance(3, 4) ? T : 1 + (int)c.s.draw(4)) : 1; a.name = k == 0 && c.s.chance(1, 4) ? (c.s.coin() ? "vmasteratt" : "ridatt_tmp") : pbt::format("a%d", k); a.out = mode > 1 || (mode == 1 && c.s.coin());
    MAttrib_ptr q = a.t == VECTOR || a.t == TENSOR ? MAttrib_New(b.m, a.name.c_str(), a.t, (MType)a.dim, a.nc) : MAttrib_New(b.m, a.name.c_str(), a.t, (MType)a.dim); double mag = std::pow(10.0, c.s.coin() ? 0 : c.s.range(-20, 20)); bool full = c.s.coin();
    if (a.t != POINTER) for (int d = 0; d < 4; d++) if (a.dim == d || a.dim == MALLTYPE) for (int i = 0; i < m.n(d); i++) if (full || c.s.coin()) { std::vector<double> v; for (int z = 0; z < a.nc; z++) v.push_back(a.t == INT ? c.s.range(-99, 99) : mag * c.s.real(-9, 9)); a.v[{d, i}] = v; void* e = b.ent[d][i]; if (a.t == INT) MEnt_Set_IntAttVal(e, q, (int)v[0]); else if (a.t == DOUBLE) MEnt_Set_DblAttVal(e, q, v[0]); else if (a.t == VECTOR) MEnt_Set_VecAttVal(e, q, v.data()); else MEnt_Set_TnsrAttVal(e, q, v.data()); }
    as.push_back(a);
  }
  for (auto& a : as) if (mode == 1 && a.out) sel.push_back(a.name.c_str()); if (mode == 1 && sel.empty()) { mode = 2; for (auto& a : as) a.out = true; }
  struct St { std::string name; int dim; VI in; }; std::vector<St> ss; int ns = c.s.draw(4); std::set<int> insets;
  for (int k = 0; k < ns; k++) { St s; s.name = pbt::format("set%d", k); s.dim = (int[]){0, T, T - 1}[c.s.draw(3)]; MSet_ptr q = MSet_New(b.m, s.name.c_str(), (MType)s.dim); for (int i = 0; i < m.n(s.dim); i++) if (c.s.coin()) { s.in.push_back(i); MSet_Add(q, b.ent[s.dim][i]); if (s.dim == T) insets.insert(i); } ss.push_back(s); c.label(s.dim == T ? "element-set" : s.dim ? "side-set" : "node-set"); }
  bool sub = c.s.chance(1, 3); std::string base = std::string(sub ? "sub.dir/" : "") + (c.s.chance(1, 6) ? std::string(80, 'l') : "mesh"), path = base + ".x3d"; if (sub) { mkdir("sub.dir", 0700); c.label("directory"); }
  int nat = MESH_Num_Attribs(b.m), nset = MESH_Num_MSets(b.m), st; char* name = strdup(path.c_str());
  for (int z = 0; z < 1 + (int)c.s.chance(1, 4); z++) { if (c.s.coin()) st = MESH_ExportToFLAGX3D(b.m, name, mode == 0 ? -1 : (int)sel.size(), mode == 1 ? sel.data() : NULL, NULL, NULL); else st = MESH_ExportToFile(b.m, name, "x3d", mode == 0 ? -1 : (int)sel.size(), mode == 1 ? sel.data() : NULL, NULL, NULL); REQ(c, st == 1, "return", "export returned %d", st); REQ(c, path == name, "file-name", "export changed the file name to '%s'", name); }
  free(name);
  checkDatabase(c, b, "source after export"); checkAdjacency(c, b, m, "source after export", 1); checkCoords(c, b, m, "source after export"); checkClassifn(c, b, m, "source after export"); REQ(c, MESH_Num_Attribs(b.m) == nat && MESH_Num_MSets(b.m) == nset, "source-attributes", "export changed the number of attributes from %d to %d", nat, MESH_Num_Attribs(b.m));
  for (auto& a : as) if (a.t != POINTER) { MAttrib_ptr q = att(c, b.m, a.name, a.dim); REQ(c, q, "source-attributes", "export removed %s", a.name.c_str()); for (int d = 0; d < 4; d++) for (int i = 0; i < m.n(d); i++) if (a.dim == d || a.dim == MALLTYPE) { int iv = 0; double rv = 0; void* pv = 0; int st = MEnt_Get_AttVal(b.ent[d][i], q, &iv, &rv, &pv); auto it = a.v.find({d, i}); REQ(c, !!st == (it != a.v.end()), "source-attributes", "export changed %s of entity %d of dimension %d", a.name.c_str(), i, d); if (st) for (int z = 0; z < a.nc; z++) REQ(c, (a.t == INT ? iv : a.t == DOUBLE ? rv : ((double*)pv)[z]) == it->second[z], "source-attributes", "export changed %s of entity %d of dimension %d", a.name.c_str(), i, d); } }
  // the file; nodes and cells are numbered in the order of the mesh
  XFile g = parse(c, path.c_str()); REQ(c, g.hdr["numdim"] == T && g.hdr["process"] == 1, "file-header", "dimension %d", g.hdr["numdim"]); REQ(c, (int)g.X.size() == m.n(0) && (int)g.C.size() == m.n(T), "file-count", "%zu nodes and %zu cells, expected %d and %d", g.X.size(), g.C.size(), m.n(0), m.n(T));
  for (int i = 0; i < m.n(0); i++) for (int k = 0; k < 3; k++) REQ(c, near(m.X[i][k], g.X[i][k]), "file-coordinate", "coordinate %d of node %d is %.17g, expected %.17g", k, i + 1, g.X[i][k], m.X[i][k]);
  std::map<int, std::string> g2n; std::map<std::string, int> n2g;
  for (int i = 0; i < m.n(T); i++) { std::multiset<VI> w, q; for (auto& v : sides(m, i)) w.insert(canon(m, v)); for (int f : g.C[i]) q.insert(canon(m, g.F[f].v)); REQ(c, w == q, "file-cell", "cell %d uses other faces than element %d", i + 1, i);
    std::string nm; for (auto& z : g.mats) if (atoi(z.second.c_str()) == g.matid[i]) nm = z.second; REQ(c, !nm.empty(), "file-material", "cell %d has material %d, which is not in the list of names", i + 1, g.matid[i]); REQ(c, g2n.emplace(m.gi[T][i], nm).first->second == nm && n2g.emplace(nm, m.gi[T][i]).first->second == m.gi[T][i], "file-material", "cell %d on model entity %d has material %s", i + 1, m.gi[T][i], nm.c_str()); }
  REQ(c, g2n.size() == g.mats.size(), "file-material", "%zu materials in the file, %zu in the mesh", g.mats.size(), g2n.size());
  { size_t pairs = 0; for (auto& f : g.F) pairs += f.opp > 0; size_t in = 0; if (T == 3) for (auto& r : m.fR) in += r.size() == 2; else for (auto& f : m.eF) in += f.size() == 2; REQ(c, pairs == 2 * in, "face-pair", "%zu paired faces, %zu interior ones", pairs, in); }
  for (auto& a : as) { bool cell = a.out && (a.t == INT || a.t == DOUBLE) && (a.dim == T || a.dim == MALLTYPE), node = a.out && a.t == VECTOR && a.nc == T && (a.dim == 0 || a.dim == MALLTYPE); int n = 0; auto get = [&](int d, int i, int z) { auto it = a.v.find({d, i}); return it == a.v.end() ? 0.0 : it->second[z]; }; auto close = [](double x, double y) { return std::fabs(x - y) <= 2e-12 * std::fabs(x) + 1e-300; };
    for (auto& q : g.cell) if (q.first == a.name) { n++; REQ(c, cell, "file-field", "field %s on cells was not asked for", a.name.c_str()); for (int i = 0; i < m.n(T); i++) REQ(c, close(get(T, i, 0), q.second[i]), "file-field-value", "%s of cell %d is %.17g, expected %.17g", a.name.c_str(), i + 1, q.second[i], get(T, i, 0)); c.label("cell-field"); } REQ(c, n == cell, "file-field", "field %s is written %d times on cells", a.name.c_str(), n); n = 0;
    for (auto& q : g.node) if (q.first == a.name) { n++; REQ(c, node, "file-field", "field %s on nodes was not asked for", a.name.c_str()); for (int i = 0; i < m.n(0); i++) for (int z = 0; z < a.nc; z++) REQ(c, close(get(0, i, z), q.second[i][z]), "file-field-value", "%s of node %d", a.name.c_str(), i + 1); c.label("node-field"); } REQ(c, n == node, "file-field", "field %s is written %d times on nodes", a.name.c_str(), n); }
  for (auto& q : g.cell) { bool k = false; for (auto& a : as) k |= a.name == q.first; REQ(c, k, "file-field", "unknown field %s", q.first.c_str()); } for (auto& q : g.node) { bool k = false; for (auto& a : as) k |= a.name == q.first; REQ(c, k, "file-field", "unknown field %s", q.first.c_str()); }
  for (auto& s : ss) if (s.dim == T || s.dim == 0) { VI w = s.in; for (int& x : w) x++; VI r = numbers(c, base + "." + s.name + (s.dim ? ".Reg" : ".Bdy")); REQ(c, sorted(r) == sorted(w), "set-file", "file of set %s has %zu entries: %s, expected %s", s.name.c_str(), r.size(), str(r).c_str(), str(w).c_str()); }
  int k0 = 0; for (auto& q : g.mats) { VI w; for (int i = 0; i < m.n(T); i++) if (g2n[m.gi[T][i]] == q.second) w.push_back(i + 1); VI r = numbers(c, pbt::format("mat.%d.Reg", q.first)); REQ(c, sorted(r) == w, "material-file", "file of material %d: %s, expected %s", ++k0, str(r).c_str(), str(w).c_str()); }
  // and back
  Mesh_ptr k = MESH_New(c.s.coin() ? F1 : F4); REQ(c, MESH_ImportFromFile(k, path.c_str(), "x3d", NULL, NULL) == 1, "return", "import failed"); MatchOpt mo; double big = 0; for (auto& x : m.X) for (double z : x) big = std::max(big, std::fabs(z)); mo.tol = 4e-14 * big; Match M = matchMesh(c, m, k, "round trip", mo);
  std::map<int, int> g2k, k2g; for (int i = 0; i < m.n(T); i++) { void* e = M.at(T, i); REQ(c, e == (T == 3 ? (void*)MESH_Region(k, i) : (void*)MESH_Face(k, i)), "cell-order", "element %d is not cell %d", i, i); REQ(c, MEnt_GEntDim(e) == T, "cell-classification", "element %d is on a model entity of dimension %d", i, MEnt_GEntDim(e)); if (insets.count(i)) continue; REQ(c, g2k.emplace(m.gi[T][i], MEnt_GEntID(e)).first->second == MEnt_GEntID(e) && (insets.size() || k2g.emplace(MEnt_GEntID(e), m.gi[T][i]).first->second == m.gi[T][i]), "material", "element %d of model entity %d is on %d", i, m.gi[T][i], MEnt_GEntID(e)); }
  for (auto& s : ss) if (s.dim == T || s.dim == 0) { MSet_ptr q = MESH_MSetByName(k, s.name.c_str()); REQ(c, q, "set", "set %s was not read", s.name.c_str()); REQ(c, MSet_Num_Entries(q) == (int)s.in.size() && (int)MSet_EntDim(q) == s.dim, "set", "set %s has %d entries, expected %zu", s.name.c_str(), MSet_Num_Entries(q), s.in.size()); for (int i : s.in) REQ(c, MSet_Contains(q, M.at(s.dim, i)), "set", "entity %d is not in set %s", i, s.name.c_str()); }
  for (auto& q : g.cell) { MAttrib_ptr a = att(c, k, q.first, T); REQ(c, a, "field", "no field %s", q.first.c_str()); for (int i = 0; i < m.n(T); i++) REQ(c, MEnt_Get_DblAttVal(M.at(T, i), a) == q.second[i], "field-value", "%s of element %d", q.first.c_str(), i); }
  for (auto& q : g.node) { MAttrib_ptr a = att(c, k, q.first, 0); REQ(c, a && MAttrib_Get_NumComps(a) == 3, "field", "no field %s", q.first.c_str()); for (int i = 0; i < m.n(0); i++) { double* p = MEnt_Get_VecAttVal(M.at(0, i), a); REQ(c, p && p[0] == q.second[i][0] && p[1] == q.second[i][1] && p[2] == q.second[i][2], "field-value", "%s of vertex %d", q.first.c_str(), i); } }
  if (ss.empty()) { REQ(c, MESH_ExportToFLAGX3D(k, strdup("second.x3d"), 0, NULL, NULL, NULL) == 1, "return", "second export failed"); XFile h = parse(c, "second.x3d"); REQ(c, h.matid == g.matid && h.cell.size() == g.cell.size() && h.C.size() == g.C.size(), "second-file", "second file differs"); }
  MESH_Delete(b.m); MESH_Delete(k); if (m.n(T) > 1) c.nontrivial();
}
static void external(Case& c, RMesh& m) {
  int T = m.topo, n = m.n(T); VI np = c.s.perm(m.n(0)), pos(m.n(0)), cp = c.s.perm(n); for (int i = 0; i < m.n(0); i++) pos[np[i]] = i + 1;
  std::vector<std::pair<int, VI>> F; for (int i = 0; i < n; i++) for (auto& v : sides(m, cp[i])) F.push_back({i, v}); VI fo = c.s.perm(F.size()); std::vector<VI> cf(n); std::map<VI, VI> share; { auto G = F; VI at(F.size()); for (size_t i = 0; i < fo.size(); i++) { F[i] = G[fo[i]]; at[fo[i]] = i + 1; } for (size_t i = 0; i < fo.size(); i++) cf[G[i].first].push_back(at[i]); for (auto& f : cf) std::rotate(f.begin(), f.begin() + c.s.draw(f.size()), f.end()); }  /* the sides of a 2D cell go around it */ for (size_t i = 0; i < F.size(); i++) { share[sorted(F[i].second)].push_back(i + 1); }
  size_t mn = 0, mf = 0; for (auto& f : F) mn = std::max(mn, f.second.size()); for (auto& q : cf) mf = std::max(mf, q.size());
  int nm = 1 + c.s.draw(14); VI mat(n), name(nm); for (int& x : mat) x = c.s.draw(nm); for (int i = 0; i < nm; i++) name[i] = (c.s.coin() ? 1000 : 0) + 7 * i + 1; int nc = c.s.draw(3), nn = c.s.draw(3);
  FILE* fp = fopen("x.x3d", "w"); fprintf(fp, "x3dtoflag ascii\nheader\n process 1\n numdim %d\n materials %d\n nodes %d\n faces %zu\n elements %d\n ghost_nodes 0\n slaved_nodes 0\n nodes_per_slave 2\n nodes_per_face %zu\n faces_per_cell %zu\n node_data_fields %d\n cell_data_fields %d\nend_header\n", T, nm, m.n(0), F.size(), n, mn, mf, nn, nc + 2);
  fprintf(fp, "matnames\n"); for (int i = 0; i < nm; i++) fprintf(fp, "%10d   %d\n", i + 1, name[i]); fprintf(fp, "end_matnames\nmateos\n"); for (int i = 0; i < nm; i++) fprintf(fp, "%10d   -1\n", i + 1); fprintf(fp, "end_mateos\nmatopc\n"); for (int i = 0; i < nm; i++) fprintf(fp, "%10d   -1\n", i + 1); fprintf(fp, "end_matopc\n");
  fprintf(fp, "nodes\n"); for (int i = 0; i < m.n(0); i++) fprintf(fp, "%10d %.17g %.17g %.17g\n", i + 1, m.X[np[i]][0], m.X[np[i]][1], m.X[np[i]][2]); fprintf(fp, "end_nodes\nfaces\n");
  for (size_t i = 0; i < F.size(); i++) { int opp = 0; for (int z : share[sorted(F[i].second)]) if (z != (int)i + 1) opp = z; int k = 2; fprintf(fp, "%10zu%10zu", i + 1, F[i].second.size()); for (int v : F[i].second) { fprintf(fp, "%10d", pos[v]); if (++k % 13 == 0) fprintf(fp, "\n"); } fprintf(fp, "%10d%10d%10d         1         1         1         1         1\n", 1, opp ? 1 : 0, opp); }
  fprintf(fp, "end_faces\ncells\n"); for (int i = 0; i < n; i++) { fprintf(fp, "%10d%10zu", i + 1, cf[i].size()); int k = 2; for (int f : cf[i]) { fprintf(fp, "%10d", f); if (++k % 14 == 0) fprintf(fp, "\n"); } fprintf(fp, "\n"); } fprintf(fp, "end_cells\nslaved_nodes          0\nend_slaved_nodes\nghost_nodes          0\nend_ghost_nodes\ncell_data\nmatid\n");
  for (int i = 0; i < n; i++) fprintf(fp, "%10d%s", name[mat[i]], (i + 1) % 10 == 0 || i == n - 1 ? "\n" : ""); fprintf(fp, "end_matid\npartelm\n"); for (int i = 0; i < n; i++) fprintf(fp, "%10d%s", 1, (i + 1) % 10 == 0 || i == n - 1 ? "\n" : ""); fprintf(fp, "end_partelm\n");
  std::vector<std::vector<double>> cv(nc), nv(nn); for (int k = 0; k < nc; k++) { fprintf(fp, "cv%d\n", k); for (int i = 0; i < n; i++) { cv[k].push_back(c.s.real(-3, 3)); fprintf(fp, "%.17g\n", cv[k][i]); } fprintf(fp, "end_cv%d\n", k); } fprintf(fp, "end_cell_data\nnode_data\n");
  for (int k = 0; k < nn; k++) { fprintf(fp, "nv%d\n", k); for (int i = 0; i < 3 * m.n(0); i++) { nv[k].push_back(c.s.real(-3, 3)); fprintf(fp, "%.17g%s", nv[k][i], i % 3 == 2 ? "\n" : " "); } fprintf(fp, "end_nv%d\n", k); } fprintf(fp, "end_node_data\nend_dump\n"); fclose(fp);
  // other files that lie in the same directory
  bool reg = c.s.chance(1, 3); VI rin; if (reg) { fp = fopen("x.rock.Reg", "w"); for (int i = 0; i < n; i++) if (c.s.coin()) { rin.push_back(i); fprintf(fp, "%10d\n", i + 1); } fprintf(fp, "\n"); for (size_t i = 0; i < rin.size(); i++) fprintf(fp, "% 20.18e\n", 1.0); fclose(fp); c.label("region-file"); }
  bool bdy = c.s.chance(1, 3); VI bin; if (bdy) { fp = fopen("x.wall.Bdy", "w"); for (int i = 0; i < m.n(0); i++) if (c.s.coin()) { bin.push_back(i); fprintf(fp, "%10d\n", i + 1); } fclose(fp); c.label("boundary-file"); }
  if (c.s.coin()) for (const char* o : {"y.rock.Reg", "x.Reg", "x.Bdy", "xx.rock.Reg", "x.rock.Regular"}) { fp = fopen(o, "w"); fprintf(fp, "% 10d\n\n", n + 5); fclose(fp); }
  Mesh_ptr k = MESH_New(c.s.coin() ? F1 : F4); REQ(c, MESH_ImportFromFile(k, "x.x3d", "x3d", NULL, NULL) == 1, "return", "import failed"); Match M = matchMesh(c, m, k, "file");
  std::set<int> in(rin.begin(), rin.end());
  for (int i = 0; i < m.n(0); i++) REQ(c, M.at(0, np[i]) == MESH_Vertex(k, i) && MV_ID(MESH_Vertex(k, i)) == i + 1, "node-order", "vertex %d", i);
  for (int i = 0; i < n; i++) { void* e = M.at(T, cp[i]); REQ(c, e == (T == 3 ? (void*)MESH_Region(k, i) : (void*)MESH_Face(k, i)), "cell-order", "cell %d", i); REQ(c, MEnt_GEntDim(e) == T && MEnt_GEntID(e) == (in.count(i) ? 1 : mat[i] + 1), "material", "cell %d of material %d is on (%d,%d)", i, mat[i] + 1, MEnt_GEntDim(e), MEnt_GEntID(e)); for (int z = 0; z < nc; z++) { MAttrib_ptr a = att(c, k, pbt::format("cv%d", z), T); REQ(c, a && MEnt_Get_DblAttVal(e, a) == cv[z][i], "field-value", "cv%d of cell %d", z, i); } }
  for (int i = 0; i < m.n(0); i++) for (int z = 0; z < nn; z++) { MAttrib_ptr a = att(c, k, pbt::format("nv%d", z), 0); double* p = a ? MEnt_Get_VecAttVal(MESH_Vertex(k, i), a) : nullptr; REQ(c, p && p[0] == nv[z][3 * i] && p[1] == nv[z][3 * i + 1] && p[2] == nv[z][3 * i + 2], "field-value", "nv%d of node %d", z, i); }
  REQ(c, MESH_Num_MSets(k) == reg + bdy, "set", "%d sets were read, expected %d", MESH_Num_MSets(k), reg + bdy);
  if (reg) { MSet_ptr s = MESH_MSetByName(k, "rock"); REQ(c, s && MSet_Num_Entries(s) == (int)rin.size(), "set", "cells of the region file"); for (int i : rin) REQ(c, MSet_Contains(s, M.at(T, cp[i])), "set", "cell %d of the region file", i); }
  if (bdy) { MSet_ptr s = MESH_MSetByName(k, "wall"); REQ(c, s && MSet_Num_Entries(s) == (int)bin.size(), "set", "nodes of the boundary file"); for (int i : bin) REQ(c, MSet_Contains(s, MESH_Vertex(k, i)), "set", "node %d of the boundary file", i); }
  MESH_Delete(k); if (n > 1) c.nontrivial();
}
static void run(Case& c) {
  for (const char* d : {".", "sub.dir"}) if (DIR* p = opendir(d)) { while (dirent* e = readdir(p)) if (strstr(e->d_name, ".Reg") || strstr(e->d_name, ".Bdy")) unlink((std::string(d) + "/" + e->d_name).c_str()); closedir(p); }
  GenOpt o; o.maxcells = 4 + c.size / 4; o.materials = true; o.nonmanifold = false; o.orientFlips = false; RMesh m = dropUnused(genMesh(c, o)); if (!m.n(m.topo)) return;
  if (c.s.chance(1, 3)) { double s = std::pow(10.0, c.s.range(-9, 9)); for (auto& x : m.X) x = s * x; c.label("scaled"); } if (!holds(c, m)) return;
  bool ext = c.s.coin(); c.label(ext ? "external-file" : "round-trip"); if (ext) external(c, m); else roundtrip(c, m);
}
int main(int argc, char** argv) { static pbt::Property P = {"C12", "a mesh with at least two cells was written or read", run, 5000, 100000}; return pbt::main_serial(argc, argv, P); }
