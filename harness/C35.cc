#include "par.h"
#include "x3d.h"
#include "gmv.h"
using namespace x3df;
#include <dirent.h>
#include <unistd.h>
// One FLAG X3D, GMV or native file per rank: together the files are the distributed mesh, each says what its rank holds
// and how that joins what the others hold, and reading them back on as many ranks gives the distributed mesh again.
static double digits(double x) { char t[64]; snprintf(t, sizeof t, "%.14E", x); return strtod(t, nullptr); }
static bool sides2(RMesh& m, bool orient) {   // manifold, and consistently oriented
  int T = m.topo; m.derive(); if (T == 2) { for (auto& f : m.eF) if (f.empty() || f.size() > 2) return false; } else for (auto& r : m.fR) if (r.empty() || r.size() > 2) return false;
  if (orient) { std::set<VI> s; for (int k = 0; k < m.n(T); k++) for (auto& v : sides(m, k)) if (!s.insert(canon(m, v)).second) return false; } return true;
}
static std::string num5(const std::string& base, int k) { return base + pbt::format(".%05d", k); }
static VI lines(Case& c, const std::string& path) { VI r; FILE* fp = fopen(path.c_str(), "r"); REQ(c, fp, "set-file", "no file %s", path.c_str()); char l[256]; while (fgets(l, 256, fp)) { if (l[0] == '\n') break; r.push_back(atoi(l)); } fclose(fp); return r; }
static bool weavable(const DWorld& W, int np) {   // shared vertices are found among those on the boundary of a rank's elements
  const RMesh& m = W.m; int T = m.topo; std::vector<std::set<int>> users(m.n(0)); for (int i = 0; i < m.n(T); i++) for (int v : m.vertsOf(T, i)) users[v].insert(W.part[i]);
  for (int r = 0; r < np; r++) { std::vector<char> bd(m.n(0), 0); for (int s = 0; s < m.n(T - 1); s++) { int n = 0; for (int q : m.up(T - 1, s, T)) n += W.part[q] == r; if (n == 1) for (int v : m.vertsOf(T - 1, s)) bd[v] = 1; } for (int v = 0; v < m.n(0); v++) if (users[v].count(r) && users[v].size() > 1 && !bd[v]) return false; }
  return true;
}
static std::vector<DMap> afterImport(Case& c, DWorld W, std::vector<DRank>& R, std::vector<std::string>& out) {
  W.atts.clear(); W.sets.clear(); for (auto& s : out) R.push_back(unpackRank(W, s, false, false)); DistOpt d; d.sets = d.atts = d.edgeDir = d.gidContig = d.adj = d.classifn = false; d.ptRing0 = true; return checkDist(c, W, R, d);
}
static void x3d(Case& c, PWorld& Q, int np) {
  DWorld& W = Q.W; const RMesh& m = W.m; int T = m.topo; shim::Opt so = shim::draw(c); std::vector<std::string> out;
  for (int k = c.s.draw(4); k > 0; k--) { DAtt a; a.dim = c.s.coin() ? 0 : T; a.t = a.dim ? c.s.coin() ? DOUBLE : INT : VECTOR; a.nc = a.dim ? 1 : T; a.name = pbt::format("f%d", k); bool all = c.s.coin(); for (int i = 0; i < m.n(a.dim); i++) if (all || c.s.coin()) { std::vector<double> v; for (int q = 0; q < a.nc; q++) v.push_back(a.t == INT ? c.s.range(-99, 99) : c.s.range(-999, 999) / 8.0); a.val[{a.dim, i}] = v; } W.atts.push_back(a); c.label(a.dim ? "element-field" : "node-field"); }
  for (int k = c.s.coin() ? c.s.draw(4) : 0; k > 0; k--) { DSet s; s.dim = c.s.coin() ? 0 : T; s.name = pbt::format("set%d", k); for (int i = 0; i < m.n(s.dim); i++) if (c.s.coin()) s.in.push_back({s.dim, i}); W.sets.push_back(s); c.label(s.dim ? "element-set" : "node-set"); }
  std::string base = c.s.coin() ? "t" : "mesh";
  shim::run(c, np, so, [&](int rank, std::string& s) { Mesh_ptr my = parMesh(c, Q, rank); PMap P = parMap(c, W, my); Pack O{s};
    for (auto& a : W.atts) { MAttrib_ptr q = attNew(my, a); for (auto& x : a.val) { int i = P.from[x.first.first][x.first.second]; if (i >= 0) attSet(P.b.ent[a.dim][i], q, a.t, x.second); } }
    for (auto& t : W.sets) { MSet_ptr q = MSet_New(my, t.name.c_str(), (MType)t.dim); for (auto& x : t.in) { int i = P.from[x.first][x.second]; if (i >= 0) MSet_Add(q, P.b.ent[x.first][i]); } }
    VI own(m.n(0), -1); for (int i = 0; i < P.x.n(0); i++) own[P.to[0][i]] = MV_MasterParID(P.b.ent[0][i]); O.v(own);
    int na = MESH_Num_Attribs(my), ns = MESH_Num_MSets(my); REQ(c, MESH_ExportToFile(my, (base + ".x3d").c_str(), "x3d", 0, NULL, NULL, MPI_COMM_WORLD) == 1, "return", "export failed"); REQ(c, MESH_Num_MSets(my) == ns, "source-sets", "export changed the number of sets"); (void)na;
    for (auto& a : W.atts) { MAttrib_ptr q = MESH_AttribByName(my, a.name.c_str()); REQ(c, q, "source-fields", "export removed %s", a.name.c_str()); for (auto& x : a.val) { int i = P.from[x.first.first][x.first.second]; if (i >= 0) REQ(c, attVal(P.b.ent[a.dim][i], q, a.t, a.nc) == x.second, "source-fields", "export changed %s", a.name.c_str()); } }
    checkAdjacency(c, P.b, P.x, "mesh of a rank after export", 0); MESH_Delete(my); }, out);
  std::vector<VI> owner(np); for (int r = 0; r < np; r++) { Unpack U{out[r]}; owner[r] = U.v(); }
  // the files
  std::vector<XFile> g(np); std::vector<VI> vt(np); std::vector<VI> ct(np), cf(np); std::map<V3, int> at; for (int i = 0; i < m.n(0); i++) at[m.X[i]] = i; std::vector<VI> vf(np, VI(m.n(0), -1)); int sharedSides = 0;
  std::map<std::multiset<VI>, int> el; for (int i = 0; i < m.n(T); i++) { std::multiset<VI> w; for (auto& v : sides(m, i)) w.insert(canon(m, v)); el[w] = i; }
  std::vector<std::vector<char>> own(np); std::vector<int> users(m.n(0), 0); std::set<int> mats(m.gi[T].begin(), m.gi[T].end());
  for (int r = 0; r < np; r++) { std::vector<char> a[4], z[4]; expectHere(W, r, 0, a, z); own[r] = z[0]; for (int i = 0; i < m.n(0); i++) users[i] += z[0][i]; }
  for (int r = 0; r < np; r++) { std::string f = np > 1 ? num5(base + ".x3d", r + 1) : base + ".x3d"; XFile& q = g[r] = parse(c, f.c_str(), r + 1); REQ(c, q.hdr["process"] == r + 1 && q.hdr["numdim"] == T, "file-header", "file of rank %d: process %d, dimension %d", r, q.hdr["process"], q.hdr["numdim"]);
    for (size_t i = 0; i < q.X.size(); i++) { auto it = at.find(q.X[i]); REQ(c, it != at.end(), "file-coordinate", "rank %d: node %zu at (%.17g,%.17g,%.17g) is not a vertex", r, i + 1, q.X[i][0], q.X[i][1], q.X[i][2]); REQ(c, own[r][it->second], "file-node", "rank %d: node %zu is vertex %d, which no element of the rank uses", r, i + 1, it->second); REQ(c, vf[r][it->second] < 0, "file-node", "rank %d: vertex %d is written twice", r, it->second); vf[r][it->second] = i; vt[r].push_back(it->second); }
    for (int i = 0; i < m.n(0); i++) REQ(c, !own[r][i] || vf[r][i] >= 0, "file-node", "rank %d: vertex %d is not in the file", r, i);
    cf[r].assign(m.n(T), -1); for (size_t i = 0; i < q.C.size(); i++) { std::multiset<VI> w; for (int s : q.C[i]) { VI v; for (int k : q.F[s].v) v.push_back(vt[r][k]); w.insert(canon(m, v)); } auto it = el.find(w); REQ(c, it != el.end(), "file-cell", "rank %d: cell %zu is not an element (or a side of it points inward)", r, i + 1); REQ(c, W.part[it->second] == r && cf[r][it->second] < 0, "file-cell", "rank %d: cell %zu is element %d of rank %d", r, i + 1, it->second, W.part[it->second]); cf[r][it->second] = i; ct[r].push_back(it->second); }
    for (int i = 0; i < m.n(T); i++) REQ(c, (W.part[i] == r) == (cf[r][i] >= 0), "file-cell", "rank %d: element %d is not in the file", r, i);
    REQ(c, q.mats == g[0].mats && q.mats.size() == mats.size(), "file-material", "rank %d lists %zu materials, rank 0 %zu, the mesh has %zu", r, q.mats.size(), g[0].mats.size(), mats.size()); }
  std::map<int, int> m2g, g2m;
  for (int r = 0; r < np; r++) { XFile& q = g[r];
    for (size_t i = 0; i < q.C.size(); i++) { int t = ct[r][i], id = q.matid[i]; bool in = false; for (auto& z : q.mats) in |= atoi(z.second.c_str()) == id; REQ(c, in, "file-material", "rank %d: material %d is not in the list", r, id); REQ(c, g2m.emplace(m.gi[T][t], id).first->second == id && m2g.emplace(id, m.gi[T][t]).first->second == m.gi[T][t], "file-material", "rank %d: element %d on model entity %d has material %d", r, t, m.gi[T][t], id); REQ(c, q.partelm[i] == r + 1, "file-process", "rank %d: cell %zu is of process %d", r, i + 1, q.partelm[i]); }
    std::map<VI, VI> bySide; for (int i = 0; i < m.n(T); i++) for (auto& v : sides(m, i)) bySide[sorted(v)].push_back(i);
    for (size_t k = 0; k < q.F.size(); k++) { XFace& f = q.F[k]; VI v; for (int z : f.v) v.push_back(vt[r][z]); VI& e = bySide[sorted(v)]; int other = -1, mine = 0; for (int z : e) if (W.part[z] != r) other = W.part[z]; else mine++;
      if (other < 0) { REQ(c, (f.opp != 0) == (mine == 2) && f.opid == (mine == 2 ? r + 1 : 0), "file-pair", "rank %d: face %zu between %d elements of the rank is opposite to face %d of process %d", r, k + 1, mine, f.opp, f.opid); continue; }
      sharedSides++; REQ(c, f.opid == other + 1 && f.opp >= 1 && f.opp <= (int)g[other].F.size(), "file-pair", "rank %d: face %zu shared with rank %d is opposite to face %d of process %d", r, k + 1, other, f.opp, f.opid); XFace& h = g[other].F[f.opp - 1]; VI w; for (int z : h.v) w.push_back(vt[other][z]); std::reverse(w.begin(), w.end()); REQ(c, h.opid == r + 1 && h.opp == (int)k + 1 && rot(w) == rot(v), "file-pair", "rank %d: face %zu %s is opposite to face %d of process %d, %s reversed, which is opposite to face %d of process %d", r, k + 1, str(v).c_str(), f.opp, f.opid, str(w).c_str(), h.opp, h.opid); }
    VI seen(q.X.size(), 0);
    for (auto& n : q.ghost) { REQ(c, n[0] >= 1 && n[0] <= (int)q.X.size() && !seen[n[0] - 1]++, "file-ghost", "rank %d: shared node %d", r, n[0]); int t = vt[r][n[0] - 1]; REQ(c, users[t] > 1, "file-ghost", "rank %d: vertex %d is not shared", r, t); REQ(c, n[1] == owner[r][t] + 1, "file-ghost", "rank %d: vertex %d has master process %d, its owner is rank %d", r, t, n[1], owner[r][t]); REQ(c, n[2] >= 1 && n[2] <= (int)vt[n[1] - 1].size() && vt[n[1] - 1][n[2] - 1] == t, "file-ghost", "rank %d: vertex %d is node %d of process %d", r, t, n[2], n[1]); }
    for (size_t i = 0; i < seen.size(); i++) REQ(c, seen[i] == (users[vt[r][i]] > 1), "file-ghost", "rank %d: shared vertex %d is not listed", r, vt[r][i]);
    size_t nc = 0, nn = 0; for (auto& a : W.atts) { nc += a.dim == T; nn += a.dim == 0; bool got = false;
      auto want = [&](int t, int z) { auto it = a.val.find({a.dim, t}); return it == a.val.end() || z >= a.nc ? 0.0 : it->second[z]; };
      if (a.dim) { for (auto& x : q.cell) if (x.first == a.name) { got = true; for (size_t i = 0; i < x.second.size(); i++) REQ(c, x.second[i] == want(ct[r][i], 0), "file-field", "rank %d: %s of element %d is %g, expected %g", r, a.name.c_str(), ct[r][i], x.second[i], want(ct[r][i], 0)); } }
      else for (auto& x : q.node) if (x.first == a.name) { got = true; for (size_t i = 0; i < x.second.size(); i++) for (int z = 0; z < 3; z++) REQ(c, x.second[i][z] == want(vt[r][i], z), "file-field", "rank %d: %s of vertex %d is %g, expected %g", r, a.name.c_str(), vt[r][i], x.second[i][z], want(vt[r][i], z)); }
      REQ(c, got, "file-field", "rank %d: no field %s", r, a.name.c_str()); }
    REQ(c, q.cell.size() == nc && q.node.size() == nn, "file-field", "rank %d: %zu and %zu fields, expected %zu and %zu", r, q.cell.size(), q.node.size(), nc, nn);
    for (auto& s : W.sets) { VI w; for (auto& x : s.in) { int i = s.dim ? cf[r][x.second] : vf[r][x.second]; if (i >= 0) w.push_back(i + 1); } std::string f = base + "." + s.name + (s.dim ? ".Reg" : ".Bdy"); VI v = lines(c, np > 1 ? num5(f, r + 1) : f); REQ(c, sorted(v) == sorted(w), "set-file", "rank %d: file of %s is %s, expected %s", r, s.name.c_str(), str(v).c_str(), str(sorted(w)).c_str()); }
    for (auto& z : q.mats) { VI w; for (size_t i = 0; i < q.C.size(); i++) if (pbt::format("%d", q.matid[i]) == z.second) w.push_back(i + 1); std::string f = pbt::format("mat.%d.Reg", z.first); VI v = lines(c, np > 1 ? num5(f, r + 1) : f); REQ(c, sorted(v) == w, "material-file", "rank %d: file of material %d is %s, expected %s", r, z.first, str(v).c_str(), str(w).c_str()); } }
  if (sharedSides) c.nontrivial(); if (np == 1 || !W.sets.empty()) return;   // cells of a .Reg file form a material of their own
  // and back
  bool weave = weavable(W, np) && c.s.chance(3, 4); int opts[2] = {weave, c.s.chance(1, 5) ? 0 : 1}; RepType rep = c.s.coin() ? F1 : F4; W.ring = weave ? opts[1] : 0; c.label(weave ? "x3d-woven" : "x3d-pieces"); so = shim::draw(c);
  shim::run(c, np, so, [&](int rank, std::string& s) { Mesh_ptr my = MESH_New(rep); REQ(c, MESH_ImportFromFile(my, num5(base + ".x3d", rank + 1).c_str(), "x3d", opts, MPI_COMM_WORLD) == 1, "return", "import failed");
    std::vector<char> in[4], ow[4]; expectHere(W, rank, W.ring, in, ow); PMap P = parMap(c, W, my);
    for (auto& a : W.atts) { MAttrib_ptr q = MESH_AttribByName(my, a.name.c_str()); REQ(c, q && (int)MAttrib_Get_EntDim(q) == a.dim, "field-missing", "rank %d has no field %s", rank, a.name.c_str()); for (int i = 0; i < P.x.n(a.dim); i++) { int t = P.to[a.dim][i]; if (!ow[a.dim][t]) continue; auto it = a.val.find({a.dim, t}); std::vector<double> v = attVal(P.b.ent[a.dim][i], q, MAttrib_Get_Type(q), MAttrib_Get_NumComps(q)); for (int z = 0; z < a.nc; z++) REQ(c, v[z] == (it == a.val.end() ? 0.0 : it->second[z]), "field-value", "rank %d: %s of %d", rank, a.name.c_str(), t); } }
    for (int i = 0; i < P.x.n(T); i++) { int t = P.to[T][i]; if (ow[T][t]) REQ(c, MEnt_GEntDim(P.b.ent[T][i]) == T && MEnt_GEntID(P.b.ent[T][i]) == g2m[m.gi[T][t]], "material", "rank %d: element %d is on (%d,%d), its material is %d", rank, t, MEnt_GEntDim(P.b.ent[T][i]), MEnt_GEntID(P.b.ent[T][i]), g2m[m.gi[T][t]]); }
    if (weave) packRank(c, W, my, false, false, s); else for (int d = 0; d < 4; d++) for (int t = 0; t < m.n(d); t++) REQ(c, (P.from[d][t] >= 0) == (bool)ow[d][t], "piece-content", "rank %d %s entity %d/%d", rank, ow[d][t] ? "lacks" : "should not hold", d, t);
    MESH_Delete(my); }, out);
  if (!weave) return; std::vector<DRank> R; auto M = afterImport(c, W, R, out);
  for (int r = 0; r < np; r++) for (size_t i = 0; i < R[r].e[0].size(); i++) { int t = M[r].to[0][i], w = -1; for (int q = 0; q < np; q++) if (owner[q][t] >= 0) w = owner[q][t]; REQ(c, R[r].e[0][i].master == w, "owner", "rank %d: the owner of vertex %d is rank %d, the files say %d", r, t, R[r].e[0][i].master, w); }
}
static void fieldsOf(Case& c, DWorld& W) {
  const RMesh& m = W.m; int T = m.topo;
  for (int k = c.s.draw(3); k > 0; k--) { DAtt a; a.dim = c.s.coin() ? 0 : T; a.t = c.s.coin() ? DOUBLE : INT; a.nc = 1; a.name = pbt::format("f%d", k); bool all = c.s.coin(); for (int i = 0; i < m.n(a.dim); i++) if (all || c.s.coin()) a.val[{a.dim, i}] = {a.t == INT ? (double)c.s.range(-99, 99) : c.s.range(-999, 999) / 8.0}; W.atts.push_back(a); c.label(a.dim ? "element-field" : "node-field"); }
}
static void setFields(const DWorld& W, Mesh_ptr my, PMap& P) { for (auto& a : W.atts) { MAttrib_ptr q = attNew(my, a); for (auto& x : a.val) { int i = P.from[x.first.first][x.first.second]; if (i >= 0) attSet(P.b.ent[a.dim][i], q, a.t, x.second); } } }
static void gmv(Case& c, PWorld& Q, int np) {
  DWorld& W = Q.W; const RMesh& m = W.m; int T = m.topo; fieldsOf(c, W); shim::Opt so = shim::draw(c); std::vector<std::string> out; int opts[2] = {(int)c.s.coin(), T == 3 && c.s.coin()}; bool api = c.s.coin(); if (opts[1]) c.label("vface");
  std::string base = c.s.coin() ? "t.gmv" : "mesh.gmv"; auto name = [&](int r) { return np > 1 ? num5(base, r) : base; };
  auto entities = [&](Mesh_ptr my, PMap& P, std::string& s) { Pack O{s}; for (int d : {0, T}) { O.i(P.x.n(d)); for (int i = 0; i < P.x.n(d); i++) { O.i(P.to[d][i]); O.i(MEnt_GlobalID(P.b.ent[d][i])); O.i(MEnt_MasterParID(P.b.ent[d][i])); } } };
  shim::run(c, np, so, [&](int rank, std::string& s) { Mesh_ptr my = parMesh(c, Q, rank); PMap P = parMap(c, W, my); setFields(W, my, P); entities(my, P, s); int na = MESH_Num_Attribs(my);
    REQ(c, (api ? MESH_ExportToGMV(my, base.c_str(), 0, NULL, opts, MPI_COMM_WORLD) : MESH_ExportToFile(my, base.c_str(), "gmv", 0, NULL, opts, MPI_COMM_WORLD)) == 1, "return", "export failed"); REQ(c, MESH_Num_Attribs(my) == na, "source-attributes", "export changed the number of attributes"); checkAdjacency(c, P.b, P.x, "mesh of a rank after export", 0); MESH_Delete(my); }, out);
  std::map<V3, int> at; for (int i = 0; i < m.n(0); i++) at[m.X[i]] = i; std::map<std::set<VI>, int> by; std::map<int, int> gids[2]; bool shared = false;
  for (int i = 0; i < m.n(T); i++) { std::set<VI> w; if (T == 2) w.insert(gmvf::rot(m.F[i].v)); else for (auto& v : sides(m, i)) w.insert(gmvf::rot(v)); by[w] = i; }
  for (int r = 0; r < np; r++) { gmvf::GFile g = gmvf::parse(c, name(r).c_str()); Unpack U{out[r]}; std::map<int, std::pair<int, int>> have[2]; for (int z = 0; z < 2; z++) { int n = U.i(); for (int i = 0; i < n; i++) { int t = U.i(), a = U.i(), b = U.i(); have[z][t] = {a, b}; } }
    REQ(c, g.X.size() == have[0].size() && g.cells.size() == have[1].size(), "file-count", "rank %d: %zu nodes and %zu cells, the mesh has %zu and %zu", r, g.X.size(), g.cells.size(), have[0].size(), have[1].size());
    VI vt, ct; std::set<int> seen; for (size_t i = 0; i < g.X.size(); i++) { auto it = at.find(g.X[i]); REQ(c, it != at.end() && have[0].count(it->second) && seen.insert(it->second).second, "file-node", "rank %d: node %zu at (%.17g,%.17g,%.17g)", r, i + 1, g.X[i][0], g.X[i][1], g.X[i][2]); vt.push_back(it->second); }
    seen.clear(); for (size_t i = 0; i < g.cells.size(); i++) { std::set<VI> w; auto q = g.cells[i]; if (T == 2) q.faces = {q.v}; for (auto& f : q.faces) { VI v; for (int z : f) v.push_back(vt[z]); w.insert(gmvf::rot(v)); } auto it = by.find(w); REQ(c, q.dim == T && it != by.end() && have[1].count(it->second) && seen.insert(it->second).second, "file-cell", "rank %d: cell %zu is no element of the rank, or one already written", r, i + 1); ct.push_back(it->second);
      REQ(c, g.mat[i] >= 1 && g.mat[i] <= (int)g.mats.size() && g.mats[g.mat[i] - 1] == pbt::format("mat%d", m.gi[T][it->second]), "file-material", "rank %d: cell %zu has material %d", r, i + 1, g.mat[i]); }
    int ids = 0; for (auto& v : g.vars) { if (v.name == "Node_GlobalID" || v.name == "Cell_GlobalID" || v.name == "Node_MasterPID" || v.name == "Cell_MasterPID") { ids++; int z = v.name[0] == 'C', ow = v.name[5] == 'M'; REQ(c, v.on == !z, "file-global-id", "%s", v.name.c_str()); for (size_t i = 0; i < v.val.size(); i++) { int t = z ? ct[i] : vt[i]; REQ(c, v.val[i] == (ow ? have[z][t].second : have[z][t].first), "file-global-id", "rank %d: %s %zu is %g, the mesh has global ID %d and owner %d", r, v.name.c_str(), i + 1, v.val[i], have[z][t].first, have[z][t].second); if (!ow) { auto jt = gids[z].emplace(v.val[i], t).first; REQ(c, jt->second == t, "file-global-id", "global ID %g names %d and %d", v.val[i], t, jt->second); if (t != jt->second || z) continue; } else if (v.val[i] != r) shared = true; } }
      for (auto& a : W.atts) if (a.name == v.name) { REQ(c, v.on == !a.dim, "file-field", "%s", v.name.c_str()); for (size_t i = 0; i < v.val.size(); i++) { auto it = a.val.find({a.dim, a.dim ? ct[i] : vt[i]}); REQ(c, v.val[i] == (it == a.val.end() ? 0 : it->second[0]), "file-field", "rank %d: %s %zu is %g", r, v.name.c_str(), i + 1, v.val[i]); } } }
    REQ(c, ids == 4, "file-global-id", "rank %d: %d of the 4 variables that join the files", r, ids); for (auto& a : W.atts) REQ(c, std::count_if(g.vars.begin(), g.vars.end(), [&](gmvf::GVar& v) { return v.name == a.name; }) == 1, "file-field", "rank %d: no %s", r, a.name.c_str()); }
  if (shared) c.nontrivial(); bool pieces = !Q.weave && W.ring == 0; if (np == 1 || !pieces || !weavable(W, np)) return;   // files without ghost elements
  if (c.s.chance(1, 4)) { c.label("gmv-short-number"); for (int r = 0; r < np; r++) rename(name(r).c_str(), (base + "." + std::to_string(r)).c_str()); } RepType rep = c.s.coin() ? F1 : F4; W.ring = 1; c.label("gmv-woven"); so = shim::draw(c);
  shim::run(c, np, so, [&](int rank, std::string& s) { Mesh_ptr my = MESH_New(rep); REQ(c, (api ? MESH_ImportFromGMV(my, base.c_str(), MPI_COMM_WORLD) : MESH_ImportFromFile(my, base.c_str(), "gmv", NULL, MPI_COMM_WORLD)) == 1, "return", "import failed"); std::vector<char> in[4], ow[4]; expectHere(W, rank, W.ring, in, ow); PMap P = parMap(c, W, my);
    for (auto& a : W.atts) { MAttrib_ptr q = MESH_AttribByName(my, a.name.c_str()); REQ(c, q, "field-missing", "rank %d has no field %s", rank, a.name.c_str()); for (int i = 0; i < P.x.n(a.dim); i++) { int t = P.to[a.dim][i]; if (!ow[a.dim][t]) continue; auto it = a.val.find({a.dim, t}); REQ(c, attVal(P.b.ent[a.dim][i], q, MAttrib_Get_Type(q), 1)[0] == (it == a.val.end() ? 0.0 : it->second[0]), "field-value", "rank %d: %s of %d", rank, a.name.c_str(), t); } }
    packRank(c, W, my, false, false, s); MESH_Delete(my); }, out);
  std::vector<DRank> R; afterImport(c, W, R, out);
}
static double native16(double x) { char t[400]; snprintf(t, sizeof t, "%.16f", x); return strtod(t, nullptr); }
static void native(Case& c, PWorld& Q, int np) {
  DWorld& W = Q.W; const RMesh& m = W.m; fieldsOf(c, W); shim::Opt so = shim::draw(c); std::vector<std::string> out; std::string base = "t.mstk"; int api = c.s.coin(); RepType as = (RepType[]){UNKNOWN_REP, F1, F4}[api ? 0 : c.s.draw(3)]; int nd = std::to_string(np).size();
  shim::run(c, np, so, [&](int rank, std::string&) { Mesh_ptr my = parMesh(c, Q, rank); PMap P = parMap(c, W, my); setFields(W, my, P); REQ(c, (api ? MESH_ExportToFile(my, base.c_str(), "mstk", 0, NULL, NULL, MPI_COMM_WORLD) : MESH_WriteToFile(my, base.c_str(), as, MPI_COMM_WORLD)) == 1, "return", "export failed"); MESH_Delete(my); }, out);
  bool shared = false;
  for (int r = 0; r < np; r++) { std::string f = np > 1 ? pbt::format("%s.%d.%0*d", base.c_str(), np, nd, r) : base; Mesh_ptr k = MESH_New(c.s.coin() ? F1 : F4); REQ(c, MESH_ImportFromFile(k, f.c_str(), "mstk", NULL, NULL) == 1, "return", "import of %s failed", f.c_str()); PMap P = parMap(c, W, k); checkAdjacency(c, P.b, P.x, "mesh of a rank read back", 0);
    for (int d = 0; d < 4; d++) for (int t = 0; t < m.n(d); t++) { REQ(c, (P.from[d][t] >= 0) == (bool)Q.here[d][r][t], "native-content", "file of rank %d %s entity %d/%d", r, Q.here[d][r][t] ? "lacks" : "should not hold", d, t); if (!Q.here[d][r][t]) continue; if (!Q.own[d][r][t]) shared = true; void* e = P.b.ent[d][P.from[d][t]]; REQ(c, MEnt_GEntDim(e) == m.gd[d][t] && MEnt_GEntID(e) == m.gi[d][t], "native-classification", "rank %d: entity %d/%d is on (%d,%d), was on (%d,%d)", r, d, t, MEnt_GEntDim(e), MEnt_GEntID(e), m.gd[d][t], m.gi[d][t]); }
    for (auto& a : W.atts) { MAttrib_ptr q = MESH_AttribByName(k, a.name.c_str()); bool any = false; for (auto& x : a.val) any |= P.from[a.dim][x.first.second] >= 0; if (!any) continue; REQ(c, q, "native-field", "rank %d: no %s", r, a.name.c_str()); for (auto& x : a.val) { int i = P.from[a.dim][x.first.second]; if (i >= 0) REQ(c, std::fabs(attVal(P.b.ent[a.dim][i], q, a.t, 1)[0] - x.second[0]) < 1e-9, "native-field", "rank %d: %s of %d", r, a.name.c_str(), x.first.second); } }
    MESH_Delete(k); }
  if (shared) c.nontrivial();
}
static void run(Case& c) {
  if (DIR* p = opendir(".")) { while (dirent* e = readdir(p)) if (strstr(e->d_name, ".Reg") || strstr(e->d_name, ".Bdy") || strstr(e->d_name, ".x3d") || strstr(e->d_name, ".gmv") || strstr(e->d_name, ".mstk")) unlink(e->d_name); closedir(p); }
  int kind = (int[]){0, 0, 0, 1, 1, 2}[c.s.draw(6)]; PWorld Q; int np = 1 + c.s.draw(c.s.chance(1, 4) ? 8 : 4); if (c.s.chance(1, 12)) np = 9 + c.s.draw(3); c.label((const char*[]){"x3d", "gmv", "native"}[kind]);
  VI rings = kind == 1 ? VI{0, 1, 0, 2} : VI{1, 1, 0, 2};
  parWorld(c, Q, np, 0, rings, [&](RMesh& m) { if (kind != 1) for (auto& x : m.X) for (double& z : x) z = kind ? native16(z) : digits(z); return distinctPoints(m, 0) && (kind ? distinctShapes(m) : sides2(m, true)); });
  VI cnt(np, 0); for (int q : Q.W.part) cnt[q]++; for (int q : cnt) if (!q && kind < 2) { c.label("skip-empty-rank"); return; }
  c.note("%s np %d ring %d %s parts %s", describe(Q.W.m).c_str(), np, Q.W.ring, Q.weave ? "woven" : "distributed", str(Q.W.part).c_str());
  if (kind == 0) x3d(c, Q, np); else if (kind == 1) gmv(c, Q, np); else native(c, Q, np);
}
int main(int argc, char** argv) { static pbt::Property P = {"C35", "the files of two ranks share a side, or the file of a rank holds what another rank owns", run, 2000, 40000, {}, MSTK_Init}; return pbt::main_serial(argc, argv, P); }
