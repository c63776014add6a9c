#include "rmesh.h"
#include "exodusII.h"

bool distinctPoints(const RMesh& m, double tol) {
  std::vector<V3> x = m.X; std::sort(x.begin(), x.end());
  for (size_t i = 0; i + 1 < x.size(); i++) for (size_t j = i + 1; j < x.size() && x[j][0] - x[i][0] <= 4 * tol; j++)
    if (std::fabs(x[i][1] - x[j][1]) <= 4 * tol && std::fabs(x[i][2] - x[j][2]) <= 4 * tol) return false;
  return true;
}
bool distinctShapes(const RMesh& m) {
  std::set<VI> s; for (auto& e : m.E) if (!s.insert(sorted({e[0], e[1]})).second) return false;
  s.clear(); for (auto& f : m.F) if (!s.insert(sorted(f.v)).second) return false;
  s.clear(); for (auto& r : m.R) if (!s.insert(sorted(r.f)).second) return false;
  return true;
}
RMesh dropUnused(const RMesh& m) {
  RMesh r = m; std::vector<bool> u[4]; for (int d = 0; d < 4; d++) u[d].assign(m.n(d), d == m.topo);
  for (auto& R : m.R) for (int f : R.f) u[2][f] = true;
  for (int f = 0; f < m.n(2); f++) if (u[2][f]) { for (int e : m.F[f].e) u[1][e] = true; for (int v : m.F[f].v) u[0][v] = true; }
  VI nw[4]; for (int d = 0; d < 4; d++) { int k = 0; for (int i = 0; i < m.n(d); i++) nw[d].push_back(u[d][i] ? k++ : -1); }
  r.X.clear(); r.E.clear(); r.F.clear(); r.R.clear(); for (int d = 0; d < 4; d++) { r.gd[d].clear(); r.gi[d].clear(); for (int i = 0; i < m.n(d); i++) if (u[d][i] && i < (int)m.gd[d].size()) { r.gd[d].push_back(m.gd[d][i]); r.gi[d].push_back(m.gi[d][i]); } }
  for (int i = 0; i < m.n(0); i++) if (u[0][i]) r.X.push_back(m.X[i]);
  for (int i = 0; i < m.n(1); i++) if (u[1][i]) r.E.push_back({nw[0][m.E[i][0]], nw[0][m.E[i][1]]});
  for (int i = 0; i < m.n(2); i++) if (u[2][i]) { RFace f = m.F[i]; for (int& v : f.v) v = nw[0][v]; for (int& e : f.e) e = nw[1][e]; r.F.push_back(f); }
  for (int i = 0; i < m.n(3); i++) { RReg R = m.R[i]; for (int& f : R.f) f = nw[2][f]; for (int& v : R.sv) v = nw[0][v]; r.R.push_back(R); }
  r.derive(); r.upok = false; r.buildUp(); return r;
}

Match matchMesh(Case& c, const RMesh& m, Mesh_ptr mesh, const char* tag, MatchOpt o) {
  Match M; M.x = extract(c, mesh, M.b); RMesh& x = M.x;
  for (int d = 0; d < 4; d++) { if (d == 1 && !o.edges) continue; REQ(c, x.n(d) == m.n(d), "entity-count", "%s: %d entities of dimension %d, expected %d", tag, x.n(d), d, m.n(d)); M.to[d].assign(m.n(d), -1); }
  VI of[4]; for (int d = 0; d < 4; d++) of[d].assign(x.n(d), -1);
  auto set = [&](int d, int i, int k) { M.to[d][i] = k; of[d][k] = i; };
  // vertices
  VI p(m.n(0)); for (int i = 0; i < m.n(0); i++) p[i] = i; std::sort(p.begin(), p.end(), [&](int a, int b) { return m.X[a] < m.X[b]; });
  for (int k = 0; k < x.n(0); k++) {
    auto it = std::lower_bound(p.begin(), p.end(), x.X[k][0] - o.tol, [&](int a, double v) { return m.X[a][0] < v; }); int best = -1;
    for (; it != p.end() && m.X[*it][0] <= x.X[k][0] + o.tol; ++it) if (std::fabs(m.X[*it][1] - x.X[k][1]) <= o.tol && std::fabs(m.X[*it][2] - x.X[k][2]) <= o.tol) { best = *it; break; }
    REQ(c, best >= 0, "coordinate", "%s: no vertex of the original is at (%.17g, %.17g, %.17g)", tag, x.X[k][0], x.X[k][1], x.X[k][2]);
    REQ(c, M.to[0][best] < 0, "vertex-twice", "%s: vertex %d appears twice", tag, best); set(0, best, k);
  }
  if (o.edges) for (int k = 0; k < x.n(1); k++) { int i = m.edgeBetween(of[0][x.E[k][0]], of[0][x.E[k][1]]); REQ(c, i >= 0, "edge", "%s: edge between vertices %d and %d is not in the original", tag, of[0][x.E[k][0]], of[0][x.E[k][1]]); REQ(c, M.to[1][i] < 0, "edge-twice", "%s: edge %d appears twice", tag, i); set(1, i, k); }
  std::map<VI, int> fm; for (int i = 0; i < m.n(2); i++) fm[sorted(m.F[i].v)] = i;
  M.rev.assign(m.n(2), 0);
  for (int k = 0; k < x.n(2); k++) {
    VI v; for (int q : x.F[k].v) v.push_back(of[0][q]); auto it = fm.find(sorted(v)); REQ(c, it != fm.end(), "face", "%s: face on vertices %s is not in the original", tag, str(v).c_str()); int i = it->second;
    REQ(c, M.to[2][i] < 0, "face-twice", "%s: face %d appears twice", tag, i); set(2, i, k);
    bool same = sameCycle(v, m.F[i].v, false); REQ(c, same || sameCycle(v, m.F[i].v, true), "face-cycle", "%s: face %d has vertex order %s, original %s", tag, i, str(v).c_str(), str(m.F[i].v).c_str());
    M.rev[i] = !same; if (m.topo == 2 && o.orient2) REQ(c, same, "face-orientation", "%s: face %d is reversed: %s, original %s", tag, i, str(v).c_str(), str(m.F[i].v).c_str());
  }
  std::map<VI, int> rm; for (int i = 0; i < m.n(3); i++) rm[sorted(m.R[i].f)] = i;
  for (int k = 0; k < x.n(3); k++) {
    VI f; for (int q : x.R[k].f) f.push_back(of[2][q]); auto it = rm.find(sorted(f)); REQ(c, it != rm.end(), "region", "%s: region on faces %s is not in the original", tag, str(f).c_str()); int i = it->second;
    REQ(c, M.to[3][i] < 0, "region-twice", "%s: region %d appears twice", tag, i); set(3, i, k);
    for (size_t q = 0; q < f.size(); q++) { int j = std::find(m.R[i].f.begin(), m.R[i].f.end(), f[q]) - m.R[i].f.begin(); REQ(c, x.R[k].d[q] == (m.R[i].d[j] ^ M.rev[f[q]]), "region-face-direction", "%s: region %d uses its face %d in the wrong direction", tag, i, f[q]); }
  }
  if (o.adjacency) { checkDatabase(c, M.b, tag); checkAdjacency(c, M.b, x, tag, 1); }
  return M;
}

// Side tables of the Exodus II manual
static const int TETS[4][4] = {{0,1,3,-1},{1,2,3,-1},{0,3,2,-1},{0,2,1,-1}};
static const int WEDS[5][4] = {{0,1,4,3},{1,2,5,4},{0,3,5,2},{0,2,1,-1},{3,4,5,-1}};
static const int PYRS[5][4] = {{0,1,4,-1},{1,2,4,-1},{2,3,4,-1},{0,4,3,-1},{0,3,2,1}};
static const int HEXS[6][4] = {{0,1,5,4},{1,2,6,5},{2,3,7,6},{0,4,7,3},{0,3,2,1},{4,5,6,7}};
int exoSides(const RMesh& m, int el, bool poly) {
  if (m.topo == 2) return m.F[el].v.size(); if (poly) return m.R[el].f.size(); return STD_NF[m.R[el].type];
}
VI exoSide(const RMesh& m, int el, bool poly, int k) {
  if (m.topo == 2) { auto& v = m.F[el].v; return {v[k], v[(k + 1) % v.size()]}; }
  if (poly) return m.F[m.R[el].f[k]].v;
  const int* t = m.R[el].type == TET ? TETS[k] : m.R[el].type == PRISM ? WEDS[k] : m.R[el].type == PYRAMID ? PYRS[k] : HEXS[k];
  VI r; for (int q = 0; q < 4; q++) if (t[q] >= 0) r.push_back(m.R[el].sv[t[q]]); return r;
}
ExoFile genExo(Case& c, const RMesh& m, bool pyramids) {
  ExoFile f; f.node = c.s.perm(m.n(0));
  bool flat = m.topo == 2; if (flat) for (auto& x : m.X) if (x[2] != 0) flat = false;
  f.ndim = flat && c.s.chance(3, 4) ? 2 : 3;
  // group elements by (material, kind)
  std::map<std::pair<int, int>, VI> g; bool allpoly = c.s.chance(1, 5);
  VI ord = c.s.perm(m.n(m.topo));
  for (int e : ord) {
    int kind, mat = m.topo == 2 ? m.gi[2][e] : m.gi[3][e];
    if (m.topo == 2) kind = m.F[e].v.size() > 4 || allpoly ? 0 : m.F[e].v.size();
    else { kind = m.R[e].type; if (kind == PYRAMID && !pyramids) kind = POLYHED; if (m.R[e].sv.empty() || allpoly || (c.s.chance(1, 12))) kind = POLYHED; }
    g[{mat, kind}].push_back(e);
  }
  std::vector<std::pair<std::pair<int, int>, VI>> gs(g.begin(), g.end()); c.s.shuffle(gs);
  int id = 0;
  for (auto& x : gs) {
    ExoBlock b; b.id = id += 1 + c.s.draw(20); b.el = x.second; b.poly = false; int k = x.first.second; int v = c.s.draw(3);
    if (m.topo == 2) { if (k == 0) { b.type = v == 0 ? "nsided" : "NSIDED"; b.poly = true; } else if (k == 3) b.type = f.ndim == 3 && v == 2 ? "SHELL3" : v == 1 ? "tri3" : "TRIANGLE"; else b.type = f.ndim == 3 && v == 2 ? "SHELL4" : v == 1 ? "quad4" : "QUAD"; }
    else { static const char* T[3][5] = {{"NFACED", "TETRA", "PYRAMID", "WEDGE", "HEX"}, {"nfaced", "tet4", "pyramid5", "wedge6", "hex8"}, {"NFACED", "TET", "PYRAMID", "WEDGE", "HEX8"}}; int t = k == TET ? 1 : k == PYRAMID ? 2 : k == PRISM ? 3 : k == HEX ? 4 : 0; b.type = T[v][t]; b.poly = t == 0; }
    c.label("block-" + b.type); f.blocks.push_back(b);
  }
  return f;
}
void writeExo(Case& c, const RMesh& m, const ExoFile& f, const char* path) {
  int cw = sizeof(double), iw = sizeof(double); int ex = ex_create(path, EX_CLOBBER, &cw, &iw); REQ(c, ex >= 0, "harness", "cannot create %s", path);
  ex_init_params p; memset(&p, 0, sizeof p); strcpy(p.title, "generated"); p.num_dim = f.ndim; p.num_nodes = m.n(0); p.num_elem = m.n(m.topo); p.num_elem_blk = f.blocks.size();
  p.num_node_sets = f.nsets.size(); p.num_side_sets = f.ssets.size(); p.num_elem_sets = f.esets.size();
  VI nd(m.n(0)); for (size_t k = 0; k < f.node.size(); k++) nd[f.node[k]] = k + 1;
  std::map<int, int> fid; VI fl; if (m.topo == 3) for (auto& b : f.blocks) if (b.poly) for (int e : b.el) for (int q : m.R[e].f) if (!fid.count(q)) { fl.push_back(q); fid[q] = fl.size(); }
  p.num_face = fl.size(); p.num_face_blk = fl.empty() ? 0 : 1; ex_put_init_ext(ex, &p);
  std::vector<double> x, y, z; for (int v : f.node) { x.push_back(m.X[v][0]); y.push_back(m.X[v][1]); z.push_back(m.X[v][2]); }
  ex_put_coord(ex, x.data(), y.data(), z.data());
  if (!fl.empty()) {
    VI con, cnt; for (int q : fl) { VI v = m.F[q].v; int r = c.s.draw(v.size()); std::rotate(v.begin(), v.begin() + r, v.end()); if (c.s.chance(1, 3)) std::reverse(v.begin(), v.end()); for (int k : v) con.push_back(nd[k]); cnt.push_back(v.size()); }
    ex_put_block(ex, EX_FACE_BLOCK, 777, "nsided", fl.size(), con.size(), 0, 0, 0); ex_put_entity_count_per_polyhedra(ex, EX_FACE_BLOCK, 777, cnt.data()); ex_put_conn(ex, EX_FACE_BLOCK, 777, con.data(), NULL, NULL);
  }
  for (auto& b : f.blocks) {
    VI con, cnt;
    for (int e : b.el) { VI q; if (m.topo == 2) for (int v : m.F[e].v) q.push_back(nd[v]); else if (b.poly) for (int k : m.R[e].f) q.push_back(fid[k]); else for (int v : m.R[e].sv) q.push_back(nd[v]); con.insert(con.end(), q.begin(), q.end()); cnt.push_back(q.size()); }
    int err = 0;
    if (!b.poly) { err |= ex_put_block(ex, EX_ELEM_BLOCK, b.id, b.type.c_str(), b.el.size(), cnt[0], 0, 0, 0); err |= ex_put_conn(ex, EX_ELEM_BLOCK, b.id, con.data(), NULL, NULL); }
    else if (m.topo == 2) { err |= ex_put_block(ex, EX_ELEM_BLOCK, b.id, b.type.c_str(), b.el.size(), con.size(), 0, 0, 0); err |= ex_put_entity_count_per_polyhedra(ex, EX_ELEM_BLOCK, b.id, cnt.data()); err |= ex_put_conn(ex, EX_ELEM_BLOCK, b.id, con.data(), NULL, NULL); }
    else { err |= ex_put_block(ex, EX_ELEM_BLOCK, b.id, b.type.c_str(), b.el.size(), 0, 0, con.size(), 0); err |= ex_put_entity_count_per_polyhedra(ex, EX_ELEM_BLOCK, b.id, cnt.data()); err |= ex_put_conn(ex, EX_ELEM_BLOCK, b.id, NULL, NULL, con.data()); }
    REQ(c, err >= 0, "harness", "writing block failed");
  }
  for (auto& s : f.nsets) { VI l; for (int v : s.ents) l.push_back(nd[v]); ex_put_set_param(ex, EX_NODE_SET, s.id, l.size(), 0); ex_put_set(ex, EX_NODE_SET, s.id, l.data(), NULL); if (!s.name.empty()) ex_put_name(ex, EX_NODE_SET, s.id, s.name.c_str()); }
  VI el = f.elems(), pos(m.n(m.topo)); for (size_t i = 0; i < el.size(); i++) pos[el[i]] = i + 1;
  for (auto& s : f.ssets) { VI a, b; for (auto& q : s.sides) { a.push_back(pos[q.first]); b.push_back(q.second + 1); } ex_put_set_param(ex, EX_SIDE_SET, s.id, a.size(), 0); ex_put_set(ex, EX_SIDE_SET, s.id, a.data(), b.data()); if (!s.name.empty()) ex_put_name(ex, EX_SIDE_SET, s.id, s.name.c_str()); }
  for (auto& s : f.esets) { VI a; for (int q : s.ents) a.push_back(pos[q]); ex_put_set_param(ex, EX_ELEM_SET, s.id, a.size(), 0); ex_put_set(ex, EX_ELEM_SET, s.id, a.data(), NULL); }
  if (!f.nodemap.empty()) ex_put_id_map(ex, EX_NODE_MAP, (void*)f.nodemap.data());
  if (!f.elemmap.empty()) ex_put_id_map(ex, EX_ELEM_MAP, (void*)f.elemmap.data());
  if (!f.nvars.empty() || !f.evars.empty()) { double t = 0; ex_put_time(ex, 1, &t); }
  if (!f.nvars.empty()) { ex_put_variable_param(ex, EX_NODAL, f.nvars.size()); std::vector<char*> nm; for (auto& v : f.nvars) nm.push_back((char*)v.name.c_str()); ex_put_variable_names(ex, EX_NODAL, nm.size(), nm.data()); for (size_t k = 0; k < f.nvars.size(); k++) ex_put_var(ex, 1, EX_NODAL, k + 1, 1, m.n(0), (void*)f.nvars[k].val.data()); }
  if (!f.evars.empty()) { ex_put_variable_param(ex, EX_ELEM_BLOCK, f.evars.size()); std::vector<char*> nm; for (auto& v : f.evars) nm.push_back((char*)v.name.c_str()); ex_put_variable_names(ex, EX_ELEM_BLOCK, nm.size(), nm.data());
    for (size_t k = 0; k < f.evars.size(); k++) { int off = 0; for (auto& b : f.blocks) { ex_put_var(ex, 1, EX_ELEM_BLOCK, k + 1, b.id, b.el.size(), (void*)(f.evars[k].val.data() + off)); off += b.el.size(); } } }
  ex_close(ex);
}
