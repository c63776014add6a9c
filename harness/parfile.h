#pragma once
#include "par.h"
#include <unistd.h>
extern "C" void MESH_Reset_Cached_MaxIDs(Mesh_ptr);
// Parallel files: a distributed mesh written to one Exodus file per rank and read back, and a serial Exodus file read in parallel.
static bool starShaped(const RMesh& m, int r) {
  VI v = m.regVerts(r); V3 cen = {0, 0, 0}; for (int k : v) cen = cen + m.X[k]; cen = (1.0 / v.size()) * cen;
  for (size_t i = 0; i < m.R[r].f.size(); i++) { int f = m.R[r].f[i]; V3 fc = {0, 0, 0}; for (int k : m.F[f].v) fc = fc + m.X[k]; fc = (1.0 / m.F[f].v.size()) * fc; V3 n = m.faceVecArea(f); double s = dot(n, fc - cen) * (m.R[r].d[i] ? 1 : -1); if (s <= 1e-6 * len(n) * len(fc - cen)) return false; }
  return true;
}
static void flatten(RMesh& m) { if (m.topo != 2) return; bool flat = true; for (auto& x : m.X) if (x[2] != m.X[0][2]) flat = false; if (flat) for (auto& x : m.X) x[2] = 0; }  // planar files hold no z
// on a rank that read its part: fields and sets are right on everything its own elements use, and never wrong elsewhere
static void localData(Case& c, const DWorld& W, const PMap& P, Mesh_ptr my, int rank, const std::vector<char> own[4], const char* tag, bool wholeSides = true) {   // wholeSides: a side of a side set need not be there if one of its elements is on another rank
  for (auto& a : W.atts) { MAttrib_ptr q = nullptr, z; int idx = 0; char nm[256]; while ((z = MESH_Next_Attrib(my, &idx))) if ((int)MAttrib_Get_EntDim(z) == a.dim && a.name == MAttrib_Get_Name(z, nm)) q = z; REQ(c, q, "field-missing", "%s: rank %d has no field %s on entities of dimension %d", tag, rank, a.name.c_str(), a.dim); REQ(c, MAttrib_Get_NumComps(q) == a.nc, "field-components", "%s: field %s has %d components, expected %d", tag, a.name.c_str(), MAttrib_Get_NumComps(q), a.nc);
    for (int i = 0; i < P.x.n(a.dim); i++) { int t = P.to[a.dim][i]; if (!own[a.dim][t]) continue; auto it = a.val.find({a.dim, t}); std::vector<double> w = it == a.val.end() ? std::vector<double>(a.nc, 0.0) : it->second, v = attVal(P.b.ent[a.dim][i], q, MAttrib_Get_Type(q), a.nc); REQ(c, v == w, "field-value", "%s: rank %d: %s of entity %d/%d starts with %.17g, expected %.17g", tag, rank, a.name.c_str(), a.dim, t, v[0], w[0]); } }
  for (auto& s : W.sets) { std::set<std::pair<int, int>> in(s.in.begin(), s.in.end()), got; MSet_ptr q = MESH_MSetByName(my, s.name.c_str()); bool need = false; for (auto& x : s.in) need |= own[x.first][x.second] && (wholeSides || x.first != W.m.topo - 1); if (!need && !q) continue; REQ(c, q, "set-missing", "%s: rank %d has no set %s", tag, rank, s.name.c_str()); REQ(c, (int)MSet_EntDim(q) == s.dim, "set-type", "%s: rank %d: set %s holds entities of type %d, expected %d", tag, rank, s.name.c_str(), (int)MSet_EntDim(q), s.dim); int idx = 0; void* e;
    while ((e = MSet_Next_Entry(q, &idx))) { int i = P.b.find(s.dim, e); REQ(c, i >= 0, "set-member", "%s: rank %d: set %s holds something that is not in the mesh", tag, rank, s.name.c_str()); int t = P.to[s.dim][i]; REQ(c, in.count({s.dim, t}), "set-member", "%s: rank %d: entity %d/%d is in set %s", tag, rank, s.dim, t, s.name.c_str()); REQ(c, got.insert({s.dim, t}).second, "set-member", "%s: rank %d: set %s has entity %d/%d twice", tag, rank, s.name.c_str(), s.dim, t); }
    for (auto& x : s.in) if (own[x.first][x.second]) { bool need = true; if (!wholeSides && x.first == W.m.topo - 1) for (int q : W.m.up(x.first, x.second, W.m.topo)) need &= W.part[q] == rank; if (need) REQ(c, got.count(x), "set-member", "%s: rank %d: set %s lacks entity %d/%d", tag, rank, s.name.c_str(), x.first, x.second); } }
  int D = W.m.topo, idx = 0; std::map<int, VI> mat; for (int i = 0; i < P.x.n(D); i++) { int t = P.to[D][i]; if (!own[D][t]) continue; void* e = P.b.ent[D][i]; REQ(c, MEnt_GEntDim(e) == D && MEnt_GEntID(e) == W.m.gi[D][t], "block-classification", "%s: rank %d: element %d is classified on (%d,%d), its block is %d", tag, rank, t, MEnt_GEntDim(e), MEnt_GEntID(e), W.m.gi[D][t]); mat[W.m.gi[D][t]].push_back(t); MAttrib_ptr a = MESH_AttribByName(my, "elemblock"); REQ(c, a && MEnt_Get_IntAttVal(e, a) == W.m.gi[D][t], "block-attribute", "%s: rank %d: elemblock of element %d is not %d", tag, rank, t, W.m.gi[D][t]); }
  for (auto& x : mat) { MSet_ptr q = MESH_MSetByName(my, pbt::format("matset_%d", x.first).c_str()); REQ(c, q, "block-set", "%s: rank %d has no matset_%d", tag, rank, x.first); VI in; idx = 0; void* e; while ((e = MSet_Next_Entry(q, &idx))) { int t = P.to[D][P.b.find(D, e)]; if (own[D][t]) in.push_back(t); else REQ(c, W.m.gi[D][t] == x.first, "block-set", "%s: rank %d: matset_%d holds element %d", tag, rank, x.first, t); } REQ(c, sorted(in) == sorted(x.second), "block-set", "%s: rank %d: matset_%d is %s, expected %s", tag, rank, x.first, str(in).c_str(), str(x.second).c_str()); }
}
static void checkOwners(Case& c, DWorld W, std::vector<std::string>& out, bool classifn, const std::map<int, VI>& gid, const char* tag) {   // W by value: no fields or sets
  W.atts.clear(); W.sets.clear(); std::vector<DRank> R; for (auto& s : out) R.push_back(unpackRank(W, s, false, false)); DistOpt d; d.sets = d.atts = d.edgeDir = d.gidContig = d.adj = d.pb = false; d.classifn = classifn; d.ptRing0 = true; auto M = checkDist(c, W, R, d);
  for (auto& g : gid) for (size_t r = 0; r < R.size(); r++) for (size_t i = 0; i < R[r].e[g.first].size(); i++) { int t = M[r].to[g.first][i]; REQ(c, R[r].e[g.first][i].gid == g.second[t], "file-gid", "%s: rank %zu: entity %d/%d has global ID %d, the file says %d", tag, r, g.first, t, R[r].e[g.first][i].gid, g.second[t]); }
}
// weaving files together finds shared vertices among those on the boundary of a rank's elements: is there a shared one elsewhere?
static bool hiddenContact(const DWorld& W, int np) {
  const RMesh& m = W.m; int T = m.topo; std::vector<std::set<int>> users(m.n(0)); for (int i = 0; i < m.n(T); i++) for (int v : m.vertsOf(T, i)) users[v].insert(W.part[i]);
  for (int r = 0; r < np; r++) { std::vector<char> bd(m.n(0), 0); for (int s = 0; s < m.n(T - 1); s++) { int n = 0; for (int q : m.up(T - 1, s, T)) n += W.part[q] == r; if (n == 1) for (int v : m.vertsOf(T - 1, s)) bd[v] = 1; } for (int v = 0; v < m.n(0); v++) if (users[v].count(r) && users[v].size() > 1 && !bd[v]) return true; }
  return false;
}
// a tool run on every rank: reads the first file, writes the second
struct Tool { std::function<void(const DWorld&, const std::string&, const std::string&)> run; std::function<void(Case&, DWorld&, const ExoFile*)> prep; bool reweave = true; };
static void writeRead(Case& c, const Tool* tool = nullptr) {
  int np = 1 + c.s.draw(c.s.chance(1, 4) ? 8 : 4); if (c.s.chance(1, 12)) np = 9 + c.s.draw(3); PWorld Q; for (int k = 0;; k++) { Q = PWorld(); parWorld(c, Q, np, 0, {1, 1, 0, 2}); bool ok = true; const RMesh& m = Q.W.m; if (m.topo == 3) for (int r = 0; r < m.n(3); r++) ok &= starShaped(m, r); if (m.topo == 2) { double z = m.X[0][2]; bool flat = true; for (auto& x : m.X) flat &= x[2] == z; ok &= !flat || z == 0; } if (ok) { VI cnt(np, 0); for (int q : Q.W.part) cnt[q]++; for (int q : cnt) ok &= q > 0; } if (ok) break; if (k > 20) { c.label("skip-shape"); return; } }
  DWorld& W = Q.W; const RMesh& m = W.m; int D = m.topo;
  for (int k = c.s.draw(4); k > 0; k--) { DAtt a; MAttType ts[] = {DOUBLE, VECTOR, TENSOR}; a.t = ts[c.s.draw(3)]; a.dim = c.s.coin() ? 0 : D; a.nc = a.t == DOUBLE ? 1 : 1 + c.s.draw(6); a.name = pbt::format("f%d", k); bool all = c.s.coin(); for (int i = 0; i < m.n(a.dim); i++) if (all || c.s.coin()) { std::vector<double> v; for (int q = 0; q < a.nc; q++) v.push_back(c.s.real(-9, 9)); a.val[{a.dim, i}] = v; } W.atts.push_back(a); c.label(a.dim ? "element-field" : "node-field"); }
  for (int k = c.s.draw(5); k > 0; k--) { static const char* pre[] = {"nodeset_", "sideset_", "elemset_"}; int w = c.s.draw(3); DSet s; s.dim = w == 0 ? 0 : w == 1 ? D - 1 : D; s.name = pre[w] + std::to_string(20000 + 100 * k + (int)c.s.draw(99)); int p = 1 + c.s.draw(4); for (int i = 0; i < m.n(s.dim); i++) if (c.s.chance(p, 5)) s.in.push_back({s.dim, i}); if (s.in.empty()) s.in.push_back({s.dim, 0}); W.sets.push_back(s); c.label(pre[w]); }
  bool everywhere = c.s.coin(), weave = np == 1 || (c.s.chance(2, 3) && !hiddenContact(W, np)), renum = weave && c.s.coin(), par = (np > 1 || !tool) && c.s.coin(); int ring = c.s.chance(1, 5) ? 0 : 1, geo = c.s.chance(1, 4); int eopts[3] = {0, geo, 1}; bool defopt = !geo && c.s.coin(); if (geo) c.label("geometry-sets"); c.label(weave ? "woven-on-import" : "pieces-on-import"); if (renum) c.label("renumber"); if (everywhere) c.label("sets-on-all-ranks");
  shim::Opt so = shim::draw(c); c.note("%s np %d ring %d %s parts %s", describe(m).c_str(), np, W.ring, Q.weave ? "woven" : "distributed", str(W.part).c_str()); std::string name = par ? "t.par" : "t.exo"; std::vector<std::string> out;
  shim::run(c, np, so, [&](int rank, std::string& s) { Mesh_ptr my = parMesh(c, Q, rank); PMap P = parMap(c, W, my);
    for (auto& a : W.atts) { MAttrib_ptr q = attNew(my, a); for (auto& x : a.val) { int i = P.from[x.first.first][x.first.second]; if (i >= 0) attSet(P.b.ent[a.dim][i], q, a.t, x.second); } }
    for (auto& t : W.sets) { MSet_ptr q = nullptr; if (everywhere) q = MSet_New(my, t.name.c_str(), (MType)t.dim); for (auto& x : t.in) { int i = P.from[x.first][x.second]; if (i < 0) continue; if (!q) q = MSet_New(my, t.name.c_str(), (MType)t.dim); MSet_Add(q, P.b.ent[x.first][i]); } }
    Pack O{s}; for (int d : {0, D}) for (int i = 0; i < P.x.n(d); i++) { O.i(d); O.i(P.to[d][i]); O.i(MEnt_GlobalID(P.b.ent[d][i])); }
    int na = MESH_Num_Attribs(my), ns = MESH_Num_MSets(my);
    REQ(c, MESH_ExportToFile(my, name.c_str(), "exodusii", 0, NULL, defopt ? NULL : eopts, MPI_COMM_WORLD) == 1, "return", "export failed"); REQ(c, MESH_Num_Attribs(my) == na, "source-fields", "export left %d attributes on the mesh", MESH_Num_Attribs(my) - na); REQ(c, MESH_Num_MSets(my) == ns, "source-sets", "export left %d sets on the mesh", MESH_Num_MSets(my) - ns); checkAdjacency(c, P.b, P.x, "mesh of a rank after export", 0); MESH_Delete(my); }, out);
  std::map<int, VI> gid; for (int d : {0, D}) gid[d].assign(m.n(d), 0); for (auto& s : out) { Unpack U{s}; while (U.p < s.size()) { int d = U.i(), q = U.i(), g = U.i(); gid[d][q] = g; } }
  // what the files must hold: geometry sets are made from the classification
  if (geo) { std::map<std::string, DSet> g; for (int i = 0; i < m.n(D - 1); i++) if (D == 3 ? m.gd[2][i] != 3 : m.gd[1][i] == 1) { auto& w = g[pbt::format("sideset_%d", m.gi[D - 1][i])]; w.dim = D - 1; w.in.push_back({D - 1, i}); } for (int i = 0; i < m.n(0); i++) if (m.gd[0][i] < 2) { auto& w = g[pbt::format("nodeset_%d", m.gd[0][i] * 10000 + m.gi[0][i])]; w.dim = 0; w.in.push_back({0, i}); } for (auto& x : g) { x.second.name = x.first; bool zero = x.first == "sideset_0" || x.first == "nodeset_0"; if (!zero) W.sets.push_back(x.second); } }
  for (int r = 0; r < np && np > 1; r++) { std::string f = pbt::format("t.%s.%d.%0*d", par ? "par" : "exo", np, np > 9 ? 2 : 1, r); REQ(c, !access(f.c_str(), R_OK), "file-name", "rank %d wrote no file %s", r, f.c_str()); if (np > 9 && r < 10 && !renum && !tool) { rename(f.c_str(), pbt::format("t.%s.%d.%d", par ? "par" : "exo", np, r).c_str()); } }
  RepType rep = c.s.coin() ? F1 : F4; bool viaExo = !par || (np > 1 && c.s.coin()); if (tool) viaExo = !par; std::string from = viaExo ? "t.exo" : "t.par", to = from; if (tool) to = c.s.coin() ? "u.exo" : "u.par"; if (tool) c.label("tool-on-pieces"); int opts[3] = {weave, ring, renum}; shim::Opt so2 = shim::draw(c); W.ring = weave && np > 1 ? ring : 0;
  shim::run(c, np, so2, [&](int rank, std::string& s) { if (tool) tool->run(W, from, to); Mesh_ptr my = MESH_New(rep); REQ(c, MESH_ImportFromFile(my, to.c_str(), "nemesisi", opts, MPI_COMM_WORLD) == 1, "return", "import failed");
    std::vector<char> in[4], own[4]; expectHere(W, rank, W.ring, in, own); PMap P = parMap(c, W, my); localData(c, W, P, my, rank, own, "round trip");
    if (!weave) { for (int d = 0; d < 4; d++) for (int t = 0; t < m.n(d); t++) REQ(c, (P.from[d][t] >= 0) == (bool)own[d][t], "piece-content", "rank %d %s entity %d/%d", rank, own[d][t] ? "lacks" : "should not hold", d, t); for (int d : {0, D}) for (int i = 0; i < P.x.n(d); i++) REQ(c, (int)MEnt_GlobalID(P.b.ent[d][i]) == gid[d][P.to[d][i]], "file-gid", "rank %d: entity %d/%d has global ID %d, was written with %d", rank, d, P.to[d][i], (int)MEnt_GlobalID(P.b.ent[d][i]), gid[d][P.to[d][i]]); }
    else if (np > 1) { DWorld W2 = W; W2.atts.clear(); W2.sets.clear(); packRank(c, W2, my, false, false, s); } MESH_Delete(my); }, out);
  if (weave && np > 1) checkOwners(c, W, out, false, renum ? std::map<int, VI>() : gid, "round trip"); if (np > 1) c.nontrivial();
}
static const int* toolOpts = nullptr;
static RMesh twoCubes(Case& c) {   // as polyhedra
  Soup s; s.topo = 3; for (int k = 0; k < 2; k++) for (int j = 0; j < 2; j++) for (int i = 0; i < 3; i++) s.X.push_back({1.0 * i, 1.0 * j, 1.0 * k}); auto v = [](int i, int j, int k) { return i + 3 * j + 6 * k; };
  for (int i = 0; i < 2; i++) { Cell q; q.type = POLYHED; int a[8] = {v(i, 0, 0), v(i + 1, 0, 0), v(i + 1, 1, 0), v(i, 1, 0), v(i, 0, 1), v(i + 1, 0, 1), v(i + 1, 1, 1), v(i, 1, 1)}; for (auto& f : {VI{0, 3, 2, 1}, VI{4, 5, 6, 7}, VI{0, 1, 5, 4}, VI{1, 2, 6, 5}, VI{2, 3, 7, 6}, VI{3, 0, 4, 7}}) { VI g; for (int x : f) g.push_back(a[x]); q.fv.push_back(g); } q.v.assign(a, a + 8); s.C.push_back(q); }
  return assemble(c, s, GenOpt());
}
static void partial(Case& c, bool known = false, const Tool* tool = nullptr) {   // known: the recorded finding, two polyhedra
  int np = 1 + c.s.draw(c.s.chance(1, 4) ? 8 : 4); GenOpt o; o.maxcells = 4 + c.size / 3; o.materials = true; o.surface3d = c.s.coin(); o.nonmanifold = c.s.chance(1, 4); RMesh m0; for (int k = 0;; k++) { m0 = genMesh(c, o); flatten(m0); if (m0.n(m0.topo) >= np && distinctPoints(m0, 0) && distinctShapes(m0)) break; if (k > 20) { c.label("skip-small"); return; } }
  if (known) { np = 2; m0 = twoCubes(c); }
  int T = m0.topo, method = c.s.chance(2, 3); ExoFile f = genExo(c, m0, known || !method); if (T == 3) for (auto& b : f.blocks) if (b.poly) { if (known) method = 1; else if (method) { method = 0; c.label("polyhedra-not-partial"); } for (int r : b.el) if (!starShaped(m0, r)) { c.label("skip-not-star-shaped"); return; } }
  VI el = f.elems(), poly(m0.n(T)); for (auto& b : f.blocks) for (int e : b.el) poly[e] = b.poly; bool sides = T == 3 || f.ndim == 2;
  for (int k = c.s.draw(3); k > 0; k--) { ExoSet s; s.id = 10 * k + c.s.draw(9); for (int i = 0; i < m0.n(0); i++) if (c.s.coin()) s.ents.push_back(i); c.s.shuffle(s.ents); if (s.ents.size()) { f.nsets.push_back(s); c.label("nodeset_"); } }
  for (int k = c.s.draw(3); k > 0; k--) { ExoSet s; s.id = 10 * k + c.s.draw(9); for (int i = 0; i < m0.n(T); i++) if (c.s.coin()) s.ents.push_back(i); c.s.shuffle(s.ents); if (s.ents.size()) { f.esets.push_back(s); c.label("elemset_"); } }
  if (sides) for (int k = c.s.draw(3); k > 0; k--) { ExoSet s; s.id = 10 * k + c.s.draw(9); if (!tool && c.s.coin()) s.name = pbt::format("wall %d", k); std::set<VI> seen; for (int i : c.s.perm(m0.n(T))) for (int q = 0; q < exoSides(m0, i, poly[i]); q++) if (c.s.coin() && seen.insert(sorted(exoSide(m0, i, poly[i], q))).second) s.sides.push_back({i, q}); if (s.sides.size()) { f.ssets.push_back(s); c.label("sideset_"); } }
  if (!tool && c.s.coin()) { f.nodemap = c.s.perm(m0.n(0)); for (int& x : f.nodemap) x = 3 * x + 1; c.label("node-map"); } if (!tool && c.s.coin()) { f.elemmap = c.s.perm(m0.n(T)); for (int& x : f.elemmap) x = 2 * x + 5; c.label("element-map"); }
  for (int w = 0; w < 2; w++) for (int k = c.s.draw(4); k > 0; k--) { int nc = c.s.coin() ? 1 : 1 + c.s.draw(6); for (int q = 0; q < nc; q++) { ExoVar v; v.name = pbt::format("%c%d", w ? 'e' : 'n', k) + (nc > 1 ? pbt::format("_veccomp%d", q) : ""); for (int i = 0; i < m0.n(w ? T : 0); i++) v.val.push_back(c.s.real(-5, 5)); (w ? f.evars : f.nvars).push_back(v); } c.label(w ? "element-field" : "node-field"); }
  writeExo(c, m0, f, "x.exo"); RepType rep = c.s.coin() ? F1 : F4;
  // the mesh as one rank reads it
  Mesh_ptr sm = MESH_New(rep); REQ(c, MESH_ImportFromFile(sm, "x.exo", "exodusii", NULL, NULL) == 1, "return", "serial import failed"); DWorld W; BM b; W.m = extract(c, sm, b); W.m.topo = T; W.m.buildUp(); RMesh& m = W.m; W.rep = rep; genPart(c, W, np); rawPart = W.part; C = &c; WW = &W; BB = &b; W.ring = method ? 1 : (int)c.s.pick(VI{1, 1, 0, 2});
  std::map<int, VI> gid; MAttrib_ptr nm = MESH_AttribByName(sm, "node_map"), em = MESH_AttribByName(sm, "elem_map"); for (int d : {0, T}) for (int i = 0; i < m.n(d); i++) gid[d].push_back(MEnt_Get_IntAttVal(b.ent[d][i], d ? em : nm));
  { int idx = 0; MAttrib_ptr a; char s[256]; while ((a = MESH_Next_Attrib(sm, &idx))) { DAtt q; q.name = MAttrib_Get_Name(a, s); q.t = MAttrib_Get_Type(a); q.dim = (int)MAttrib_Get_EntDim(a); q.nc = MAttrib_Get_NumComps(a); if (q.dim > 3 || (q.dim && q.dim != T)) continue; for (int i = 0; i < m.n(q.dim); i++) q.val[{q.dim, i}] = attVal(b.ent[q.dim][i], a, q.t, q.nc); W.atts.push_back(q); }
    idx = 0; MSet_ptr t; while ((t = MESH_Next_MSet(sm, &idx))) { DSet q; q.name = MSet_Name(t, s); if (q.name == "faceset") continue; q.dim = (int)MSet_EntDim(t); int i2 = 0; void* e; while ((e = MSet_Next_Entry(t, &i2))) q.in.push_back({(int)MEnt_Dim(e), b.find(MEnt_Dim(e), e)}); W.sets.push_back(q); } }
  if (method) for (int i = 0; i < m.n(T - 1); i++) if (m.up(T - 1, i, T).size() > 2) { method = 0; W.ring = 1; c.label("non-manifold-not-partial"); break; }   // the dual graph read from the file has two elements per side; the reader stops otherwise
  bool hidden = (method || tool) && hiddenContact(W, np), weave = !hidden && c.s.coin();
  if (hidden && method) { method = 0; c.label("hidden-contact"); W.ring = 1; } int opts[4] = {1, method, W.ring, method ? 0 : (int)c.s.pick(T == 2 ? VI{0, 0, 1, 2} : VI{0, 0, 1})}; bool comm = tool || !c.s.chance(1, 20); std::string to = c.s.coin() ? "u.exo" : "u.par"; c.label(comm ? method ? "partial-read" : "read-and-distribute" : "no-communicator"); c.label(pbt::format("ring-%d", W.ring)); if (T == 2) c.label(f.ndim == 2 ? "plane" : "surface3d"); shim::Opt so = shim::draw(c); std::vector<std::string> out; c.note("%s np %d method %d ring %d parts %s", describe(m).c_str(), np, method, W.ring, str(W.part).c_str());
  bool nodist = np > 1 && !tool && c.s.chance(1, 20); if (nodist) { opts[0] = 0; c.label("not-distributed"); }
  if (tool) { W.ring = weave ? 1 : 0; c.label("tool-on-serial-file"); c.label(weave ? "woven" : "pieces"); toolOpts = opts; if (tool->prep) tool->prep(c, W, &f); }
  if (tool) {
    shim::run(c, np, so, [&](int rank, std::string& s) { tool->run(W, "x.exo", to); if (np == 1) { Mesh_ptr my = MESH_New(rep); REQ(c, MESH_ImportFromFile(my, to.c_str(), "exodusii", NULL, NULL) == 1, "return", "reading the converted file failed"); DWorld W1 = W; std::vector<char> in[4], own[4]; expectHere(W1, 0, 0, in, own); PMap P = parMap(c, W1, my); localData(c, W1, P, my, rank, own, "converted"); return; }
      Mesh_ptr my = MESH_New(rep); int o3[3] = {weave, 1, 0}; REQ(c, MESH_ImportFromFile(my, to.c_str(), "nemesisi", o3, MPI_COMM_WORLD) == 1, "return", "reading the partitioned file failed"); std::vector<char> in[4], own[4]; expectHere(W, rank, W.ring, in, own); PMap P = parMap(c, W, my); localData(c, W, P, my, rank, own, "partitioned", !method);
      if (!weave) { for (int d = 0; d < 4; d++) for (int t = 0; t < m.n(d); t++) REQ(c, (P.from[d][t] >= 0) == (bool)own[d][t], "piece-content", "rank %d %s entity %d/%d", rank, own[d][t] ? "lacks" : "should not hold", d, t); }
      else { DWorld W2 = W; W2.atts.clear(); W2.sets.clear(); packRank(c, W2, my, false, false, s); } MESH_Delete(my); }, out);
    if (np > 1 && weave) checkOwners(c, W, out, false, method ? gid : std::map<int, VI>(), "partitioned"); if (np > 1) c.nontrivial(); return; }
  shim::run(c, np, so, [&](int rank, std::string& s) { Mesh_ptr my = MESH_New(rep); REQ(c, MESH_ImportFromFile(my, "x.exo", "exodusii", opts, comm ? MPI_COMM_WORLD : NULL) == 1, "return", "import failed on rank %d", rank);
    if (nodist || !comm || np == 1) { if (rank && comm) { REQ(c, !MESH_Num_Vertices(my), "not-distributed", "rank %d holds a mesh although it was not to be distributed", rank); return; } DWorld W1 = W; W1.part.assign(m.n(T), 0); std::vector<char> in[4], own[4]; expectHere(W1, 0, 0, in, own); PMap P = parMap(c, W1, my); for (int d = 0; d < 4; d++) REQ(c, P.x.n(d) == m.n(d), "not-distributed", "read %d entities of dimension %d, expected %d", P.x.n(d), d, m.n(d)); localData(c, W1, P, my, rank, own, "serial read"); return; }
    std::vector<char> in[4], own[4]; expectHere(W, rank, W.ring, in, own); PMap P = parMap(c, W, my); for (int d = 0; d < 4; d++) if (!method) own[d] = in[d]; localData(c, W, P, my, rank, own, method ? "partial read" : "read and distribute", !method); DWorld W2 = W; W2.atts.clear(); W2.sets.clear(); packRank(c, W2, my, false, false, s); MESH_Delete(my); }, out);
  if (!nodist && comm && np > 1) { checkOwners(c, W, out, !method, method ? gid : std::map<int, VI>(), method ? "partial read" : "read and distribute"); c.nontrivial(); }
}
