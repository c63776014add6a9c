// A mesh spread over ranks: what each rank holds, packed so that all ranks can be compared with the model at once.
#pragma once
#include "rmesh.h"
#include "MSTK_private.h"
#include <cstring>
struct DAtt { std::string name; MAttType t; int dim, nc; std::map<std::pair<int, int>, std::vector<double>> val; };
struct DSet { std::string name; int dim; std::vector<std::pair<int, int>> in; };
struct DWorld { RMesh m; int np = 1, ring = 1; VI part; std::vector<DAtt> atts; std::vector<DSet> sets; RepType rep = F1; bool own[4] = {}; };
struct DEnt { int gid = 0, master = 0, pt = 0, pb = 0, gd = 0, gi = 0, lid = 0; double x[3] = {}; VI sub, dir; std::vector<std::vector<double>> att; };
struct DRank { int prtn = 0, nprtn = 0; std::vector<DEnt> e[4]; VI gh[4], ov[4], hasg[4], haso[4], nrecv[4]; std::vector<VI> sets; };
struct Pack { std::string& s; void i(int v) { s.append((char*)&v, 4); } void d(double v) { s.append((char*)&v, 8); } void v(const VI& x) { i(x.size()); for (int k : x) i(k); } };
struct Unpack { const std::string& s; size_t p = 0; int i() { int v; memcpy(&v, s.data() + p, 4); p += 4; return v; } double d() { double v; memcpy(&v, s.data() + p, 8); p += 8; return v; } VI v() { VI x(i()); for (int& k : x) k = i(); return x; } };
inline void* nextEnt(Mesh_ptr m, int d, int* idx) { return d == 0 ? MESH_Next_Vertex(m, idx) : d == 1 ? MESH_Next_Edge(m, idx) : d == 2 ? MESH_Next_Face(m, idx) : MESH_Next_Region(m, idx); }
inline int onParBoundary(int d, void* e) { return d == 0 ? MV_OnParBoundary(e) : d == 1 ? ME_OnParBoundary(e) : d == 2 ? MF_OnParBoundary(e) : 0; }
inline std::vector<double> attVal(void* e, MAttrib_ptr a, MAttType t, int nc) {
  int iv = 0; double rv = 0; void* pv = NULL; MEnt_Get_AttVal(e, a, &iv, &rv, &pv);
  if (t == INT) return {(double)iv}; if (t == DOUBLE) return {rv}; std::vector<double> r(nc, 0.0); if (pv) for (int k = 0; k < nc; k++) r[k] = ((double*)pv)[k]; return r;
}
inline void attSet(void* e, MAttrib_ptr a, MAttType t, std::vector<double> v) {
  if (t == INT) MEnt_Set_IntAttVal(e, a, (int)v[0]); else if (t == DOUBLE) MEnt_Set_DblAttVal(e, a, v[0]); else if (t == VECTOR) MEnt_Set_VecAttVal(e, a, v.data()); else MEnt_Set_TnsrAttVal(e, a, v.data());
}
inline MAttrib_ptr attNew(Mesh_ptr m, const DAtt& a) { return a.t == VECTOR || a.t == TENSOR ? MAttrib_New(m, a.name.c_str(), a.t, (MType)a.dim, a.nc) : MAttrib_New(m, a.name.c_str(), a.t, (MType)a.dim); }
inline bool attOn(int adim, int d) { return adim == d || adim == MALLTYPE; }

// what this rank holds; also checks the local mesh by itself
inline void packRank(Case& c, const DWorld& W, Mesh_ptr m, bool atts, bool sets, std::string& out) {
  Pack P{out}; BM b; RMesh x = extract(c, m, b); x.buildUp(); checkAdjacency(c, b, x, "mesh of a rank", 1); checkDatabase(c, b, "mesh of a rank");
  P.i(MESH_Prtn(m)); P.i(W.np); std::vector<MAttrib_ptr> as;
  if (atts) for (auto& a : W.atts) { MAttrib_ptr q = MESH_AttribByName(m, a.name.c_str()); REQ(c, q, "attribute-missing", "attribute %s is not on the mesh of a rank", a.name.c_str()); REQ(c, MAttrib_Get_Type(q) == a.t && (int)MAttrib_Get_EntDim(q) == a.dim && MAttrib_Get_NumComps(q) == a.nc, "attribute-def", "definition of %s differs on a rank", a.name.c_str()); as.push_back(q); }
  for (int d = 0; d < 4; d++) { P.i(x.n(d));
    for (int i = 0; i < x.n(d); i++) { void* e = b.ent[d][i]; P.i(MEnt_GlobalID(e)); P.i(MEnt_MasterParID(e)); P.i(MEnt_PType(e)); P.i(onParBoundary(d, e)); P.i(MEnt_GEntDim(e)); P.i(MEnt_GEntID(e)); P.i(MEnt_ID(e));
      if (d == 0) for (int k = 0; k < 3; k++) P.d(x.X[i][k]); else if (d == 1) P.v({x.E[i][0], x.E[i][1]}); else if (d == 2) P.v(x.F[i].v); else { P.v(x.R[i].f); P.v(x.R[i].d); }
      for (size_t k = 0; k < as.size(); k++) if (attOn(W.atts[k].dim, d)) for (double q : attVal(e, as[k], W.atts[k].t, W.atts[k].nc)) P.d(q); }
    VI g, o, hg, ho, nr; int idx = 0; void* e;
    while ((e = d == 0 ? MESH_Next_GhostVertex(m, &idx) : d == 1 ? MESH_Next_GhostEdge(m, &idx) : d == 2 ? MESH_Next_GhostFace(m, &idx) : MESH_Next_GhostRegion(m, &idx))) g.push_back(b.find(d, e)); idx = 0;
    while ((e = d == 0 ? MESH_Next_OverlapVertex(m, &idx) : d == 1 ? MESH_Next_OverlapEdge(m, &idx) : d == 2 ? MESH_Next_OverlapFace(m, &idx) : MESH_Next_OverlapRegion(m, &idx))) o.push_back(b.find(d, e));
    if (W.np > 1) for (int r = 0; r < W.np; r++) { hg.push_back(!!MESH_Has_Ghosts_From_Prtn(m, r, (MType)d)); ho.push_back(!!MESH_Has_Overlaps_On_Prtn(m, r, (MType)d)); }
    P.v(g); P.v(o); P.v(hg); P.v(ho); }
  if (sets) for (auto& s : W.sets) { MSet_ptr q = MESH_MSetByName(m, s.name.c_str()); REQ(c, q, "set-missing", "set %s is not on the mesh of a rank", s.name.c_str()); REQ(c, (int)MSet_EntDim(q) == s.dim, "set-def", "set %s has type %d on a rank, expected %d", s.name.c_str(), (int)MSet_EntDim(q), s.dim);
    VI in; int idx = 0; void* e; while ((e = MSet_Next_Entry(q, &idx))) { int d = MEnt_Dim(e), i = b.find(d, e); REQ(c, i >= 0, "set-entries", "set %s on a rank has an entry that is not in its mesh", s.name.c_str()); in.push_back(d); in.push_back(i); } P.v(in); }
}
inline DRank unpackRank(const DWorld& W, const std::string& s, bool atts, bool sets) {
  Unpack U{s}; DRank R; R.prtn = U.i(); R.nprtn = U.i();
  for (int d = 0; d < 4; d++) { R.e[d].resize(U.i());
    for (auto& e : R.e[d]) { e.gid = U.i(); e.master = U.i(); e.pt = U.i(); e.pb = U.i(); e.gd = U.i(); e.gi = U.i(); e.lid = U.i(); if (d == 0) for (double& q : e.x) q = U.d(); else e.sub = U.v(); if (d == 3) e.dir = U.v();
      if (atts) for (auto& a : W.atts) { std::vector<double> v; if (attOn(a.dim, d)) for (int k = 0; k < a.nc; k++) v.push_back(U.d()); e.att.push_back(v); } }
    R.gh[d] = U.v(); R.ov[d] = U.v(); R.hasg[d] = U.v(); R.haso[d] = U.v(); }
  if (sets) for (size_t k = 0; k < W.sets.size(); k++) R.sets.push_back(U.v());
  return R;
}
struct DistOpt { bool atts = true, sets = true, lists = true, adj = true, edgeDir = true, classifn = true, pb = true, gidContig = false; bool ghostAtts = true, ptRing0 = false; VI ghostLayers; };
struct DMap { VI to[4]; VI from[4]; };   // local index -> model index, and back (-1: not here)
// elements a rank must hold, and their closure
inline void expectHere(const DWorld& W, int r, int ring, std::vector<char> in[4], std::vector<char> own[4]) {
  const RMesh& m = W.m; int D = m.topo, n = m.n(D); std::vector<VI> ev(n); for (int i = 0; i < n; i++) ev[i] = m.vertsOf(D, i);
  std::vector<char> el(n, 0), vs(m.n(0), 0); for (int i = 0; i < n; i++) el[i] = W.part[i] == r;
  auto closure = [&](std::vector<char>* z) { for (int d = 0; d < 4; d++) z[d].assign(m.n(d), 0); z[D] = el; if (D == 3) for (int i = 0; i < n; i++) if (el[i]) for (int f : m.R[i].f) z[2][f] = 1; for (int f = 0; f < m.n(2); f++) if (z[2][f]) { for (int e : m.F[f].e) z[1][e] = 1; for (int v : m.F[f].v) z[0][v] = 1; } };
  closure(own); for (int k = 0; k < ring; k++) { vs.assign(m.n(0), 0); for (int i = 0; i < n; i++) if (el[i]) for (int v : ev[i]) vs[v] = 1; for (int i = 0; i < n; i++) for (int v : ev[i]) if (vs[v]) el[i] = 1; }
  closure(in);
}
inline std::vector<DMap> checkDist(Case& c, const DWorld& W, const std::vector<DRank>& R, DistOpt o = DistOpt()) {
  const RMesh& m = W.m; int D = m.topo, np = R.size(); std::vector<DMap> M(np); std::map<V3, int> xv; for (int i = 0; i < m.n(0); i++) xv[m.X[i]] = i;
  std::map<VI, int> by[4]; for (int i = 0; i < m.n(1); i++) by[1][sorted({m.E[i][0], m.E[i][1]})] = i; for (int i = 0; i < m.n(2); i++) by[2][sorted(m.F[i].v)] = i; for (int i = 0; i < m.n(3); i++) by[3][sorted(m.R[i].f)] = i;
  std::vector<std::vector<char>> here[4], own[4]; for (int d = 0; d < 4; d++) { here[d].resize(np); own[d].resize(np); }
  for (int r = 0; r < np; r++) { std::vector<char> a[4], b[4]; expectHere(W, r, W.ring, a, b); for (int d = 0; d < 4; d++) { here[d][r] = a[d]; own[d][r] = b[d]; } }
  for (int r = 0; r < np; r++) for (int d = 0; d < 4; d++) {
    auto& to = M[r].to[d]; auto& from = M[r].from[d]; to.assign(R[r].e[d].size(), -1); from.assign(m.n(d), -1);
    for (size_t i = 0; i < R[r].e[d].size(); i++) { const DEnt& e = R[r].e[d][i]; int q = -1;
      if (d == 0) { auto it = xv.find({e.x[0], e.x[1], e.x[2]}); if (it != xv.end()) q = it->second; }
      else { VI k; for (int s : e.sub) k.push_back(M[r].to[d == 3 ? 2 : 0][s]); auto it = by[d].find(sorted(k)); if (it != by[d].end()) q = it->second;
        if (q >= 0 && d == 1 && o.edgeDir) REQ(c, m.E[q][0] == k[0], "dist-orientation", "rank %d: edge %d is reversed", r, q);
        if (q >= 0 && d == 2) REQ(c, sameCycle(k, m.F[q].v, !o.edgeDir && D == 3), "dist-orientation", "rank %d: face %d has vertices %s, the original %s", r, q, str(k).c_str(), str(m.F[q].v).c_str());
        if (q >= 0 && d == 3) for (size_t j = 0; j < k.size(); j++) for (size_t l = 0; l < m.R[q].f.size(); l++) if (m.R[q].f[l] == k[j]) { VI fv; for (int s : R[r].e[2][e.sub[j]].sub) fv.push_back(M[r].to[0][s]); int same = sameCycle(fv, m.F[k[j]].v, false); REQ(c, (e.dir[j] == m.R[q].d[l]) == same, "dist-orientation", "rank %d: region %d uses face %d in direction %d", r, q, k[j], e.dir[j]); } }
      REQ(c, q >= 0, "dist-foreign", "rank %d holds an entity of dimension %d (local ID %d, global ID %d) that is not in the original mesh", r, d, e.lid, e.gid);
      REQ(c, from[q] < 0, "dist-duplicate", "rank %d holds entity %d/%d twice (local IDs %d and %d)", r, d, q, R[r].e[d][from[q]].lid, e.lid); to[i] = q; from[q] = i; }
    for (int q = 0; q < m.n(d); q++) REQ(c, (from[q] >= 0) == (bool)here[d][r][q], "dist-content", "rank %d %s entity %d/%d (parts %s, ring %d)", r, from[q] >= 0 ? "should not hold" : "lacks", d, q, str(W.part).c_str(), W.ring);
  }
  for (int d = 0; d < 4; d++) { std::map<int, int> g; VI gidOf(m.n(d), 0), mast(m.n(d), -1);
    for (int r = 0; r < np; r++) for (size_t i = 0; i < R[r].e[d].size(); i++) { const DEnt& e = R[r].e[d][i]; int q = M[r].to[d][i];
      REQ(c, e.gid > 0, "dist-gid", "rank %d: entity %d/%d has global ID %d", r, d, q, e.gid); REQ(c, !gidOf[q] || gidOf[q] == e.gid, "dist-gid", "entity %d/%d has global IDs %d and %d", d, q, gidOf[q], e.gid); auto z = g.emplace(e.gid, q); REQ(c, z.first->second == q, "dist-gid", "entities %d and %d of dimension %d both have global ID %d", q, z.first->second, d, e.gid); gidOf[q] = e.gid;
      REQ(c, mast[q] < 0 || mast[q] == e.master, "dist-owner", "entity %d/%d has owners %d and %d", d, q, mast[q], e.master); REQ(c, e.master >= 0 && e.master < np && own[d][e.master][q], "dist-owner", "rank %d: entity %d/%d has owner %d, which has no element of its own there", r, d, q, e.master); mast[q] = e.master;
      bool elsewhere = false; int parts = 0; for (int s = 0; s < np; s++) { elsewhere |= s != r && here[d][s][q]; parts += own[d][s][q]; }
      if (d == D) REQ(c, e.master == W.part[q], "dist-owner", "element %d has owner %d, expected %d", q, e.master, W.part[q]);
      int pt = e.master != r ? PGHOST : elsewhere ? POVERLAP : PINTERIOR; REQ(c, e.pt == pt || (o.ptRing0 && !W.ring && e.master == r && !elsewhere && e.pt == POVERLAP), "dist-ptype", "rank %d: entity %d/%d (owner %d, %s elsewhere) has parallel type %d, expected %d; parts %s ring %d", r, d, q, e.master, elsewhere ? "also" : "not", e.pt, pt, str(W.part).c_str(), W.ring);
      if (o.pb && d < D && own[d][r][q]) REQ(c, !!e.pb == (parts > 1), "dist-boundary", "rank %d: entity %d/%d used by %d parts is%s flagged as on the partition boundary", r, d, q, parts, e.pb ? "" : " not");
      if (o.classifn) REQ(c, e.gd == m.gd[d][q] && e.gi == m.gi[d][q], "dist-classification", "rank %d: entity %d/%d classified on %d/%d, expected %d/%d", r, d, q, e.gd, e.gi, m.gd[d][q], m.gi[d][q]);
      if (o.atts) for (size_t k = 0; k < W.atts.size(); k++) if (attOn(W.atts[k].dim, d) && (o.ghostAtts || e.master == r)) { auto it = W.atts[k].val.find({d, q}); std::vector<double> w = it == W.atts[k].val.end() ? std::vector<double>(W.atts[k].nc, 0.0) : it->second; REQ(c, e.att[k] == w, "dist-attribute", "rank %d (owner %d): %s of entity %d/%d starts with %g, expected %g", r, e.master, W.atts[k].name.c_str(), d, q, e.att[k][0], w[0]); } }
    if (o.gidContig && !g.empty()) REQ(c, g.begin()->first == 1 && g.rbegin()->first == (int)g.size(), "dist-gid", "global IDs of dimension %d run from %d to %d for %zu entities", d, g.begin()->first, g.rbegin()->first, g.size());
    for (int r = 0; r < np; r++) { VI wg, wo; for (size_t i = 0; i < R[r].e[d].size(); i++) { if (R[r].e[d][i].pt == PGHOST) wg.push_back(i); if (R[r].e[d][i].pt == POVERLAP) wo.push_back(i); }
      if (o.lists) { REQ(c, sorted(R[r].gh[d]) == wg, "dist-lists", "rank %d: list of ghosts of dimension %d is %s, expected %s", r, d, str(R[r].gh[d]).c_str(), str(wg).c_str()); REQ(c, sorted(R[r].ov[d]) == wo, "dist-lists", "rank %d: list of overlap entities of dimension %d is %s, expected %s", r, d, str(R[r].ov[d]).c_str(), str(wo).c_str());
        for (auto* l : {&R[r].gh[d], &R[r].ov[d]}) for (size_t i = 1; i < l->size(); i++) REQ(c, R[r].e[d][(*l)[i - 1]].gid < R[r].e[d][(*l)[i]].gid, "dist-lists", "rank %d: ghost or overlap list of dimension %d is not sorted by global ID", r, d); }
      if (o.adj && np > 1) for (int s = 0; s < np; s++) { bool hg = false; for (int i : wg) hg |= R[r].e[d][i].master == s; bool ho = false; for (auto& e : R[s].e[d]) ho |= s != r && e.master == r; REQ(c, (int)R[r].hasg[d].size() == np && R[r].hasg[d][s] == hg, "dist-neighbours", "rank %d does%s claim ghosts of dimension %d from rank %d", r, hg ? " not" : "", d, s); REQ(c, R[r].haso[d][s] == ho, "dist-neighbours", "rank %d does%s claim overlaps of dimension %d on rank %d", r, ho ? " not" : "", d, s); } } }
  for (int r = 0; r < np; r++) { if (np > 1) REQ(c, R[r].prtn == r && R[r].nprtn == np, "dist-prtn", "mesh of rank %d says partition %d of %d", r, R[r].prtn, R[r].nprtn);
    if (o.sets) for (size_t k = 0; k < W.sets.size(); k++) { std::set<std::pair<int, int>> a, w; const VI& in = R[r].sets[k]; for (size_t i = 0; i + 1 < in.size(); i += 2) REQ(c, a.insert({in[i], M[r].to[in[i]][in[i + 1]]}).second, "dist-set", "rank %d: set %s has an entry twice", r, W.sets[k].name.c_str());
      for (auto& x : W.sets[k].in) if (M[r].from[x.first][x.second] >= 0) w.insert(x); for (auto& x : w) REQ(c, a.count(x), "dist-set", "rank %d: set %s lacks entity %d/%d", r, W.sets[k].name.c_str(), x.first, x.second); for (auto& x : a) REQ(c, w.count(x), "dist-set", "rank %d: entity %d/%d is in set %s", r, x.first, x.second, W.sets[k].name.c_str()); } }
  return M;
}
// ---- generation -----------------------------------------------------------
inline void genPart(Case& c, DWorld& W, int np) {
  const RMesh& m = W.m; int D = m.topo, n = m.n(D); W.np = np; W.part.assign(n, 0); int kind = c.s.draw(4); std::vector<V3> cen(n, V3{0, 0, 0}); for (int i = 0; i < n; i++) { VI v = m.vertsOf(D, i); for (int k : v) cen[i] = cen[i] + (1.0 / v.size()) * m.X[k]; }
  if (kind == 0) { for (int i = 0; i < n; i++) W.part[i] = c.s.draw(np); c.label("parts-scattered"); }
  else if (kind == 1) { VI p(n); for (int i = 0; i < n; i++) p[i] = i; int ax = c.s.draw(3); std::stable_sort(p.begin(), p.end(), [&](int a, int b) { return cen[a][ax] < cen[b][ax]; }); for (int k = 0; k < n; k++) W.part[p[k]] = (long)k * np / n; c.label("parts-slabs"); }
  else if (kind == 2) { VI s; for (int k = 0; k < np; k++) s.push_back(c.s.draw(n)); for (int i = 0; i < n; i++) { double best = 1e300; for (int k = 0; k < np; k++) { double q = len(cen[i] - cen[s[k]]); if (q < best) { best = q; W.part[i] = k; } } } c.label("parts-nearest-seed"); }
  else { int big = c.s.draw(np); for (int i = 0; i < n; i++) W.part[i] = c.s.chance(1, 5) ? c.s.draw(np) : big; c.label("parts-one-large"); }
  VI cnt(np, 0); for (int q : W.part) cnt[q]++; for (int k = 0; k < np; k++) if (!cnt[k]) for (int i = 0; i < n; i++) if (cnt[W.part[i]] > 1) { cnt[W.part[i]]--; W.part[i] = k; cnt[k]++; break; }  // no part is empty
}
inline void genFields(Case& c, DWorld& W, int maxa, int maxs) {
  const RMesh& m = W.m; int na = c.s.draw(maxa + 1), ns = c.s.draw(maxs + 1);
  for (int k = 0; k < na; k++) { MAttType ts[] = {INT, DOUBLE, VECTOR, TENSOR}; int dims[] = {0, 1, 2, m.topo, MALLTYPE}; DAtt a; a.t = ts[c.s.draw(4)]; a.dim = dims[c.s.draw(5)]; a.nc = a.t == VECTOR || a.t == TENSOR ? 1 + (int)c.s.draw(4) : 1; a.name = pbt::format("att%d", k); bool all = c.s.coin();
    for (int d = 0; d < 4; d++) if (attOn(a.dim, d)) for (int i = 0; i < m.n(d); i++) if (all || c.s.chance(2, 3)) { std::vector<double> v; for (int q = 0; q < a.nc; q++) v.push_back(c.s.chance(1, 5) ? 0 : a.t == INT ? c.s.range(-9, 9) : c.s.real(-9, 9)); a.val[{d, i}] = v; }
    W.atts.push_back(a); c.label(pbt::format("att-type-%d", a.t)); if (a.dim == MALLTYPE) c.label("att-all-types"); }
  for (int k = 0; k < ns; k++) { int dims[] = {0, 1, 2, m.topo, MALLTYPE}; DSet s; s.dim = dims[c.s.draw(5)]; s.name = pbt::format("set%d", k); for (int d = 0; d < 4; d++) if (attOn(s.dim, d)) for (int i = 0; i < m.n(d); i++) if (c.s.chance(1, 3)) s.in.push_back({d, i}); c.s.shuffle(s.in); W.sets.push_back(s); c.label("sets"); }
}
inline DWorld genWorld(Case& c, GenOpt o, int np) {
  DWorld W; for (int k = 0;; k++) {
    if (c.s.chance(1, 25)) {  // many faces on one edge
      Soup q; q.topo = 2; int n = 3 + c.s.draw(12), tri = c.s.coin(); q.X = {{0, 0, 0}, {0, 0, 1}}; for (int i = 0; i < n; i++) { double t = 6.283185307 * i / n; q.X.push_back({std::cos(t), std::sin(t), 0}); if (!tri) q.X.push_back({std::cos(t), std::sin(t), 1}); int b = q.X.size(); q.F.push_back(tri ? VI{0, b - 1, 1} : VI{0, b - 2, b - 1, 1}); q.Freg.push_back(1); }
      W.m = assemble(c, q, o); c.label("surface:book"); } else W.m = genMesh(c, o); if (W.m.n(W.m.topo) >= np && distinctPoints(W.m, 0) && distinctShapes(W.m)) break; if (k > 20) c.fail("inconclusive:gen", "no mesh large enough"); }
  genPart(c, W, np); c.label(W.m.topo == 3 ? "volume" : "surface"); return W;
}
inline BM buildWorld(Case& c, DWorld& W) {
  BM b = build(c, W.m, W.rep, EXPLICIT);
  for (auto& a : W.atts) { MAttrib_ptr q = attNew(b.m, a); for (auto& x : a.val) attSet(b.ent[x.first.first][x.first.second], q, a.t, x.second); }
  for (auto& s : W.sets) { MSet_ptr q = MSet_New(b.m, s.name.c_str(), (MType)s.dim); for (auto& x : s.in) MSet_Add(q, b.ent[x.first][x.second]); }
  return b;
}
