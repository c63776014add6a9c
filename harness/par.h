// Meshes spread over the ranks of the message passing stand-in: separate pieces, and distributed meshes to work on.
#pragma once
#include "mpi_shim.h"
#include "parts.h"
struct Piece { RMesh m; VI from[4]; std::vector<char> flag; };  // from: model entity of each local entity
static Piece piece(Case& c, const DWorld& W, int r) {   // the elements of rank r, numbered and oriented independently of the other ranks
  const RMesh& m = W.m; int D = m.topo; Piece P; P.m.topo = D; std::vector<char> in[4]; std::vector<char> z[4]; expectHere(W, r, 0, in, z); VI to[4];
  bool flip = c.s.coin();
  for (int d = 0; d < 4; d++) { to[d].assign(m.n(d), -1); VI ids; for (int i = 0; i < m.n(d); i++) if (in[d][i]) ids.push_back(i); if (flip) c.s.shuffle(ids); P.from[d] = ids; for (size_t k = 0; k < ids.size(); k++) { to[d][ids[k]] = k; P.m.gd[d].push_back(m.gd[d][ids[k]]); P.m.gi[d].push_back(m.gi[d][ids[k]]); } }
  VI er(m.n(1), 0), fr(m.n(2), 0);
  for (int i : P.from[0]) P.m.X.push_back(m.X[i]);
  for (int i : P.from[1]) { er[i] = flip && c.s.coin(); int a = to[0][m.E[i][0]], b = to[0][m.E[i][1]]; P.m.E.push_back(er[i] ? std::array<int, 2>{b, a} : std::array<int, 2>{a, b}); }
  for (int i : P.from[2]) { const RFace& f = m.F[i]; int n = f.v.size(), rot = flip ? (int)c.s.draw(n) : 0; fr[i] = D == 3 && flip && c.s.coin(); RFace g;
    for (int k = 0; k < n; k++) { int a = fr[i] ? (rot - k + 2 * n) % n : (rot + k) % n, e = fr[i] ? (a + n - 1) % n : a; g.v.push_back(to[0][f.v[a]]); g.e.push_back(to[1][f.e[e]]); g.d.push_back(f.d[e] ^ fr[i] ^ er[f.e[e]]); } P.m.F.push_back(g); }
  for (int i : P.from[3]) { const RReg& q = m.R[i]; RReg g; g.type = q.type; VI p(q.f.size()); for (size_t k = 0; k < p.size(); k++) p[k] = k; if (flip) c.s.shuffle(p); for (int k : p) { g.f.push_back(to[2][q.f[k]]); g.d.push_back(q.d[k] ^ fr[q.f[k]]); } P.m.R.push_back(g); }
  P.m.derive(); P.m.buildUp(); return P;
}
// a distributed mesh: distributed from rank 0, or woven from the pieces
struct PWorld { DWorld W; bool weave = false; std::vector<Piece> P; std::vector<BM> B; BM b; std::vector<VI> has; VI owner[4]; std::vector<std::vector<char>> here[4], own[4]; };
inline void parWorld(Case& c, PWorld& Q, int np, int maxa, VI rings, const std::function<bool(RMesh&)>& fit = nullptr) {   // fit: what the mesh has to satisfy
  GenOpt o; o.maxcells = 4 + c.size / 3; o.materials = c.s.coin(); for (int k = 0;; k++) { Q.W = genWorld(c, o, np); if (!fit || fit(Q.W.m)) break; if (k > 30) c.fail("inconclusive:gen", "no mesh fits"); } DWorld& W = Q.W; const RMesh& m = W.m; Q.weave = c.s.chance(1, 3); c.label(Q.weave ? "woven" : "distributed"); c.label(pbt::format("ranks-%d", np));
  if (Q.weave && np > 1 && c.s.chance(1, 8)) { int e = c.s.draw(np), t = (e + 1) % np; for (int& q : W.part) if (q == e) q = t; c.label("rank-without-elements"); }
  W.ring = Q.weave ? 1 : c.s.pick(rings); W.rep = c.s.coin() ? F1 : F4; genFields(c, W, maxa, 0); rawPart = W.part; C = &c; WW = &W; BB = &Q.b; Q.has.resize(m.n(0)); c.label(pbt::format("ring-%d", W.ring));
  for (int d = 0; d < 4; d++) { Q.here[d].resize(np); Q.own[d].resize(np); } for (int r = 0; r < np; r++) { std::vector<char> a[4], z[4]; expectHere(W, r, W.ring, a, z); for (int d = 0; d < 4; d++) { Q.here[d][r] = a[d]; Q.own[d][r] = z[d]; } }
  if (!Q.weave) { Q.b = build(c, W.m, W.rep, EXPLICIT); return; }
  for (int r = 0; r < np; r++) { Q.P.push_back(piece(c, W, r)); for (int v : Q.P[r].from[0]) Q.has[v].push_back(r); Q.B.push_back(build(c, Q.P[r].m, W.rep, EXPLICIT)); }
}
inline Mesh_ptr parMesh(Case& c, PWorld& Q, int rank) {   // on each rank; no attributes on it
  Mesh_ptr my = nullptr; int D = Q.W.m.topo, dim = D;
  if (!Q.weave) { REQ(c, MSTK_Mesh_Distribute(rank ? nullptr : Q.b.m, &my, &dim, Q.W.ring, 0, 0, 0, MPI_COMM_WORLD) == 1, "return", "MSTK_Mesh_Distribute failed"); return my; }
  my = Q.B[rank].m; for (int k = 0; k < Q.P[rank].m.n(0); k++) if (Q.has[Q.P[rank].from[0][k]].size() > 1) MV_Flag_OnParBoundary(Q.B[rank].ent[0][k]);
  REQ(c, MSTK_Weave_DistributedMeshes(my, D, 1, 0, MPI_COMM_WORLD) == 1, "return", "MSTK_Weave_DistributedMeshes failed"); return my;
}
// which entity of the model each entity of a rank's mesh is
struct PMap { BM b; RMesh x; VI to[4], from[4]; };
inline PMap parMap(Case& c, const DWorld& W, Mesh_ptr mesh) {
  PMap P; const RMesh& m = W.m; P.x = extract(c, mesh, P.b); std::map<V3, int> xv; for (int i = 0; i < m.n(0); i++) xv[m.X[i]] = i; std::map<VI, int> by[4];
  for (int i = 0; i < m.n(1); i++) by[1][sorted({m.E[i][0], m.E[i][1]})] = i; for (int i = 0; i < m.n(2); i++) by[2][sorted(m.F[i].v)] = i; for (int i = 0; i < m.n(3); i++) by[3][sorted(m.R[i].f)] = i;
  for (int d = 0; d < 4; d++) { P.from[d].assign(m.n(d), -1); for (int i = 0; i < P.x.n(d); i++) { int q = -1; if (d == 0) { auto it = xv.find(P.x.X[i]); if (it != xv.end()) q = it->second; } else { VI k; if (d == 1) k = {P.x.E[i][0], P.x.E[i][1]}; else k = d == 2 ? P.x.F[i].v : P.x.R[i].f; for (int& s : k) s = P.to[d == 3 ? 2 : 0][s]; auto it = by[d].find(sorted(k)); if (it != by[d].end()) q = it->second; }
      REQ(c, q >= 0, "dist-foreign", "a rank holds an entity of dimension %d that is not in the original mesh", d); P.to[d].push_back(q); P.from[d][q] = i; } }
  return P;
}
