#include "par.h"
// Weaving meshes that were built separately on the ranks into one distributed mesh.
static void run(Case& c) {
  int np = 1 + c.s.draw(c.s.chance(1, 4) ? 8 : 4); GenOpt o; o.maxcells = 4 + c.size / 3; o.materials = c.s.coin(); DWorld W = genWorld(c, o, np); const RMesh& m = W.m; int D = m.topo;
  if (np > 1 && c.s.chance(1, 8)) { int e = c.s.draw(np), t = (e + 1) % np; for (int& q : W.part) if (q == e) q = t; c.label("rank-without-elements"); }
  W.ring = c.s.chance(1, 6) ? 0 : 1; W.rep = c.s.coin() ? F1 : F4; genFields(c, W, 3, 0); int type = c.s.draw(3);
  std::vector<Piece> P; for (int r = 0; r < np; r++) P.push_back(piece(c, W, r));
  std::vector<VI> has(m.n(0)); for (int r = 0; r < np; r++) for (int v : P[r].from[0]) has[v].push_back(r);
  bool hidden = false;  // shared vertices that are not on the boundary of a piece
  for (int r = 0; r < np; r++) { std::vector<char> bd(P[r].m.n(0), 0); for (int s = 0; s < P[r].m.n(D - 1); s++) if (P[r].m.up(D - 1, s, D).size() == 1) for (int v : P[r].m.vertsOf(D - 1, s)) bd[v] = 1; for (int v = 0; v < P[r].m.n(0); v++) hidden |= has[P[r].from[0][v]].size() > 1 && !bd[v]; }
  bool known = (hidden || c.s.chance(1, 5)); if (known && type == 2) type = c.s.draw(2); if (known) c.label("boundary-flagged-by-caller"); if (hidden) c.label("hidden-contact");
  VI gid = c.s.perm(m.n(0)); for (int& g : gid) g++; if (c.s.coin()) { int g = 0; VI q(m.n(0)); for (int i = 0; i < m.n(0); i++) q[i] = g += 1 + c.s.draw(4); c.s.shuffle(q); gid = q; }
  bool elgid = type == 1 && c.s.coin(), classes = c.s.chance(1, 4) && W.ring; VI eg = c.s.perm(m.n(D)); if (elgid) c.label("given-element-ids");
  if (classes) { c.label("classification-differs"); for (int d = 0; d < D; d++) for (int i = 0; i < m.n(d); i++) { bool first = true; for (int r = 0; r < np; r++) for (size_t k = 0; k < P[r].from[d].size(); k++) if (P[r].from[d][k] == i) { if (!first && c.s.coin()) P[r].m.gi[d][k] += 100; first = false; } } }
  shim::Opt so = shim::draw(c); bool check = c.s.coin(); std::vector<std::string> out; c.note("%s np %d ring %d type %d parts %s", describe(m).c_str(), np, W.ring, type, str(W.part).c_str()); c.label(pbt::format("input-type-%d", type)); c.label(pbt::format("ring-%d", W.ring)); c.label(pbt::format("ranks-%d", np));
  std::vector<BM> B; for (int r = 0; r < np; r++) { B.push_back(build(c, P[r].m, W.rep, EXPLICIT)); for (auto& a : W.atts) { MAttrib_ptr q = attNew(B[r].m, a); for (int d = 0; d < 4; d++) for (size_t k = 0; k < P[r].from[d].size(); k++) { auto it = a.val.find({d, P[r].from[d][k]}); if (it != a.val.end() && attOn(a.dim, d)) attSet(B[r].ent[d][k], q, a.t, it->second); } } }
  shim::run(c, np, so, [&](int rank, std::string& s) {
    Mesh_ptr my = B[rank].m; const Piece& p = P[rank];
    if (type == 1) for (int k = 0; k < p.m.n(0); k++) MV_Set_GlobalID(B[rank].ent[0][k], gid[p.from[0][k]]);
    if (elgid) for (int k = 0; k < p.m.n(D); k++) MEnt_Set_GlobalID(B[rank].ent[D][k], eg[p.from[D][k]] + 1);
    if (known) for (int k = 0; k < p.m.n(0); k++) if (has[p.from[0][k]].size() > 1) MV_Flag_OnParBoundary(B[rank].ent[0][k]);
    if (type == 2) { MESH_Set_Prtn(my, rank, np); for (int k = 0; k < p.m.n(0); k++) for (int r : has[p.from[0][k]]) for (int d = 0; d < D; d++) { if (r < rank) MESH_Flag_Has_Ghosts_From_Prtn(my, r, (MType)d); if (r > rank) MESH_Flag_Has_Overlaps_On_Prtn(my, r, (MType)d); } }
    REQ(c, MSTK_Weave_DistributedMeshes(my, D, W.ring, type, MPI_COMM_WORLD) == 1, "return", "MSTK_Weave_DistributedMeshes failed on rank %d", rank);
    if (check && np > 1 && !classes) { REQ(c, MESH_Parallel_Check(my, MPI_COMM_WORLD) == 1, "parallel-check", "MESH_Parallel_Check rejects a woven mesh"); c.label("parallel-check"); }
    packRank(c, W, my, true, false, s); MESH_Delete(my); }, out);
  std::vector<DRank> R; for (auto& s : out) R.push_back(unpackRank(W, s, true, false));
  DistOpt d; d.sets = false; d.ghostAtts = false; d.edgeDir = false; d.gidContig = false; d.adj = false; d.pb = false; d.ptRing0 = true; d.classifn = !classes;
  auto M = checkDist(c, W, R, d);
  for (int q = 0; q <= D; q++) { int n = 0, mx = 0; std::vector<char> seen(m.n(q), 0); for (int r = 0; r < np; r++) for (size_t i = 0; i < R[r].e[q].size(); i++) { int t = M[r].to[q][i]; n += !seen[t]; seen[t] = 1; int g = R[r].e[q][i].gid; mx = std::max(mx, g); if (q == 0 && type == 1) REQ(c, g == gid[t], "weave-gid", "vertex with global ID %d now has %d", gid[t], g); if (q == D && elgid) REQ(c, g == eg[t] + 1, "weave-gid", "element with global ID %d now has %d", eg[t] + 1, g); }
    if (!(q == 0 && type == 1)) REQ(c, mx == n, "weave-gid", "global IDs of dimension %d run to %d for %d entities", q, mx, n); }
  for (int r = 0; r < np; r++) for (int q = 0; q < 4; q++) for (size_t i = 0; i < R[r].e[q].size(); i++) { const DEnt& e = R[r].e[q][i]; int t = M[r].to[q][i], low = np; std::set<int> use; for (int s = 0; s < np; s++) if (std::find(P[s].from[q].begin(), P[s].from[q].end(), t) != P[s].from[q].end()) { low = std::min(low, s); use.insert(s); }
      if (classes && use.count(r)) REQ(c, e.gd == m.gd[q][t] && e.gi == m.gi[q][t], "weave-classification", "rank %d: entity %d/%d shared by the pieces is classified on %d/%d, its owner %d has it on %d/%d", r, q, t, e.gd, e.gi, low, m.gd[q][t], m.gi[q][t]);
      REQ(c, e.master == low, "weave-owner", "entity %d/%d has owner %d, expected %d", q, t, e.master, low); if (q < D && use.count(r)) REQ(c, !!e.pb == (use.size() > 1), "weave-boundary", "rank %d: entity %d/%d used by %zu ranks is%s flagged as on the partition boundary", r, q, t, use.size(), e.pb ? "" : " not"); }
  if (np > 1) for (int r = 0; r < np; r++) for (int s = 0; s < np; s++) for (int q = 0; q < 4; q++) { bool hg = false; for (auto& e : R[r].e[q]) hg |= s != r && e.master == s; REQ(c, !hg || R[r].hasg[q][s], "weave-neighbours", "rank %d does not claim ghosts of dimension %d from rank %d", r, q, s); REQ(c, R[r].hasg[q][s] == R[s].haso[q][r], "weave-neighbours", "rank %d expects%s ghosts of dimension %d from rank %d, which does%s send them", r, R[r].hasg[q][s] ? "" : " no", q, s, R[s].haso[q][r] ? "" : " not"); }
  if (np > 1) c.nontrivial();
}
int main(int argc, char** argv) { static pbt::Property P = {"C29", "separate meshes of at least two ranks were woven together", run, 3000, 60000}; return pbt::main_serial(argc, argv, P); }
