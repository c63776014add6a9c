#include "par.h"
// Ghost updates, gather-scatter, exchange and coordinate updates, any sequence of them, against a model of all copies.
typedef std::vector<double> Val;
struct Op { int kind, k, op, epoch; };   // 0: change values, 1: update all, 2: update one, 3: gather-scatter, 4: exchange, 5: change coordinates, 6: update coordinates
static uint64_t h(uint64_t s, std::initializer_list<int> l) { for (int v : l) s = pbt::mix64(s ^ (uint64_t)(v + 0x1234567)); return s; }
static void run(Case& c) {
  int np = 1 + c.s.draw(c.s.chance(1, 4) ? 8 : 4); PWorld Q; parWorld(c, Q, np, 4, {1, 1, 0, 2}); DWorld& W = Q.W; const RMesh& m = W.m; int D = m.topo; uint64_t seed = ((uint64_t)c.s.draw(1u << 30) << 30) | c.s.draw(1u << 30);
  bool manifold = true; for (int s = 0; s < m.n(D - 1); s++) manifold &= (D == 3 ? m.fR[s] : m.eF[s]).size() <= 2;
  std::vector<Op> ops; int n = 1 + c.s.draw(6), na = W.atts.size();
  for (int t = 0; t < n; t++) { Op o; o.kind = c.s.draw(7); if (!na && o.kind < 5 && o.kind != 1) o.kind = 5 + o.kind % 2; o.k = na ? c.s.draw(na) : 0; o.op = c.s.pick(std::vector<int>{ATTOP_MAX, ATTOP_MIN, ATTOP_SUM, ATTOP_AVG}); o.epoch = t;
    if (na && o.kind == 4 && (!manifold || W.atts[o.k].dim != D - 1)) o.kind = 3; if (na && o.kind == 3 && (W.atts[o.k].dim == MALLTYPE || (W.atts[o.k].t == INT && o.op == ATTOP_AVG))) o.kind = 2;
    static const char* nm[] = {"op-change", "op-update-all", "op-update-one", "op-gather-scatter", "op-exchange", "op-move", "op-update-coordinates"}; c.label(nm[o.kind]); if (o.kind == 3) c.label(pbt::format("aggregate-%d", o.op)); ops.push_back(o); }
  shim::Opt so = shim::draw(c); c.note("%s np %d ring %d %s parts %s", describe(m).c_str(), np, W.ring, Q.weave ? "woven" : "distributed", str(W.part).c_str()); for (auto& o : ops) c.note("op %d attribute %d aggregate %d", o.kind, o.k, o.op); for (auto& a : W.atts) c.note("attribute type %d on %d, %d components", a.t, a.dim, a.nc);
  std::vector<std::string> out;
  shim::run(c, np, so, [&](int rank, std::string&) {
    Mesh_ptr my = parMesh(c, Q, rank); PMap P = parMap(c, W, my); std::vector<MAttrib_ptr> A; for (auto& a : W.atts) A.push_back(attNew(my, a)); VI mast[4]; for (int d = 0; d < 4; d++) for (void* e : P.b.ent[d]) mast[d].push_back(MEnt_MasterParID(e));
    // V[k][d][local][rank]: value of each copy, as far as it has an entity here
    std::vector<std::vector<std::vector<Val>>> V[4]; for (int d = 0; d < 4; d++) V[d].resize(na); std::vector<std::vector<V3>> X(P.x.n(0), std::vector<V3>(np));
    auto fresh = [&](int ep, int k, int r, int d, int q) { const DAtt& a = W.atts[k]; uint64_t z = h(seed, {ep, k, r, d, q}); Val v(a.nc, 0.0); if (z % 8 < 2) return v; for (int j = 0; j < a.nc; j++) { z = pbt::mix64(z); v[j] = (int)(z % 19) - 9; if (a.t != INT && j == 0) v[j] = std::fabs(v[j]) + (r + 1) / 64.0; if (a.t == DOUBLE && z % 3 == 0) v[j] = -v[j]; } return v; };
    for (int d = 0; d < 4; d++) for (int k = 0; k < na; k++) if (attOn(W.atts[k].dim, d)) { V[d][k].assign(P.x.n(d), std::vector<Val>(np)); for (int i = 0; i < P.x.n(d); i++) for (int r = 0; r < np; r++) { V[d][k][i][r] = fresh(-1, k, r, d, P.to[d][i]); Val& v = V[d][k][i][r]; if (r == rank && (v != Val(v.size(), 0.0) || h(seed, {7, k, d, i}) % 2)) attSet(P.b.ent[d][i], A[k], W.atts[k].t, v); } }
    for (int i = 0; i < P.x.n(0); i++) for (int r = 0; r < np; r++) X[i][r] = m.X[P.to[0][i]];
    auto at = [&](int k, int d, int i) { return attVal(P.b.ent[d][i], A[k], W.atts[k].t, W.atts[k].nc); };
    for (auto& o : ops) { int skip = -1, ret = -1; bool tie = false;
      if (o.kind == 0) { for (int d = 0; d < 4; d++) if (attOn(W.atts[o.k].dim, d)) for (int i = 0; i < P.x.n(d); i++) for (int r = 0; r < np; r++) if (h(seed, {o.epoch, 99, r, d, P.to[d][i]}) % 2) { Val& v = V[d][o.k][i][r]; v = fresh(o.epoch, o.k, r, d, P.to[d][i]); if (r != rank) continue; if (v == Val(v.size(), 0.0) && h(seed, {o.epoch, 98, r, d, i}) % 2) MEnt_Rem_AttVal(P.b.ent[d][i], A[o.k]); else attSet(P.b.ent[d][i], A[o.k], W.atts[o.k].t, v); } }
      if (o.kind == 1) { if (h(seed, {o.epoch, 1}) % 4) MESH_UpdateAttributes(my, MPI_COMM_WORLD); else MSTK_UpdateAttr(my, MPI_COMM_WORLD); }
      if (o.kind == 2) MESH_Update1Attribute(my, A[o.k], MPI_COMM_WORLD);
      if (o.kind == 3) ret = MESH_GathScat1Attribute(my, A[o.k], (MAttOpType)o.op, MPI_COMM_WORLD);
      if (o.kind == 4) ret = MESH_XchngEdgeFaceAttrib(my, A[o.k], MPI_COMM_WORLD);
      if (o.kind == 5) for (int i = 0; i < P.x.n(0); i++) for (int r = 0; r < np; r++) if (h(seed, {o.epoch, 77, r, P.to[0][i]}) % 2) { for (int j = 0; j < 3; j++) X[i][r][j] = h(seed, {o.epoch, 78, r, P.to[0][i], j}) % 1000 / 100.0; if (r == rank) MV_Set_Coords(P.b.ent[0][i], X[i][r].data()); }
      if (o.kind == 6) MESH_UpdateVertexCoords(my, MPI_COMM_WORLD);
      if (np > 1 && ret >= 0) REQ(c, ret == 1, "return", "op %d returned %d on rank %d", o.kind, ret, rank); if (np == 1 && o.kind != 0 && o.kind != 5) continue;
      // the model of the same step
      if (o.kind == 1 || o.kind == 2) for (int k = 0; k < na; k++) if ((o.kind == 1 || k == o.k) && W.atts[k].dim != MALLTYPE) { int d = W.atts[k].dim; for (int i = 0; i < P.x.n(d); i++) for (int r = 0; r < np; r++) V[d][k][i][r] = V[d][k][i][mast[d][i]]; }
      if (o.kind == 3) { int d = W.atts[o.k].dim, nc = W.atts[o.k].nc; for (int i = 0; i < P.x.n(d); i++) { int q = P.to[d][i]; VI cp; for (int r = 0; r < np; r++) if (Q.here[d][r][q]) cp.push_back(r); if (cp.size() < 2) continue; std::vector<Val> vs; for (int r : cp) vs.push_back(V[d][o.k][i][r]); Val w = vs[0]; auto nrm = [](const Val& v) { double s = 0; for (double x : v) s += x * x; return s; }; bool vec = W.atts[o.k].t == VECTOR || W.atts[o.k].t == TENSOR;
          for (size_t t = 1; t < vs.size(); t++) { if (o.op == ATTOP_SUM || o.op == ATTOP_AVG) for (int j = 0; j < nc; j++) w[j] += vs[t][j]; else { double a = vec ? nrm(vs[t]) : vs[t][0], b = vec ? nrm(w) : w[0]; if (a == b && vs[t] != w) tie = true; if (o.op == ATTOP_MAX ? a > b : a < b) w = vs[t]; } }
          if (o.op == ATTOP_AVG) for (double& x : w) x /= vs.size(); for (int r : cp) V[d][o.k][i][r] = w; } }
      if (o.kind == 4) { int d = D - 1; skip = o.k; for (int i = 0; i < P.x.n(d); i++) { int q = P.to[d][i]; VI own; for (int r = 0; r < np; r++) if (Q.own[d][r][q]) own.push_back(r); if (own.size() == 2) { Val a = V[d][o.k][i][own[0]], b = V[d][o.k][i][own[1]]; V[d][o.k][i][own[0]] = b; V[d][o.k][i][own[1]] = a; } if (own.size() == 1) skip = o.k; } }
      if (o.kind == 6) for (int i = 0; i < P.x.n(0); i++) for (int r = 0; r < np; r++) X[i][r] = X[i][mast[0][i]];
      if (tie) { c.label("tie"); }
      int stop = tie; MPI_Allreduce(MPI_IN_PLACE, &stop, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); if (stop) break;
      for (int d = 0; d < 4; d++) for (int k = 0; k < na; k++) if (attOn(W.atts[k].dim, d)) for (int i = 0; i < P.x.n(d); i++) { int q = P.to[d][i]; if (skip == k && !Q.own[d][rank][q]) continue; Val g = at(k, d, i), w = V[d][k][i][rank]; bool same = true; for (size_t j = 0; j < w.size(); j++) same &= std::fabs(g[j] - w[j]) <= 1e-12 * (1 + std::fabs(w[j]));
            REQ(c, same, o.kind == 1 || o.kind == 2 ? "update" : o.kind == 3 ? "gather-scatter" : o.kind == 4 ? "exchange" : "other-values", "rank %d after step %d (op %d, attribute %d, aggregate %d): attribute %d (type %d) of entity %d/%d (owner %d) starts with %g, expected %g", rank, o.epoch, o.kind, o.k, o.op, k, W.atts[k].t, d, q, mast[d][i], g[0], w[0]); }
      for (int i = 0; i < P.x.n(0); i++) { double x[3]; MV_Coords(P.b.ent[0][i], x); for (int j = 0; j < 3; j++) REQ(c, x[j] == X[i][rank][j], "coordinates", "rank %d after step %d (op %d): vertex %d (owner %d) has coordinate %g, expected %g", rank, o.epoch, o.kind, P.to[0][i], mast[0][i], x[j], X[i][rank][j]); }
      if (skip >= 0) break;   // copies away from the boundary are not specified
    }
    MESH_Delete(my); }, out);
  if (np > 1) c.nontrivial();
}
int main(int argc, char** argv) { static pbt::Property P = {"C30", "a distributed mesh of at least two ranks was updated", run, 3000, 60000}; return pbt::main_serial(argc, argv, P); }
