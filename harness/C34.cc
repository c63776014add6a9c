#include "par.h"
// The parallel checker accepts a consistent distributed mesh and rejects one with a single inconsistent entity.
static void run(Case& c) {
  int np = 2 + c.s.draw(c.s.chance(1, 4) ? 7 : 3); PWorld Q; parWorld(c, Q, np, 1, {1, 1, 0, 2}); DWorld& W = Q.W; const RMesh& m = W.m; int D = m.topo; uint64_t seed = ((uint64_t)c.s.draw(1u << 30) << 30) | c.s.draw(1u << 30);
  int mut = c.s.draw(12), mrank = c.s.draw(np), ed = c.s.draw(D + 1); bool ghost = c.s.coin(); static const char* nm[] = {"none", "coordinates", "classification-id", "classification-dim", "global-id", "swapped-global-ids", "ptype", "master-self", "master-other", "owner-master", "owner-ptype", "repeated"};
  if (mut == 1) ed = 0; if (mut == 3 && ed == 3) ed = 2; if (mut == 5 && ed > 1) ed = 1;
  shim::Opt so = shim::draw(c); c.note("%s np %d ring %d %s parts %s mutation %s of dimension %d on rank %d %s", describe(m).c_str(), np, W.ring, Q.weave ? "woven" : "distributed", str(W.part).c_str(), nm[mut], ed, mrank, ghost ? "ghost" : "owner");
  std::vector<std::string> out;
  shim::run(c, np, so, [&](int rank, std::string& s) {
    Mesh_ptr my = parMesh(c, Q, rank); PMap P = parMap(c, W, my); int v = MESH_Parallel_Check(my, MPI_COMM_WORLD); REQ(c, v == 1, "rejects-valid", "rank %d rejects a mesh that was just %s", rank, Q.weave ? "woven" : "distributed");
    int did = 0; std::string what;
    if (rank == mrank && mut && mut != 11) {
      bool g = ghost; if (mut == 4 || mut == 5 || mut == 7 || mut == 8) g = true; if (mut == 9 || mut == 10) g = false;
      VI cand; for (int i = 0; i < P.x.n(ed); i++) { void* e = P.b.ent[ed][i]; int q = P.to[ed][i]; if (g ? MEnt_PType(e) == PGHOST : MEnt_PType(e) == POVERLAP) { bool other = g; if (!g) for (int r = 0; r < np; r++) other |= r != rank && Q.here[ed][r][q]; if (other || mut == 9) cand.push_back(i); } else if (mut == 9 && MEnt_PType(e) == PINTERIOR) cand.push_back(i); }
      if (!cand.empty()) { int i = cand[pbt::mix64(seed) % cand.size()], j = cand[pbt::mix64(seed + 1) % cand.size()]; void *e = P.b.ent[ed][i], *f = P.b.ent[ed][j]; did = 1; double x[3]; int k = -1;
        what = pbt::format("%s of entity %d/%d (%s)", nm[mut], ed, P.to[ed][i], g ? "ghost" : "owned");
        switch (mut) {
          case 1: MV_Coords(e, x); x[pbt::mix64(seed + 2) % 3] += 0.25; MV_Set_Coords(e, x); break;
          case 2: MEnt_Set_GEntID(e, MEnt_GEntID(e) + 1 + pbt::mix64(seed + 2) % 3); break;
          case 3: MEnt_Set_GEntDim(e, MEnt_GEntDim(e) == D ? D - 1 : MEnt_GEntDim(e) + 1); did = MEnt_GEntDim(e) != 4; break;
          case 4: MEnt_Set_GlobalID(e, 100000 + pbt::mix64(seed + 2) % 1000); break;
          case 5: if (i == j) did = 0; else { int a = MEnt_GlobalID(e), b = MEnt_GlobalID(f); MEnt_Set_GlobalID(e, b); MEnt_Set_GlobalID(f, a); } break;
          case 6: MEnt_Set_PType(e, g ? (pbt::mix64(seed + 2) % 2 ? POVERLAP : PINTERIOR) : PGHOST); break;
          case 7: MEnt_Set_MasterParID(e, rank); break;
          case 8: { VI o; for (int r = 0; r < np; r++) if (r != rank && r != MEnt_MasterParID(e) && MESH_Has_Ghosts_From_Prtn(my, r, (MType)ed)) o.push_back(r); if (o.empty()) did = 0; else MEnt_Set_MasterParID(e, k = o[pbt::mix64(seed + 2) % o.size()]); break; }
          case 9: MEnt_Set_MasterParID(e, (rank + 1 + pbt::mix64(seed + 2) % (np - 1)) % np); break;
          case 10: MEnt_Set_PType(e, PINTERIOR); break; } } }
    v = MESH_Parallel_Check(my, MPI_COMM_WORLD); int all = v; MPI_Allreduce(MPI_IN_PLACE, &all, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
    if (did) REQ(c, all == 0, "accepts-inconsistent", "no rank notices the changed %s on rank %d", what.c_str(), rank);
    int any = did; MPI_Allreduce(MPI_IN_PLACE, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); if (!any) REQ(c, v == 1, "rejects-valid", "rank %d rejects an unchanged mesh", rank);
    s = did ? nm[mut] : ""; MESH_Delete(my); }, out);
  c.nontrivial(); for (auto& s : out) if (!s.empty()) { c.label("changed-" + s); c.label(pbt::format("changed-dimension-%d", ed)); }
}
int main(int argc, char** argv) { static pbt::Property P = {"C34", "a distributed mesh of at least two ranks was checked, unchanged or with one changed entity", run, 3000, 60000}; return pbt::main_serial(argc, argv, P); }
