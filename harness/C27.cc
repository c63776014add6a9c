#include "parts.h"
// Splitting a mesh into submeshes with ghost layers, any element-to-part map.
static void run(Case& c) {
  GenOpt o; o.maxcells = 4 + c.size / 2; o.extras = false; o.materials = c.s.coin(); int np = 1 + c.s.draw(c.s.chance(1, 6) ? 12 : 5); DWorld W = genWorld(c, o, np); W.ring = c.s.pick(std::vector<int>{1, 1, 0, 2, 3}); W.rep = c.s.coin() ? F1 : F4; genFields(c, W, 4, 3);
  BM b = buildWorld(c, W); const RMesh& m = W.m; int D = m.topo; C = &c; WW = &W; BB = &b; rawPart = W.part; c.note("%s np %d ring %d parts %s", describe(m).c_str(), np, W.ring, str(W.part).c_str());
  if (c.s.chance(1, 4)) { for (int d = 0; d < 4; d++) { VI p = c.s.perm(m.n(d)); for (int i = 0; i < m.n(d); i++) MEnt_Set_GlobalID(b.ent[d][i], p[i] + 1); } c.label("given-global-ids"); }
  int rounds = c.s.chance(1, 4) ? 2 : 1; c.label(pbt::format("ring-%d", W.ring)); if (np > 8) c.label("more-than-8-parts"); if (rounds == 2) c.label("partitioned-twice");
  for (int round = 0; round < rounds; round++) {
    if (round) { np = 1 + c.s.draw(std::min(4, m.n(D))); genPart(c, W, np); rawPart = W.part; W.ring = c.s.draw(3); }
    int* part = nullptr; if (c.s.coin()) { called = false; REQ(c, MESH_PartitionWithMetis(b.m, np, &part) == 1 && called && part, "return", "MESH_PartitionWithMetis failed"); c.label("through-partitioner"); } else { part = (int*)malloc(m.n(D) * sizeof(int)); int idx = 0, k = 0; void* e; while ((e = nextEnt(b.m, D, &idx))) part[k++] = W.part[b.find(D, e)]; }
    { int idx = 0, k = 0; void* e; while ((e = nextEnt(b.m, D, &idx))) { REQ(c, part[k] == W.part[b.find(D, e)], "partition", "part of cell %d is %d, the partitioner said %d", k, part[k], W.part[b.find(D, e)]); k++; } }
    MAttrib_ptr g2l = MAttrib_New(b.m, "Global2Local", POINTER, MALLTYPE); std::vector<Mesh_ptr> sub(np, nullptr);
    REQ(c, MESH_Partition(b.m, np, part, sub.data()) == 1, "return", "MESH_Partition failed");
    for (int i = 0; i < np; i++) { MESH_BuildPBoundary(b.m, sub[i]); MESH_AddGhost(b.m, sub[i], i, W.ring); }
    for (auto& a : W.atts) MESH_CopyAttr(b.m, np, sub.data(), a.name.c_str());
    for (auto& s : W.sets) REQ(c, MESH_CopySet(b.m, np, sub.data(), MESH_MSetByName(b.m, s.name.c_str())) == 1, "return", "MESH_CopySet failed");
    std::vector<DRank> R; for (int i = 0; i < np; i++) { MESH_Build_GhostLists(sub[i], D); std::string s; packRank(c, W, sub[i], true, true, s); R.push_back(unpackRank(W, s, true, true)); }
    DistOpt d; d.adj = false; checkDist(c, W, R, d); if (np > 1 && W.ring) c.nontrivial();
    checkAdjacency(c, b, m, "original", 1); checkOrientation(c, b, m, "original"); checkCoords(c, b, m, "original"); checkClassifn(c, b, m, "original");
    for (auto& a : W.atts) { MAttrib_ptr q = MESH_AttribByName(b.m, a.name.c_str()); for (auto& x : a.val) REQ(c, attVal(b.ent[x.first.first][x.first.second], q, a.t, a.nc) == x.second, "original-attribute", "%s of the original changed", a.name.c_str()); }
    // clean up as the distribution does
    for (int d2 = 0; d2 < 4; d2++) for (void* e : b.ent[d2]) { int iv; double rv; List_ptr l = nullptr; MEnt_Get_AttVal(e, g2l, &iv, &rv, &l); if (l) { List_Delete(l); MEnt_Set_AttVal(e, g2l, 0, 0.0, NULL); } }
    MAttrib_Delete(g2l); VI ord = c.s.perm(np); bool first = round == rounds - 1 && c.s.coin(); if (first) MESH_Delete(b.m); for (int i : ord) MESH_Delete(sub[i]); if (!first && round == rounds - 1) MESH_Delete(b.m); free(part);
  }
}
int main(int argc, char** argv) { static pbt::Property P = {"C27", "a mesh was split into at least two parts with at least one ghost layer", run, 3000, 60000}; return pbt::main_serial(argc, argv, P); }
