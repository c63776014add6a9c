#include "par.h"
// Renumbering of global IDs and lookup by global ID.
struct Op { int kind, mt; };   // 0: renumber, 1: look up everything, 2: enable, 3: disable, 4: add a vertex, 5: remove it again, 6: update an attribute
static void run(Case& c) {
  int np = 1 + c.s.draw(c.s.chance(1, 4) ? 8 : 4); PWorld Q; parWorld(c, Q, np, 1, {1, 1, 0, 2}); DWorld& W = Q.W; const RMesh& m = W.m; int D = m.topo;
  std::vector<Op> ops; int n = 1 + c.s.draw(6); static const char* nm[] = {"op-renumber", "op-search", "op-enable", "op-disable", "op-add", "op-remove", "op-update"}; static const MType mts[] = {MVERTEX, MEDGE, MFACE, MREGION, MALLTYPE};
  int extra = 0, last = 0; for (int t = 0; t < n; t++) { Op o; o.kind = c.s.pick(VI{0, 0, 1, 2, 3, 4, 5, 6}); o.mt = mts[c.s.draw(5)]; if (o.mt == MREGION && D < 3) o.mt = MALLTYPE; if (o.kind == 5 && !extra) o.kind = 4; if (o.kind == 4) extra++; if (o.kind == 5) extra--; if (o.kind == 0) last++; c.label(nm[o.kind]); if (o.kind == 0) c.label(pbt::format("renumber-%d", o.mt)); ops.push_back(o); }
  shim::Opt so = shim::draw(c); c.note("%s np %d ring %d %s parts %s", describe(m).c_str(), np, W.ring, Q.weave ? "woven" : "distributed", str(W.part).c_str()); for (auto& o : ops) c.note("op %d type %d", o.kind, o.mt);
  // what each rank reports: dimension, model entity, owner, global ID after each renumbering
  struct Rec { int step, d, q, own, gid; }; std::vector<std::string> out;
  shim::run(c, np, so, [&](int rank, std::string& s) {
    Mesh_ptr my = parMesh(c, Q, rank); PMap P = parMap(c, W, my); VI g[4]; bool on = false; std::vector<void*> add; std::vector<int> addg; int nx = 0; auto ask = [&](bool re) { if (re) { MESH_Enable_GlobalIDSearch(my); on = true; }
      for (int d = 0; d < 4; d++) { std::map<int, void*> by; int mx = 0; for (int i = 0; i < P.x.n(d); i++) { by[g[d][i]] = P.b.ent[d][i]; mx = std::max(mx, g[d][i]); } if (d == 0) for (size_t k = 0; k < add.size(); k++) by[addg[k]] = add[k];
        VI ids; for (int i = -1; i <= mx + 2; i++) ids.push_back(i); for (int v : addg) ids.push_back(v); ids.push_back(2000000000);
        for (int id : ids) { void* e = d == 0 ? (void*)MESH_VertexFromGlobalID(my, id) : d == 1 ? (void*)MESH_EdgeFromGlobalID(my, id) : d == 2 ? (void*)MESH_FaceFromGlobalID(my, id) : (void*)MESH_RegionFromGlobalID(my, id); auto it = by.find(id); void* w = it == by.end() ? nullptr : it->second; REQ(c, e == w, "lookup", "rank %d: looking up global ID %d of dimension %d gives %s", rank, id, d, !e ? "nothing although an entity has it" : !w ? "an entity although none has it" : "another entity"); e = MESH_EntityFromGlobalID(my, (MType)d, id); REQ(c, e == w, "lookup", "rank %d: MESH_EntityFromGlobalID(%d, %d) differs from the lookup by type", rank, d, id); } } };
    auto rec = [&](int step) { for (int d = 0; d < 4; d++) for (int i = 0; i < P.x.n(d); i++) { void* e = P.b.ent[d][i]; Rec r = {step, d, P.to[d][i], (int)MEnt_MasterParID(e), (int)MEnt_GlobalID(e)}; s.append((char*)&r, sizeof r); } };
    for (int d = 0; d < 4; d++) for (int i = 0; i < P.x.n(d); i++) g[d].push_back(MEnt_GlobalID(P.b.ent[d][i])); rec(0); int step = 0;
    for (auto& o : ops) {
      if (o.kind == 0) { if (!add.empty()) { for (void* v : add) MV_Delete(v, 0); add.clear(); addg.clear(); } VI own[4]; if (on) MESH_Enable_GlobalIDSearch(my);
        REQ(c, MESH_Renumber_GlobalIDs(my, (MType)o.mt, 0, nullptr, MPI_COMM_WORLD) == 1, "return", "MESH_Renumber_GlobalIDs failed"); step++;
        for (int d = 0; d < 4; d++) for (int i = 0; i < P.x.n(d); i++) { int z = MEnt_GlobalID(P.b.ent[d][i]); if (o.mt != MALLTYPE && o.mt != d) REQ(c, z == g[d][i], "renumber-other", "rank %d: renumbering type %d changed a global ID of dimension %d", rank, o.mt, d); g[d][i] = z; if (MEnt_PType(P.b.ent[d][i]) != PGHOST) own[d].push_back(z); }
        for (int d = 0; d < 4; d++) if (o.mt == MALLTYPE || o.mt == d) { std::sort(own[d].begin(), own[d].end()); for (size_t k = 1; k < own[d].size(); k++) REQ(c, own[d][k] == own[d][k - 1] + 1, "renumber-contiguous", "rank %d: renumbered global IDs of dimension %d of owned entities have a gap at %d", rank, d, own[d][k]); }
        int z = -1, k = 0; void* e; for (int d = 0; d < 4; d++) { z = -1; k = 0; int ng = d == 0 ? MESH_Num_GhostVertices(my) : d == 1 ? MESH_Num_GhostEdges(my) : d == 2 ? MESH_Num_GhostFaces(my) : MESH_Num_GhostRegions(my); while (k < ng && (e = d == 0 ? (void*)MESH_GhostVertex(my, k) : d == 1 ? (void*)MESH_GhostEdge(my, k) : d == 2 ? (void*)MESH_GhostFace(my, k) : (void*)MESH_GhostRegion(my, k))) { REQ(c, (int)MEnt_GlobalID(e) > z, "ghost-order", "rank %d: ghosts of dimension %d are not in order of their global IDs", rank, d); z = MEnt_GlobalID(e); k++; } }
        rec(step); if (on) ask(false); REQ(c, np == 1 || MESH_Parallel_Check(my, MPI_COMM_WORLD) == 1, "parallel-check", "MESH_Parallel_Check rejects the renumbered mesh"); }
      if (o.kind == 1) ask(true);
      if (o.kind == 2) { MESH_Enable_GlobalIDSearch(my); on = true; } if (o.kind == 3) { MESH_Disable_GlobalIDSearch(my); on = false; }
      if (o.kind == 4) { void* v = MV_New(my); int id = 1000000 + 100 * rank + 7 * (nx % 5) + nx; nx++; MEnt_Set_GlobalID(v, id); double x[3] = {0, 0, 0}; MV_Set_Coords(v, x); add.push_back(v); addg.push_back(id); if (on) ask(true); }
      if (o.kind == 5 && !add.empty()) { MV_Delete(add.back(), 0); add.pop_back(); addg.pop_back(); if (on) ask(true); }
      if (o.kind == 6) { MAttrib_ptr a = MAttrib_New(my, "owner's number", INT, MALLTYPE); MAttrib_Delete(a); for (int d = 0; d <= D; d++) { a = MAttrib_New(my, "number", INT, (MType)d); for (int i = 0; i < P.x.n(d); i++) MEnt_Set_AttVal(P.b.ent[d][i], a, rank * 100000 + P.to[d][i] + 1, 0, nullptr); MESH_Update1Attribute(my, a, MPI_COMM_WORLD);
          for (int i = 0; i < P.x.n(d); i++) { int v = 0; double rv; void* pv; MEnt_Get_AttVal(P.b.ent[d][i], a, &v, &rv, &pv); int w = (int)MEnt_MasterParID(P.b.ent[d][i]) * 100000 + P.to[d][i] + 1; if (np > 1) REQ(c, v == w, "update", "rank %d: entity %d/%d has value %d, its owner has %d", rank, d, P.to[d][i], v, w); } MAttrib_Delete(a); } } }
    if (on) ask(true); MESH_Delete(my); }, out);
  VI ren[4]; { int st = 0; for (int d = 0; d < 4; d++) ren[d].push_back(1); for (auto& o : ops) if (o.kind == 0) { st++; for (int d = 0; d < 4; d++) ren[d].push_back(o.mt == MALLTYPE || o.mt == d); } }
  std::map<std::array<int, 3>, int> gid; for (int r = 0; r < np; r++) for (size_t k = 0; k + sizeof(Rec) <= out[r].size(); k += sizeof(Rec)) { Rec q; memcpy(&q, &out[r][k], sizeof q); auto it = gid.emplace(std::array<int, 3>{q.step, q.d, q.q}, q.gid); REQ(c, it.first->second == q.gid, "renumber-copies", "after %d renumberings, entity %d/%d has global ID %d on rank %d and %d elsewhere", q.step, q.d, q.q, q.gid, r, it.first->second); }
  for (int st = 0; st <= last; st++) for (int d = 0; d <= D; d++) if (ren[d][st]) { VI v; for (int i = 0; i < m.n(d); i++) { auto it = gid.find({st, d, i}); if (it != gid.end()) v.push_back(it->second); } std::sort(v.begin(), v.end()); for (size_t k = 0; k < v.size(); k++) REQ(c, v[k] == (int)k + 1, "renumber-range", "after %d renumberings, global IDs of dimension %d are not 1 to %zu", st, d, v.size()); }
  if (np > 1 && last) c.nontrivial();
}
int main(int argc, char** argv) { static pbt::Property P = {"C31", "a distributed mesh of at least two ranks was renumbered", run, 3000, 60000}; return pbt::main_serial(argc, argv, P); }
