#include "par.h"
// Deleting and restoring entities of a distributed mesh, with lookups, renumbering and updates in between.
struct Op { int kind, rank, keep, clean, prob; };   // 0: elements deleted on all ranks, 1: ghosts of one rank deleted, 2: restore, 3: update attributes, 4: coordinates, 5: look up, 6: renumber, 7: gather-scatter
static uint64_t h(uint64_t s, std::initializer_list<int> l) { for (int v : l) s = pbt::mix64(s ^ (uint64_t)(v + 0x1234567)); return s; }
static void del(int d, void* e, int keep) { if (d == 0) MV_Delete(e, keep); else if (d == 1) ME_Delete(e, keep); else if (d == 2) MF_Delete(e, keep); else MR_Delete(e, keep); }
static void restore(int d, void* e) { if (d == 0) MV_Restore(e); else if (d == 1) ME_Restore(e); else if (d == 2) MF_Restore(e); else MR_Restore(e); }
static int num(Mesh_ptr m, int d) { return d == 0 ? MESH_Num_Vertices(m) : d == 1 ? MESH_Num_Edges(m) : d == 2 ? MESH_Num_Faces(m) : MESH_Num_Regions(m); }
static int numG(Mesh_ptr m, int d) { return d == 0 ? MESH_Num_GhostVertices(m) : d == 1 ? MESH_Num_GhostEdges(m) : d == 2 ? MESH_Num_GhostFaces(m) : MESH_Num_GhostRegions(m); }
static int numO(Mesh_ptr m, int d) { return d == 0 ? MESH_Num_OverlapVertices(m) : d == 1 ? MESH_Num_OverlapEdges(m) : d == 2 ? MESH_Num_OverlapFaces(m) : MESH_Num_OverlapRegions(m); }
static void* ghost(Mesh_ptr m, int d, int i) { return d == 0 ? (void*)MESH_GhostVertex(m, i) : d == 1 ? (void*)MESH_GhostEdge(m, i) : d == 2 ? (void*)MESH_GhostFace(m, i) : (void*)MESH_GhostRegion(m, i); }
static void* overlap(Mesh_ptr m, int d, int i) { return d == 0 ? (void*)MESH_OverlapVertex(m, i) : d == 1 ? (void*)MESH_OverlapEdge(m, i) : d == 2 ? (void*)MESH_OverlapFace(m, i) : (void*)MESH_OverlapRegion(m, i); }
static void* nextG(Mesh_ptr m, int d, int* x) { return d == 0 ? (void*)MESH_Next_GhostVertex(m, x) : d == 1 ? (void*)MESH_Next_GhostEdge(m, x) : d == 2 ? (void*)MESH_Next_GhostFace(m, x) : (void*)MESH_Next_GhostRegion(m, x); }
static void* nextO(Mesh_ptr m, int d, int* x) { return d == 0 ? (void*)MESH_Next_OverlapVertex(m, x) : d == 1 ? (void*)MESH_Next_OverlapEdge(m, x) : d == 2 ? (void*)MESH_Next_OverlapFace(m, x) : (void*)MESH_Next_OverlapRegion(m, x); }
static void run(Case& c) {
  int np = 1 + c.s.draw(c.s.chance(1, 4) ? 8 : 4); PWorld Q; parWorld(c, Q, np, 0, {1, 1, 0, 2}); DWorld& W = Q.W; const RMesh& m = W.m; int D = m.topo; uint64_t seed = ((uint64_t)c.s.draw(1u << 30) << 30) | c.s.draw(1u << 30);
  std::vector<Op> ops; int n = 1 + c.s.draw(9), kept = 0, dels = 0; static const char* nm[] = {"op-delete-everywhere", "op-delete-ghosts", "op-restore", "op-update", "op-coordinates", "op-search", "op-renumber", "op-gather-scatter"};
  for (int t = 0; t < n; t++) { Op o; o.kind = c.s.pick(VI{0, 0, 1, 1, 2, 2, 2, 3, 4, 5, 6, 7}); o.rank = c.s.draw(np); o.keep = c.s.chance(2, 3); o.clean = c.s.chance(2, 3); o.prob = 1 + c.s.draw(6); if (o.kind == 2 && !kept) o.kind = c.s.draw(2); if (o.kind < 2) { if (o.keep) kept++; else kept = 0; dels++; c.label(o.keep ? "keep" : "no-keep"); } if (o.kind == 2) kept--; if (o.kind == 6) kept = 0; c.label(nm[o.kind]); ops.push_back(o); }
  ops.push_back({3, 0, 0, 0, 0}); ops.push_back({5, 0, 0, 0, 0});
  shim::Opt so = shim::draw(c); c.note("%s np %d ring %d %s rep %d parts %s", describe(m).c_str(), np, W.ring, Q.weave ? "woven" : "distributed", (int)W.rep, str(W.part).c_str()); for (auto& o : ops) c.note("%s rank %d keep %d clean %d probability 1/%d", nm[o.kind], o.rank, o.keep, o.clean, o.prob);
  std::vector<std::string> out;
  shim::run(c, np, so, [&](int rank, std::string& s) {
    Mesh_ptr my = parMesh(c, Q, rank); PMap P = parMap(c, W, my); VI owner[4]; std::vector<std::vector<char>> live[4]; std::map<void*, int> at[4]; VI gid[4], pt[4]; int gone = 0;
    for (int d = 0; d < 4; d++) { owner[d].assign(m.n(d), -1); gid[d].assign(P.x.n(d), 0); pt[d] = gid[d]; for (int i = 0; i < P.x.n(d); i++) { void* e = P.b.ent[d][i]; owner[d][P.to[d][i]] = MEnt_MasterParID(e); gid[d][i] = MEnt_GlobalID(e); pt[d][i] = MEnt_PType(e); at[d][e] = i; } if (m.n(d)) MPI_Allreduce(MPI_IN_PLACE, owner[d].data(), m.n(d), MPI_INT, MPI_MAX, MPI_COMM_WORLD); live[d].resize(np); for (int r = 0; r < np; r++) live[d][r] = Q.here[d][r]; }
    typedef std::vector<std::vector<std::pair<int, int>>> Gone; std::vector<Gone> stack;   // per kept deletion: what each rank deleted, in order
    auto alive = [&](int d, int i) { return (bool)live[d][rank][P.to[d][i]]; };
    auto check = [&](int step, const char* what) {
      for (int d = 0; d < 4; d++) { std::set<void*> w, g, o, z; for (int i = 0; i < P.x.n(d); i++) if (alive(d, i)) { w.insert(P.b.ent[d][i]); if (pt[d][i] == PGHOST) g.insert(P.b.ent[d][i]); if (pt[d][i] == POVERLAP) o.insert(P.b.ent[d][i]); }
        REQ(c, num(my, d) == (int)w.size(), "count", "rank %d after step %d (%s): the mesh counts %d entities of dimension %d, expected %zu", rank, step, what, num(my, d), d, w.size());
        int x = 0; void* e; while ((e = nextEnt(my, d, &x))) { REQ(c, w.count(e), "iteration", "rank %d after step %d (%s): the mesh lists an entity of dimension %d that is deleted", rank, step, what, d); REQ(c, z.insert(e).second, "iteration", "rank %d after step %d (%s): the mesh lists an entity of dimension %d twice", rank, step, what, d); } REQ(c, z == w, "iteration", "rank %d after step %d (%s): the mesh does not list an entity of dimension %d", rank, step, what, d);
        for (int k = 0; k < 2; k++) { auto& v = k ? o : g; const char* t = k ? "overlap" : "ghost"; z.clear(); x = 0; int cn = k ? numO(my, d) : numG(my, d); REQ(c, cn == (int)v.size(), "list-count", "rank %d after step %d (%s): %d %s entities of dimension %d, expected %zu", rank, step, what, cn, t, d, v.size());
          while ((e = k ? nextO(my, d, &x) : nextG(my, d, &x))) { REQ(c, v.count(e), "list", "rank %d after step %d (%s): the %s list of dimension %d holds another entity", rank, step, what, t, d); REQ(c, z.insert(e).second, "list", "rank %d after step %d (%s): the %s list of dimension %d holds an entity twice", rank, step, what, t, d); } REQ(c, z == v, "list", "rank %d after step %d (%s): the %s list of dimension %d lacks an entity", rank, step, what, t, d);
          z.clear(); for (int i = 0; i < cn; i++) { e = k ? overlap(my, d, i) : ghost(my, d, i); REQ(c, v.count(e) && z.insert(e).second, "list-index", "rank %d after step %d (%s): entry %d of the %s entities of dimension %d is wrong", rank, step, what, i, t, d); } }
        for (int i = 0; i < P.x.n(d); i++) if (alive(d, i)) { void* q = P.b.ent[d][i]; REQ(c, (int)MEnt_GlobalID(q) == gid[d][i] && (int)MEnt_PType(q) == pt[d][i] && (int)MEnt_MasterParID(q) == owner[d][P.to[d][i]] && (int)MEnt_Dim(q) == d, "identity", "rank %d after step %d (%s): entity %d/%d changed its global ID, owner or type", rank, step, what, d, P.to[d][i]); } }
      BM b; RMesh x = extract(c, my, b); x.buildUp(); checkAdjacency(c, b, x, "mesh of a rank", 1); checkDatabase(c, b, "mesh of a rank");
      auto orig = [&](int d, int i) { return at[d][b.ent[d][i]]; };
      for (int d = 1; d < 4; d++) for (int i = 0; i < x.n(d); i++) { int q = orig(d, i); bool ok = true; if (d == 1) ok = orig(0, x.E[i][0]) == P.x.E[q][0] && orig(0, x.E[i][1]) == P.x.E[q][1]; if (d == 2) { VI v; for (int k : x.F[i].v) v.push_back(orig(0, k)); ok = sameCycle(v, P.x.F[q].v, false); } if (d == 3) { std::map<int, int> f, w; for (size_t k = 0; k < x.R[i].f.size(); k++) f[orig(2, x.R[i].f[k])] = x.R[i].d[k]; for (size_t k = 0; k < P.x.R[q].f.size(); k++) w[P.x.R[q].f[k]] = P.x.R[q].d[k]; ok = f == w; } REQ(c, ok, "definition", "rank %d after step %d (%s): entity %d/%d has another boundary than before", rank, step, what, d, P.to[d][q]); } };
    check(-1, "start"); int step = 0; bool enabled = false;
    for (auto& o : ops) {
      if (o.kind < 2) {
        Gone G(np); for (int r = 0; r < np; r++) for (int q = 0; q < m.n(D); q++) if (live[D][r][q]) { bool x = o.kind == 0 ? h(seed, {step, 1, q}) % o.prob == 0 && o.prob > 1 : r == o.rank && owner[D][q] != r && h(seed, {step, 2, q}) % o.prob == 0; if (x) { live[D][r][q] = 0; G[r].push_back({D, q}); } }
        if (o.clean) for (int d = D - 1; d >= 0; d--) {
          std::vector<std::vector<char>> used(np, std::vector<char>(m.n(d), 0)); for (int r = 0; r < np; r++) { if (d == 2) { for (int i = 0; i < m.n(3); i++) if (live[3][r][i]) for (int f : m.R[i].f) used[r][f] = 1; } else if (d == 1) { for (int i = 0; i < m.n(2); i++) if (live[2][r][i]) for (int e : m.F[i].e) used[r][e] = 1; } else for (int i = 0; i < m.n(1); i++) if (live[1][r][i]) for (int k = 0; k < 2; k++) used[r][m.E[i][k]] = 1; }
          for (int pass = 0; pass < 2; pass++) for (int r = 0; r < np; r++) for (int q = 0; q < m.n(d); q++) if (live[d][r][q] && !used[r][q] && (owner[d][q] == r) == pass) { bool other = false; if (pass) for (int t = 0; t < np; t++) other |= t != r && live[d][t][q]; if (o.kind == 1 && r != o.rank) continue; if (!other) { live[d][r][q] = 0; G[r].push_back({d, q}); } } }
        // within one dimension in any order
        auto key = [&](std::pair<int, int> a) { return std::make_pair(-a.first, h(seed, {step, 5, a.second})); }; for (auto& g : G) std::sort(g.begin(), g.end(), [&](auto a, auto b) { return key(a) < key(b); });
        for (auto& p : G[rank]) { int i = P.from[p.first][p.second]; del(p.first, P.b.ent[p.first][i], o.keep); gone++; }
        if (o.keep) stack.push_back(G); else stack.clear(); }
      if (o.kind == 2 && !stack.empty()) { Gone G = stack.back(); stack.pop_back(); for (int r = 0; r < np; r++) for (auto& p : G[r]) live[p.first][r][p.second] = 1; std::vector<std::pair<int, int>> l = G[rank]; if (o.prob % 2) std::reverse(l.begin(), l.end()); else std::stable_sort(l.begin(), l.end(), [](auto a, auto b) { return a.first < b.first; }); for (auto& p : l) restore(p.first, P.b.ent[p.first][P.from[p.first][p.second]]); }
      if (o.kind == 3 || o.kind == 7) for (int d = 0; d <= D; d++) {
        MAttrib_ptr a = MAttrib_New(my, "number", INT, (MType)d); for (int i = 0; i < P.x.n(d); i++) if (alive(d, i)) MEnt_Set_AttVal(P.b.ent[d][i], a, rank * 1000000 + P.to[d][i] + 1, 0, nullptr);
        if (o.kind == 3) MESH_Update1Attribute(my, a, MPI_COMM_WORLD); else MESH_GathScat1Attribute(my, a, ATTOP_MAX, MPI_COMM_WORLD);
        if (np > 1) for (int i = 0; i < P.x.n(d); i++) if (alive(d, i)) { int q = P.to[d][i], v = 0, who = owner[d][q]; double rv; void* pv; MEnt_Get_AttVal(P.b.ent[d][i], a, &v, &rv, &pv); if (o.kind == 7) for (int r = 0; r < np; r++) if (live[d][r][q]) who = std::max(who, r); int w = who * 1000000 + q + 1; REQ(c, v == w, o.kind == 3 ? "update" : "gather-scatter", "rank %d step %d: entity %d/%d (owner %d) has value %d, expected %d", rank, step, d, q, owner[d][q], v, w); }
        MAttrib_Delete(a); }
      if (o.kind == 4) { for (int i = 0; i < P.x.n(0); i++) if (alive(0, i)) { double x[3]; for (int k = 0; k < 3; k++) x[k] = h(seed, {step, 9, rank, P.to[0][i], k}) % 1000 / 8.0; MV_Set_Coords(P.b.ent[0][i], x); } MESH_UpdateVertexCoords(my, MPI_COMM_WORLD); if (np > 1) for (int i = 0; i < P.x.n(0); i++) if (alive(0, i)) { double x[3]; MV_Coords(P.b.ent[0][i], x); for (int k = 0; k < 3; k++) REQ(c, x[k] == h(seed, {step, 9, owner[0][P.to[0][i]], P.to[0][i], k}) % 1000 / 8.0, "coordinates", "rank %d step %d: vertex %d does not have its owner's coordinates", rank, step, P.to[0][i]); } }
      auto search = [&]() { for (int d = 0; d <= D; d++) { int mx = 0; std::map<int, void*> by; for (int i = 0; i < P.x.n(d); i++) { mx = std::max(mx, gid[d][i]); if (alive(d, i)) by[gid[d][i]] = P.b.ent[d][i]; } for (int id = -1; id <= mx + 1; id++) { void* e = MESH_EntityFromGlobalID(my, (MType)d, id); auto it = by.find(id); void* w = it == by.end() ? nullptr : it->second; REQ(c, e == w, "lookup", "rank %d step %d: global ID %d of dimension %d finds %s", rank, step, id, d, !e ? "nothing although an entity has it" : !w ? "an entity although none has it" : "another entity"); } } };
      if (o.kind == 5) { MESH_Enable_GlobalIDSearch(my); search(); enabled = o.prob % 2; if (!enabled) MESH_Disable_GlobalIDSearch(my); }
      if (o.kind == 6) { stack.clear(); REQ(c, MESH_Renumber_GlobalIDs(my, MALLTYPE, 0, nullptr, MPI_COMM_WORLD) == 1, "return", "MESH_Renumber_GlobalIDs failed");
        for (int d = 0; d <= D; d++) { VI g(m.n(d), 0); for (int i = 0; i < P.x.n(d); i++) if (alive(d, i)) { gid[d][i] = MEnt_GlobalID(P.b.ent[d][i]); if (owner[d][P.to[d][i]] == rank) g[P.to[d][i]] = gid[d][i]; } if (m.n(d)) MPI_Allreduce(MPI_IN_PLACE, g.data(), m.n(d), MPI_INT, MPI_MAX, MPI_COMM_WORLD);
          VI l; for (int q = 0; q < m.n(d); q++) { bool x = false; for (int r = 0; r < np; r++) x |= live[d][r][q]; if (x) l.push_back(g[q]); } std::sort(l.begin(), l.end()); for (size_t k = 0; k < l.size(); k++) REQ(c, l[k] == (int)k + 1, "renumber", "step %d: global IDs of dimension %d are not 1 to %zu", step, d, l.size()); for (int i = 0; i < P.x.n(d); i++) if (alive(d, i)) REQ(c, gid[d][i] == g[P.to[d][i]], "renumber", "rank %d step %d: entity %d/%d has global ID %d, on its owner %d", rank, step, d, P.to[d][i], gid[d][i], g[P.to[d][i]]); }
        if (enabled) search(); }   // renumbering brings enabled look-ups up to date
      check(step, nm[o.kind]); step++; }
    MESH_Delete(my); Pack U{s}; U.i(gone); }, out);
  int gone = 0; for (auto& s : out) { Unpack U{s}; gone += U.i(); } c.label(gone ? "deleted-something" : "deleted-nothing"); if (np > 1 && dels && gone) c.nontrivial();
}
int main(int argc, char** argv) { static pbt::Property P = {"C36", "entities of a distributed mesh of at least two ranks were deleted", run, 3000, 60000}; return pbt::main_serial(argc, argv, P); }
