#include "rmesh.h"
extern "C" void MESH_Reset_Cached_MaxIDs(Mesh_ptr);
// Renumbering changes nothing but local IDs, which become 1..n.
// which entities of dimension d the ordering brings together: those of a common element (elements: those of a common vertex)
static std::vector<VI> graph(const RMesh& m, int d) {
  int T = m.n(3) ? 3 : 2; std::vector<std::set<int>> g(m.n(d)); auto clique = [&](const VI& v) { for (int a : v) for (int b : v) if (a != b) g[a].insert(b); };
  if (d == T) { std::vector<VI> by(m.n(0)); for (int i = 0; i < m.n(T); i++) for (int v : m.vertsOf(T, i)) by[v].push_back(i); for (auto& v : by) clique(v); }
  else if (d < T) for (int i = 0; i < m.n(T); i++) { if (d == 0) clique(m.vertsOf(T, i)); else if (T == 2) clique(m.F[i].e); else if (d == 2) clique(m.R[i].f); else { std::set<int> e; for (int f : m.R[i].f) e.insert(m.F[f].e.begin(), m.F[f].e.end()); clique(VI(e.begin(), e.end())); } }
  std::vector<VI> r; for (auto& x : g) r.push_back(VI(x.begin(), x.end())); return r;
}
static std::pair<int, double> band(const std::vector<VI>& g, const VI& id) { int mx = 0; double s = 0, n = 0; for (size_t i = 0; i < g.size(); i++) for (int k : g[i]) { int d = std::abs(id[i] - id[k]); mx = std::max(mx, d); s += d; n++; } return {mx, n ? s / n : 0}; }
static RMesh strip(Case& c, const GenOpt& o) {   // long and thin, in random order
  Soup s; s.topo = c.s.coin() ? 2 : 3; int L = 18 + c.s.draw(20), k = s.topo == 2 ? 1 + c.s.draw(2) : 1, nz = s.topo == 3; bool tri = c.s.coin();
  for (int z = 0; z <= nz; z++) for (int j = 0; j <= k; j++) for (int i = 0; i <= L; i++) s.X.push_back({(double)i, (double)j, (double)z}); auto id = [&](int i, int j, int z) { return (z * (k + 1) + j) * (L + 1) + i; };
  for (int j = 0; j < k; j++) for (int i = 0; i < L; i++) { VI q = {id(i, j, 0), id(i + 1, j, 0), id(i + 1, j + 1, 0), id(i, j + 1, 0)}; std::vector<VI> fs = {q}; if (tri && c.s.coin()) fs = {{q[0], q[1], q[2]}, {q[0], q[2], q[3]}};
      for (auto& f : fs) if (s.topo == 2) { s.F.push_back(f); s.Freg.push_back(1); } else { Cell w; w.type = f.size() == 4 ? HEX : PRISM; w.v = f; for (int v : f) w.v.push_back(v + (k + 1) * (L + 1)); s.C.push_back(w); } }
  return assemble(c, s, o);
}
static void run(Case& c) {
  GenOpt o; o.maxcells = 4 + c.size / 3; o.extras = c.s.chance(1, 4); bool thin = c.s.chance(1, 6); if (thin) { o.extras = false; c.label("strip"); } RMesh m = thin ? strip(c, o) : genMesh(c, o); RepType rep = c.s.coin() ? F4 : F1;
  bool gaps = c.s.chance(1, 2), disc = !thin && c.s.chance(1, 4);
  if (disc) {  // a second, translated copy of the mesh: disconnected adjacency graphs
    int n0 = m.n(0), n1 = m.n(1), n2 = m.n(2), n3 = m.n(3);
    for (int i = 0; i < n0; i++) m.X.push_back(m.X[i] + V3{100, 50, 30});
    for (int i = 0; i < n1; i++) m.E.push_back({m.E[i][0] + n0, m.E[i][1] + n0});
    for (int i = 0; i < n2; i++) { RFace F = m.F[i]; for (int& k : F.v) k += n0; for (int& k : F.e) k += n1; m.F.push_back(F); }
    for (int i = 0; i < n3; i++) { RReg R = m.R[i]; for (int& k : R.f) k += n2; for (int& k : R.sv) k += n0; m.R.push_back(R); }
    for (int d = 0; d < 4; d++) { VI a = m.gd[d], b = m.gi[d]; m.gd[d].insert(m.gd[d].end(), a.begin(), a.end()); m.gi[d].insert(m.gi[d].end(), b.begin(), b.end()); }
    m.upok = false; m.derive(); c.label("disconnected");
  }
  BM b = build(c, m, rep, EXPLICIT);
  // gaps: extra entities created among the others and deleted again
  if (gaps) {
    if (c.s.coin()) { std::vector<void*> junk; for (int k = 1 + c.s.draw(5); k > 0; k--) { MVertex_ptr v = MV_New(b.m); double x[3] = {5, 5, 5}; MV_Set_Coords(v, x); junk.push_back(v); } for (void* v : junk) MV_Delete(v, 0); }
    for (int d = m.topo; d >= 0; d--) {
      // shift local IDs: a permuted, gapped but distinct numbering
      if (c.s.coin()) continue;
      VI p = c.s.perm(m.n(d)); int id = 0; VI ids; for (int i = 0; i < m.n(d); i++) { id += 1 + (c.s.chance(1, 3) ? c.s.draw(4) : 0); ids.push_back(id); }
      for (int i = 0; i < m.n(d); i++) MEnt_Set_ID(b.ent[d][i], ids[p[i]]);
    }
    MESH_Reset_Cached_MaxIDs(b.m); c.label("gaps");
  }
  MAttrib_ptr at = MAttrib_New(b.m, "serial", INT, MALLTYPE), av = MAttrib_New(b.m, "vec", VECTOR, MVERTEX, 2);
  for (int d = 0; d < 4; d++) for (int i = 0; i < m.n(d); i++) { MEnt_Set_IntAttVal(b.ent[d][i], at, 1 + i * 4 + d); if (d == 0) { double v[2] = {(double)i, -2.0 * i}; MEnt_Set_VecAttVal(b.ent[0][i], av, v); } }
  MSet_ptr st = MSet_New(b.m, "set", MVERTEX); int nset = 0; for (int i = 0; i < m.n(0); i++) if (i % 2) { MSet_Add(st, b.ent[0][i]); nset++; }
  int reps = 1 + c.s.draw(3);
  VI id[4]; auto read = [&]() { for (int d = 0; d < 4; d++) { id[d].clear(); for (void* p : b.ent[d]) id[d].push_back(MEnt_ID(p)); } };
  read(); int nontriv = 0;
  for (int k = 0; k < reps; k++) {
    int type = c.s.chance(2, 3) ? 1 : 0; int mts[] = {MALLTYPE, MVERTEX, MEDGE, MFACE, MREGION}; int mt = mts[c.s.draw(5)];
    if (c.s.chance(1, 4) && k) {   // change the mesh in between: the entities added last are first removed again
      MVertex_ptr v = MV_New(b.m); double x[3] = {-7, -7, -7}; MV_Set_Coords(v, x); for (int i = 0; i < m.n(0); i++) REQ(c, MV_ID(v) != MEnt_ID(b.ent[0][i]), "new-id", "a vertex made after renumbering got the ID %d of another", MV_ID(v)); MV_Delete(v, 0);
    }
    VI old[4]; for (int d = 0; d < 4; d++) old[d] = id[d];
    c.note("renumber(type %d, entities %d)", type, mt); c.label(type ? "rcm" : "sequential"); c.label(pbt::format("mtype-%d", mt));
    MESH_Renumber(b.m, type, (MType)mt);
    read();
    char tag[64]; snprintf(tag, sizeof tag, "renumber(%d,%d)", type, mt);
    for (int d = 0; d < 4; d++) {
      if (mt == d || mt == MALLTYPE) {
        VI s = sorted(id[d]); for (size_t i = 0; i < s.size(); i++) REQ(c, s[i] == (int)i + 1, "not-contiguous", "%s: IDs of the %zu entities of dimension %d are %s", tag, s.size(), d, str(s).c_str());
        if (id[d] != old[d] && s.size() > 2) nontriv++;
        if (!type) { int idx = 0, j = 0; void* e; while ((e = d == 0 ? MESH_Next_Vertex(b.m, &idx) : d == 1 ? MESH_Next_Edge(b.m, &idx) : d == 2 ? MESH_Next_Face(b.m, &idx) : MESH_Next_Region(b.m, &idx))) { j++; REQ(c, MEnt_ID(e) == j, "not-sequential", "%s: entity %d of dimension %d has ID %d", tag, j, d, MEnt_ID(e)); } }
        if (type && m.n(d)) {
          std::map<void*, int> at; int idx = 0, j = 0; void* e; while ((e = d == 0 ? MESH_Next_Vertex(b.m, &idx) : d == 1 ? MESH_Next_Edge(b.m, &idx) : d == 2 ? MESH_Next_Face(b.m, &idx) : MESH_Next_Region(b.m, &idx))) at[e] = ++j;
          VI list; for (void* p : b.ent[d]) list.push_back(at[p]); auto g = graph(m, d); auto B0 = band(g, list), B1 = band(g, id[d]);
          if (id[d] != list) { c.label("reordered"); REQ(c, B1.first < B0.first && B1.second < B0.second + 1e-12, "bandwidth", "%s: ID differences of adjacent entities of dimension %d are up to %d, %g on average; in list order %d and %g", tag, d, B1.first, B1.second, B0.first, B0.second); }
          if (thin) { std::map<int, int> w; int S = 0; for (int i = 0; i < m.n(d); i++) { VI v = m.vertsOf(d, i); double x = 0; for (int k : v) x += m.X[k][0] / v.size(); S = std::max(S, ++w[(int)floor(x + 1e-9)]); } if (B0.second > 5 * S) { c.label("strip-must-improve"); REQ(c, B1.first <= 5 * S, "bandwidth-strip", "%s: strip of at most %d entities of dimension %d per step; adjacent ones differ by up to %d, %d in list order", tag, S, d, B1.first, B0.first); } }
        }
      } else REQ(c, id[d] == old[d], "other-type-changed", "%s: IDs of dimension %d changed from %s to %s", tag, d, str(old[d]).c_str(), str(id[d]).c_str());
    }
    for (int d = 0; d < 4; d++) for (int i = 0; i < m.n(d); i++) {
      void* f = d == 0 ? MESH_VertexFromID(b.m, id[d][i]) : d == 1 ? MESH_EdgeFromID(b.m, id[d][i]) : d == 2 ? MESH_FaceFromID(b.m, id[d][i]) : MESH_RegionFromID(b.m, id[d][i]);
      REQ(c, f == b.ent[d][i], "from-id", "%s: lookup of ID %d (dimension %d)", tag, id[d][i], d);
      REQ(c, MEnt_Get_IntAttVal(b.ent[d][i], at) == 1 + i * 4 + d, "attribute", "%s: attribute of entity %d/%d is %d", tag, d, i, MEnt_Get_IntAttVal(b.ent[d][i], at));
      if (d == 0) { double* v = MEnt_Get_VecAttVal(b.ent[0][i], av); REQ(c, v && v[0] == i && v[1] == -2.0 * i, "attribute", "%s: vector attribute of vertex %d", tag, i); }
    }
    checkDatabase(c, b, tag); checkCoords(c, b, m, tag); checkClassifn(c, b, m, tag);
    checkAdjacency(c, b, m, tag, 1);
    REQ(c, MSet_Num_Entries(st) == nset, "set", "%s: set has %d entries", tag, MSet_Num_Entries(st));
    for (int i = 0; i < m.n(0); i++) REQ(c, (MSet_Contains(st, b.ent[0][i]) != 0) == (i % 2 == 1), "set", "%s: set membership of vertex %d", tag, i);
  }
  if (nontriv && reps) c.nontrivial();
  MESH_Delete(b.m);
}
int main(int argc, char** argv) { static pbt::Property P = {"C08", "some renumbered type has more than two entities and its IDs changed", run, 4000, 60000}; return pbt::main_serial(argc, argv, P); }
