#include "mpi_shim.h"
#include "parts.h"
// Distributing a mesh over ranks, any element-to-part map, through both partitioners.
static RMesh columns(Case& c, VI& top) {   // a grid of columns of cells; top[i]: cell at the top of the column of cell i
  Soup s; s.topo = 3; int nx = 1 + c.s.draw(4), ny = 1 + c.s.draw(3), nz = 1 + c.s.draw(3); GenOpt o; o.materials = c.s.coin(); std::vector<double> z(nz + 1, 0); for (int k = 1; k <= nz; k++) z[k] = z[k - 1] + c.s.real(0.3, 2);
  auto id = [&](int i, int j, int k) { return (k * (ny + 1) + j) * (nx + 1) + i; }; std::vector<double> xs, ys; for (int q = 0; q < (nx + 1) * (ny + 1); q++) { xs.push_back(c.s.real(-.2, .2)); ys.push_back(c.s.real(-.2, .2)); }
  for (int k = 0; k <= nz; k++) for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) s.X.push_back({i + xs[j * (nx + 1) + i], j + ys[j * (nx + 1) + i], z[k]});
  RMesh m; { Soup t = s; t.C.clear(); std::vector<char> sp(nx * ny); for (auto& b : sp) b = c.s.chance(1, 4); for (int k = 0; k < nz; k++) for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) { VI lo = {id(i, j, k), id(i + 1, j, k), id(i + 1, j + 1, k), id(i, j + 1, k)}, hi; for (int v : lo) hi.push_back(v + (nx + 1) * (ny + 1)); if (sp[j * nx + i]) for (int h = 0; h < 2; h++) { Cell q; q.type = PRISM; for (auto* l : {&lo, &hi}) for (int u : h ? VI{0, 2, 3} : VI{0, 1, 2}) q.v.push_back((*l)[u]); t.C.push_back(q); } else { Cell q; q.type = HEX; q.v = lo; q.v.insert(q.v.end(), hi.begin(), hi.end()); t.C.push_back(q); } } m = assemble(c, t, o); }
  std::map<std::pair<long, long>, std::pair<double, int>> best; auto key = [&](int r) { VI v = m.vertsOf(3, r); double x = 0, y = 0; for (int q : v) { x += m.X[q][0] / v.size(); y += m.X[q][1] / v.size(); } return std::make_pair(std::lround(x * 1e6), std::lround(y * 1e6)); };
  auto zc = [&](int r) { double q = 0; VI v = m.vertsOf(3, r); for (int k : v) q += m.X[k][2]; return q / v.size(); };
  for (int r = 0; r < m.n(3); r++) { auto k = key(r); auto it = best.find(k); if (it == best.end() || it->second.first < zc(r)) best[k] = {zc(r), r}; } for (int r = 0; r < m.n(3); r++) top.push_back(best[key(r)].second); return m;
}
static void run(Case& c) {
  int np = 1 + c.s.draw(c.s.chance(1, 4) ? 8 : 4); GenOpt o; o.maxcells = 4 + c.size / 3; o.materials = c.s.coin(); int method = c.s.draw(3); VI top;
  DWorld W = genWorld(c, o, np); if (method == 2 && W.m.topo == 3) { W = DWorld(); W.m = columns(c, top); if (W.m.n(3) < np) np = W.m.n(3); genPart(c, W, np); c.label("columns"); }
  rawPart = W.part; for (size_t i = 0; i < top.size(); i++) W.part[i] = rawPart[top[i]];
  { VI cnt(np, 0); for (int q : W.part) cnt[q]++; for (int k = 0; k < np; k++) if (!cnt[k]) { for (size_t i = 0; i < top.size(); i++) W.part[i] = rawPart[i] = 0; np = W.np = 1; break; } }   // no rank without elements
  W.ring = c.s.pick(std::vector<int>{1, 1, 1, 0, 2}); W.rep = c.s.coin() ? F1 : F4; genFields(c, W, 4, 3); for (size_t k = 0; k < W.atts.size();) if (W.atts[k].dim == MALLTYPE) W.atts.erase(W.atts.begin() + k); else k++;
  BM b = buildWorld(c, W); C = &c; WW = &W; BB = &b; bool attr = c.s.chance(4, 5), del = c.s.chance(1, 3), pre = c.s.chance(1, 4); int rounds = !del && c.s.chance(1, 4) ? 2 : 1, check = c.s.coin(); shim::Opt so = shim::draw(c); c.note("%s np %d ring %d method %d parts %s", describe(W.m).c_str(), np, W.ring, method, str(W.part).c_str());
  if (c.s.chance(1, 6)) { attNew(b.m, DAtt{"ptr", POINTER, MVERTEX, 1, {}}); c.label("pointer-attribute"); }
  c.label(pbt::format("method-%d", method)); c.label(pbt::format("ring-%d", W.ring)); c.label(pbt::format("ranks-%d", np)); if (rounds == 2) c.label("distributed-twice"); std::vector<std::string> out; int D = W.m.topo;
  shim::run(c, np, so, [&](int rank, std::string& s) {
    for (int round = 0; round < rounds; round++) {
      Mesh_ptr my = pre ? MESH_New(rank ? UNKNOWN_REP : W.rep) : nullptr; int dim = rank ? -7 : D; called = false; s.clear();
      REQ(c, MSTK_Mesh_Distribute(rank ? nullptr : b.m, &my, &dim, W.ring, attr, method, del, MPI_COMM_WORLD) == 1 && my, "return", "MSTK_Mesh_Distribute failed on rank %d", rank); REQ(c, dim == D, "return", "topological dimension on rank %d is %d", rank, dim); if (!rank && np > 1) REQ(c, called, "return", "partitioner was not used");
      if (check && np > 1) { REQ(c, MESH_Parallel_Check(my, MPI_COMM_WORLD) == 1, "parallel-check", "MESH_Parallel_Check rejects a distributed mesh"); c.label("parallel-check"); }
      packRank(c, W, my, attr, attr, s); MESH_Delete(my);
      if (!rank && !del) { const RMesh& m = W.m; checkAdjacency(c, b, m, "original", 1); checkOrientation(c, b, m, "original"); checkCoords(c, b, m, "original"); checkClassifn(c, b, m, "original"); for (auto& a : W.atts) { MAttrib_ptr q = MESH_AttribByName(b.m, a.name.c_str()); REQ(c, q, "original-attribute", "%s is gone", a.name.c_str()); for (auto& x : a.val) REQ(c, attVal(b.ent[x.first.first][x.first.second], q, a.t, a.nc) == x.second, "original-attribute", "%s of the original changed", a.name.c_str()); } if (round == rounds - 1) MESH_Delete(b.m); }
    } }, out);
  std::vector<DRank> R; for (auto& s : out) R.push_back(unpackRank(W, s, attr, attr)); DistOpt d; d.atts = d.sets = attr; d.gidContig = true; checkDist(c, W, R, d); if (np > 1) c.nontrivial();
}
int main(int argc, char** argv) { static pbt::Property P = {"C28", "a mesh was distributed over at least two ranks", run, 3000, 60000}; return pbt::main_serial(argc, argv, P); }
