// Step-by-step comparison of a mesh being modified with a predicted model.
#pragma once
#include "rmesh.h"
#include <numeric>
// An edit script over a model: copies, additions, removals, then compaction.
struct Edit {
  RMesh m; VI src[4]; std::vector<char> dead[4]; VI keepDir;  // keepDir: faces whose orientation is free (0) / exact (1)
  bool geo;
  Edit(const RMesh& x) : m(x) { for (int d = 0; d < 4; d++) { src[d].resize(x.n(d)); std::iota(src[d].begin(), src[d].end(), 0); dead[d].assign(x.n(d), 0); } keepDir.assign(x.n(2), 1); geo = !x.gd[0].empty(); m.upok = false; }
  int put(int d, int gd, int gi) { src[d].push_back(-1); dead[d].push_back(0); if (geo) { m.gd[d].push_back(gd); m.gi[d].push_back(gi); } return (int)src[d].size() - 1; }
  int addV(V3 x, int gd = -99, int gi = -99) { m.X.push_back(x); return put(0, gd, gi); }
  int addE(int a, int b, int gd = -99, int gi = -99) { m.E.push_back({a, b}); return put(1, gd, gi); }
  int edge(int a, int b) { for (int i = 0; i < m.n(1); i++) if (!dead[1][i] && ((m.E[i][0] == a && m.E[i][1] == b) || (m.E[i][0] == b && m.E[i][1] == a))) return i; return -1; }
  int needE(int a, int b, int gd = -99, int gi = -99) { int e = edge(a, b); return e >= 0 ? e : addE(a, b, gd, gi); }
  // cycle of a face from its vertices (edges looked up)
  void setF(int f, const VI& v) { RFace& F = m.F[f]; F.v = v; F.e.clear(); F.d.clear(); for (size_t k = 0; k < v.size(); k++) { int a = v[k], b = v[(k + 1) % v.size()], e = needE(a, b); m.F[f].e.push_back(e); m.F[f].d.push_back(m.E[e][0] == a); } }
  int addF(const VI& v, int gd = -99, int gi = -99, bool exact = true) { m.F.push_back(RFace()); int f = put(2, gd, gi); keepDir.push_back(exact); setF(f, v); return f; }
  int face(const VI& v) { VI s = sorted(v); for (int i = 0; i < m.n(2); i++) if (!dead[2][i] && sorted(m.F[i].v) == s) return i; return -1; }
  int addR(const VI& f, const VI& d, int gd = -99, int gi = -99) { RReg R; R.f = f; R.d = d; m.R.push_back(R); return put(3, gd, gi); }
  void kill(int d, int i) { dead[d][i] = 1; }
  // a region's face k is replaced by faces (f,d)
  void replF(int r, int oldf, const VI& nf, const VI& nd) { RReg& R = m.R[r]; VI f, d; bool done = false; for (size_t k = 0; k < R.f.size(); k++) if (R.f[k] != oldf) { f.push_back(R.f[k]); d.push_back(R.d[k]); } else if (!done) { done = true; for (size_t j = 0; j < nf.size(); j++) { f.push_back(nf[j]); d.push_back(nd[j]); } } R.f = f; R.d = d; }
  void finish() {
    VI nw[4]; RMesh r; r.topo = m.topo; VI s2[4]; VI kd;
    for (int d = 0; d < 4; d++) { int k = 0; for (int i = 0; i < (int)src[d].size(); i++) { nw[d].push_back(dead[d][i] ? -1 : k); if (dead[d][i]) continue; k++; s2[d].push_back(src[d][i]); if (geo) { r.gd[d].push_back(m.gd[d][i]); r.gi[d].push_back(m.gi[d][i]); } if (d == 2) kd.push_back(keepDir[i]); } }
    for (int i = 0; i < m.n(0); i++) if (nw[0][i] >= 0) r.X.push_back(m.X[i]);
    for (int i = 0; i < m.n(1); i++) if (nw[1][i] >= 0) r.E.push_back({nw[0][m.E[i][0]], nw[0][m.E[i][1]]});
    for (int i = 0; i < m.n(2); i++) if (nw[2][i] >= 0) { RFace f = m.F[i]; for (int& v : f.v) v = nw[0][v]; for (int& e : f.e) e = nw[1][e]; r.F.push_back(f); }
    for (int i = 0; i < m.n(3); i++) if (nw[3][i] >= 0) { RReg g = m.R[i]; g.sv.clear(); for (int& f : g.f) f = nw[2][f]; r.R.push_back(g); }
    for (int d = 0; d < 4; d++) src[d] = s2[d];
    keepDir = kd; m = r; m.derive();
  }
};
// a consistent classification, otherwise arbitrary: an entity lies on the model entity of everything it bounds, or on one of lower dimension of its own
inline void classifyFree(Case& c, RMesh& m) {
  m.buildUp(); for (int d = 0; d < 4; d++) { m.gd[d].assign(m.n(d), m.topo); m.gi[d].assign(m.n(d), 1); }
  for (int d = m.topo; d >= 0; d--) for (int i = 0; i < m.n(d); i++) {
    int lo = m.topo + 1; std::set<int> ids; for (int D = d + 1; D <= m.topo; D++) for (int k : m.up(d, i, D)) { if (m.gd[D][k] < lo) { lo = m.gd[D][k]; ids.clear(); } if (m.gd[D][k] == lo) ids.insert(m.gi[D][k]); }
    if (lo > m.topo) { m.gd[d][i] = d + c.s.draw(m.topo - d + 1); m.gi[d][i] = 1 + c.s.draw(3) + (d < m.topo ? 50 : 0); }
    else if (ids.size() == 1 && lo >= d && c.s.chance(3, 5)) { m.gd[d][i] = lo; m.gi[d][i] = *ids.begin(); }
    else { m.gd[d][i] = lo > d ? d + c.s.draw(lo - d) : d; m.gi[d][i] = 100 * (d + 1) + i; }
  }
}
struct ModOpt { double tol = 1e-12; bool valid = true, closed = true; int level = 2; bool types = true; std::vector<VI>* vcand = nullptr; };
struct World {
  Case& c; Mesh_ptr mesh = nullptr; RMesh m; BM b; MAttrib_ptr att = nullptr; int steps = 0;
  std::unordered_map<void*, int> tag, id;
  World(Case& c_) : c(c_) {}
  void start(RMesh& g, RepType rep) {
    if (g.gd[0].empty()) for (int d = 0; d < 4; d++) { g.gd[d].assign(g.n(d), g.topo); g.gi[d].assign(g.n(d), 1); }
    BM b0 = build(c, g, rep, EXPLICIT); mesh = b0.m; att = MAttrib_New(mesh, "tag", INT, MALLTYPE);
    adopt();
  }
  void adopt() {  // current mesh becomes the model
    m = extract(c, mesh, b); m.derive(); m.buildUp();
    std::unordered_map<void*, int> t2, i2;
    for (int d = 0; d < 4; d++) for (void* p : b.ent[d]) { auto it = tag.find(p); int t = it == tag.end() ? 0 : it->second; int g = MEnt_Get_IntAttVal(p, att);
      if (!t) { t = ++steps; MEnt_Set_IntAttVal(p, att, t); } else REQ(c, g == t, "attribute", "attribute of a surviving entity changed from %d to %d", t, g);
      t2[p] = t; i2[p] = MEnt_ID(p); }
    tag = t2; id = i2;
  }
  void unchanged(const char* what, ModOpt o = ModOpt()) { Edit e(m); step(e, what, o); }
  void step(Edit& P, const char* what, ModOpt o = ModOpt()) { c.note("%s", what);
    P.finish(); RMesh& p = P.m; BM xb; RMesh x = extract(c, mesh, xb); x.derive(); VI to[4], from[4];
    for (int d = 0; d < 4; d++) {
      REQ(c, x.n(d) == p.n(d), "entity-count", "%s: mesh has %d entities of dimension %d, expected %d", what, x.n(d), d, p.n(d));
      to[d].assign(p.n(d), -1); from[d].assign(x.n(d), -1);
      for (int i = 0; i < p.n(d); i++) if (P.src[d][i] >= 0) {
        int k = xb.find(d, b.ent[d][P.src[d][i]]); REQ(c, k >= 0, "entity-lost", "%s: entity %d of dimension %d should have survived", what, P.src[d][i], d);
        to[d][i] = k; from[d][k] = i; void* h = xb.ent[d][k];
        REQ(c, MEnt_ID(h) == id[h], "entity-id", "%s: ID of a surviving entity of dimension %d changed from %d to %d", what, d, id[h], MEnt_ID(h));
        REQ(c, MEnt_Get_IntAttVal(h, att) == tag[h], "attribute", "%s: attribute of a surviving entity of dimension %d changed", what, d);
      }
    }
    auto near = [&](const V3& a, const V3& q) { return len(a - q) <= o.tol * (1 + len(a)); };
    for (int i = 0; i < p.n(0); i++) if (to[0][i] < 0) { int best = -1; for (int k = 0; k < x.n(0); k++) if (from[0][k] < 0 && near(p.X[i], x.X[k])) { best = k; break; }
      REQ(c, best >= 0, "new-vertex", "%s: no new vertex at (%.17g %.17g %.17g)", what, p.X[i][0], p.X[i][1], p.X[i][2]); to[0][i] = best; from[0][best] = i; }
    for (int i = 0; i < p.n(0); i++) REQ(c, P.src[0][i] < 0 ? near(p.X[i], x.X[to[0][i]]) : p.X[i] == x.X[to[0][i]], "coords", "%s: vertex %d moved", what, i);
    auto mp = [&](int d, VI v) { for (int& k : v) k = to[d][k]; return v; };
    for (int i = 0; i < p.n(1); i++) {
      int a = to[0][p.E[i][0]], q = to[0][p.E[i][1]];
      if (to[1][i] < 0) { for (int k = 0; k < x.n(1); k++) if (from[1][k] < 0 && ((x.E[k][0] == a && x.E[k][1] == q) || (x.E[k][0] == q && x.E[k][1] == a))) { to[1][i] = k; from[1][k] = i; break; }
        REQ(c, to[1][i] >= 0, "new-edge", "%s: no new edge between vertices %d and %d", what, p.E[i][0], p.E[i][1]); }
      else REQ(c, x.E[to[1][i]][0] == a && x.E[to[1][i]][1] == q, "edge-changed", "%s: surviving edge %d joins mesh vertices %d %d, expected %d %d", what, P.src[1][i], x.E[to[1][i]][0], x.E[to[1][i]][1], a, q);
    }
    VI rev(p.n(2), 0);
    for (int i = 0; i < p.n(2); i++) {
      VI v = mp(0, p.F[i].v), e = mp(1, p.F[i].e);
      if (to[2][i] < 0) { for (int k = 0; k < x.n(2); k++) if (from[2][k] < 0 && sorted(x.F[k].v) == sorted(v) && sorted(x.F[k].e) == sorted(e)) { to[2][i] = k; from[2][k] = i; break; }
        REQ(c, to[2][i] >= 0, "new-face", "%s: no new face on %s", what, str(p.F[i].v).c_str()); }
      RFace& X = x.F[to[2][i]];
      REQ(c, sorted(X.e) == sorted(e), "face-changed", "%s: face %d (old %d) has edges %s expected %s", what, i, P.src[2][i], str(X.e).c_str(), str(e).c_str());
      bool fw = sameCycle(X.v, v, false), bw = sameCycle(X.v, v, true);
      REQ(c, fw || bw, "face-changed", "%s: face %d (old %d) has cycle %s expected %s", what, i, P.src[2][i], str(X.v).c_str(), str(v).c_str());
      REQ(c, fw || !P.keepDir[i], "face-orientation", "%s: face %d (old %d) has cycle %s, the reverse of %s", what, i, P.src[2][i], str(X.v).c_str(), str(v).c_str());
      rev[i] = !fw;
    }
    for (int i = 0; i < p.n(3); i++) {
      std::map<int, int> w; for (size_t k = 0; k < p.R[i].f.size(); k++) w[to[2][p.R[i].f[k]]] = p.R[i].d[k] ^ rev[p.R[i].f[k]];
      auto mm = [&](int k) { std::map<int, int> g; for (size_t j = 0; j < x.R[k].f.size(); j++) g[x.R[k].f[j]] = x.R[k].d[j]; return g; };
      auto keys = [](const std::map<int, int>& a) { VI r; for (auto& q : a) r.push_back(q.first); return r; };
      if (to[3][i] < 0) { for (int k = 0; k < x.n(3); k++) if (from[3][k] < 0 && keys(mm(k)) == keys(w)) { to[3][i] = k; from[3][k] = i; break; } REQ(c, to[3][i] >= 0, "new-region", "%s: no new region on faces %s", what, str(keys(w)).c_str()); }
      REQ(c, x.R[to[3][i]].f.size() == w.size(), "region-changed", "%s: region %d (old %d) has %zu faces, expected %zu", what, i, P.src[3][i], x.R[to[3][i]].f.size(), w.size());
      REQ(c, keys(mm(to[3][i])) == keys(w), "region-changed", "%s: region %d (old %d) has faces %s expected %s", what, i, P.src[3][i], str(keys(mm(to[3][i]))).c_str(), str(keys(w)).c_str());
      REQ(c, mm(to[3][i]) == w, "region-orientation", "%s: region %d (old %d) uses a face in the wrong direction", what, i, P.src[3][i]);
    }
    if (P.geo) for (int d = 0; d < 4; d++) for (int i = 0; i < p.n(d); i++) if (p.gd[d][i] != -99)
      REQ(c, x.gd[d][to[d][i]] == p.gd[d][i] && (p.gi[d][i] == -99 || x.gi[d][to[d][i]] == p.gi[d][i]), "classification", "%s: %s entity %d of dimension %d is classified (%d,%d), expected (%d,%d)", what, P.src[d][i] < 0 ? "new" : "old", i, d, x.gd[d][to[d][i]], x.gi[d][to[d][i]], p.gd[d][i], p.gi[d][i]);
    if (o.valid) checkValid(c, x, what, o.closed);
    x.buildUp(); checkDatabase(c, xb, what); checkAdjacency(c, xb, x, what, o.level); if (o.level >= 2) checkOrientation(c, xb, x, what);
    if (o.types) for (int r = 0; r < x.n(3); r++) { int nf = x.R[r].f.size(), t = 0, q = 0; for (int f : x.R[r].f) { t += x.F[f].v.size() == 3; q += x.F[f].v.size() == 4; }
      int w = nf < 4 ? RUNKNOWN : nf == 4 && t == 4 ? TET : nf == 5 && t == 4 && q == 1 ? PYRAMID : nf == 5 && t == 2 && q == 3 ? PRISM : nf == 6 && q == 6 ? HEX : POLYHED;
      // the counts are necessary; a closed region of standard type is also 3-regular (but for the apex of a pyramid)
      std::map<int, int> ed; std::map<int, int> vd; for (int f : x.R[r].f) for (int e : x.F[f].e) ed[e]++;
      bool shut = true; for (auto& q2 : ed) { shut = shut && q2.second == 2; for (int j = 0; j < 2; j++) vd[x.E[q2.first][j]]++; }
      if (!shut && w != RUNKNOWN && w != POLYHED) continue; // incomplete region: counts are all there is
      int d4 = 0, odd = 0; for (auto& q2 : vd) { d4 += q2.second == 4; odd += q2.second != 3 && q2.second != 4; }
      if ((w == PRISM && (vd.size() != 6 || d4 || odd)) || (w == PYRAMID && (vd.size() != 5 || d4 != 1 || odd)) || (w == HEX && (vd.size() != 8 || d4 || odd))) w = POLYHED;
      REQ(c, MR_ElementType(xb.ent[3][r]) == w, "element-type", "%s: region type %d, expected %d", what, (int)MR_ElementType(xb.ent[3][r]), w); }
    adopt();
  }
};
