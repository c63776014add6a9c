// Mesh generators (by construction always valid meshes)
#include "rmesh.h"

const int STD_NF[5] = {0, 4, 5, 5, 6};
const int STD_FV[5][6][5] = {
  {{0}},
  {{3,0,2,1},{3,0,1,3},{3,1,2,3},{3,0,3,2}},
  {{4,0,3,2,1},{3,0,1,4},{3,1,2,4},{3,2,3,4},{3,3,0,4}},
  {{3,0,2,1},{3,3,4,5},{4,0,1,4,3},{4,1,2,5,4},{4,2,0,3,5}},
  {{4,0,3,2,1},{4,4,5,6,7},{4,0,1,5,4},{4,1,2,6,5},{4,2,3,7,6},{4,3,0,4,7}}};

VI sorted(VI v) { std::sort(v.begin(), v.end()); return v; }
std::string str(const VI& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]);
  return s + "]";
}
bool sameCycle(const VI& a, const VI& b, bool rev) {
  int n = a.size();
  if ((int)b.size() != n) return false;
  if (!n) return true;
  for (int s = 0; s < n; s++) {
    bool f = true, r = rev;
    for (int i = 0; i < n && (f || r); i++) {
      if (a[i] != b[(s + i) % n]) f = false;
      if (a[i] != b[((s - i) % n + n) % n]) r = false;
    }
    if (f || r) return true;
  }
  return false;
}

static std::vector<VI> cellFaces(const Cell& c) {
  if (c.type == POLYHED) return c.fv;
  std::vector<VI> r;
  for (int i = 0; i < STD_NF[c.type]; i++) {
    VI f;
    for (int j = 0; j < STD_FV[c.type][i][0]; j++) f.push_back(c.v[STD_FV[c.type][i][j + 1]]);
    r.push_back(f);
  }
  return r;
}
static int typeByFaces(const std::vector<VI>& f) {
  int t = 0, q = 0, n = f.size();
  for (auto& x : f) { if (x.size() == 3) t++; if (x.size() == 4) q++; }
  if (n == 4 && t == 4) return TET;
  if (n == 5 && q == 3 && t == 2) return PRISM;
  if (n == 5 && q == 1 && t == 4) return PYRAMID;
  if (n == 6 && q == 6) return HEX;
  return POLYHED;
}
static Cell stdCell(int type, VI v, int reg) { Cell c; c.type = type; c.v = v; c.reg = reg; return c; }

// closed, edge-manifold, spherical boundary?
static bool spherical(const std::vector<VI>& fs) {
  std::map<std::pair<int, int>, int> dirE; std::set<int> V; std::set<std::set<int>> fsets;
  for (auto& f : fs) {
    std::set<int> s(f.begin(), f.end());
    if (s.size() != f.size() || f.size() < 3) return false;
    if (!fsets.insert(s).second) return false;
    for (size_t i = 0; i < f.size(); i++) {
      V.insert(f[i]);
      if (++dirE[{f[i], f[(i + 1) % f.size()]}] > 1) return false;
    }
  }
  for (auto& kv : dirE) if (!dirE.count({kv.first.second, kv.first.first})) return false;
  if ((int)V.size() - (int)dirE.size() / 2 + (int)fs.size() != 2) return false;
  // connected through edges
  std::map<int, int> comp;
  std::vector<int> stack{(int)*V.begin()}; std::set<int> seen{*V.begin()};
  std::map<int, VI> nb; for (auto& kv : dirE) nb[kv.first.first].push_back(kv.first.second);
  while (!stack.empty()) { int x = stack.back(); stack.pop_back(); for (int y : nb[x]) if (seen.insert(y).second) stack.push_back(y); }
  return seen.size() == V.size();
}

static void affine(Case& c, std::vector<V3>& X, bool twoD, bool keepflat) {
  int mode = c.s.draw(4);
  if (mode == 0) return;
  double M[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
  V3 t = {0, 0, 0};
  for (int i = 0; i < 3; i++) {
    M[i][i] = c.s.real(0.5, 2.0);
    t[i] = c.s.real(-3, 3);
  }
  M[0][1] = c.s.real(-0.4, 0.4); M[0][2] = c.s.real(-0.4, 0.4); M[1][2] = c.s.real(-0.4, 0.4);  // upper triangular: det>0
  if (mode >= 2 && !keepflat) {  // general position rotation about a random axis
    double a = c.s.real(0, 3.1), b = c.s.real(0, 3.1);
    for (auto& x : X) {
      V3 y = {std::cos(a) * x[0] - std::sin(a) * x[1], std::sin(a) * x[0] + std::cos(a) * x[1], x[2]};
      x = {y[0], std::cos(b) * y[1] - std::sin(b) * y[2], std::sin(b) * y[1] + std::cos(b) * y[2]};
    }
  }
  if (keepflat) { M[2][2] = 1; t[2] = 0; }
  for (auto& x : X) {
    V3 y = t;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) y[i] += M[i][j] * x[j];
    x = y;
  }
}

static void compact(Soup& s) {
  VI used(s.X.size(), 0);
  auto mark = [&](const VI& v) { for (int x : v) used[x] = 1; };
  for (auto& f : s.F) (void)f;
  for (auto& c : s.C) { mark(c.v); for (auto& f : c.fv) mark(f); }
  for (auto& f : s.danglingF) mark(f);
  for (auto& e : s.danglingE) { used[e[0]] = used[e[1]] = 1; }
  VI nw(s.X.size(), -1); std::vector<V3> X;
  for (size_t i = 0; i < s.X.size(); i++) if (used[i]) { nw[i] = X.size(); X.push_back(s.X[i]); }
  auto re = [&](VI& v) { for (int& x : v) x = nw[x]; };
  for (auto& c : s.C) { re(c.v); for (auto& f : c.fv) re(f); }
  for (auto& f : s.danglingF) re(f);
  for (auto& e : s.danglingE) { e[0] = nw[e[0]]; e[1] = nw[e[1]]; }
  s.X = X;
}

// 2D soups keep their element cycles in C (type POLYHED, one cycle in fv)
static std::vector<VI>& cyc(Cell& c) { return c.fv; }

static void dims(Case& c, int maxcells, int nd, int* n) {
  int cap = std::max(1, std::min(maxcells, 1 + c.size * maxcells / 60));
  for (int i = 0; i < nd; i++) n[i] = 1;
  for (int i = 0; i < nd; i++) {
    int prod = 1; for (int k = 0; k < nd; k++) prod *= n[k];
    int room = std::max(1, cap / prod);
    int lim = nd == 2 ? 6 : 4;
    n[i] = 1 + (int)c.s.draw(std::min(room, lim));
  }
}

Soup genSoup2D(Case& c, const GenOpt& o) {
  Soup s; s.topo = 2;
  Src& r = c.s;
  enum { PLANE, CYL, TORUS, TJ, BOX };
  int mode = PLANE;
  if (o.surface3d) {
    int k = r.draw(10);
    if (k == 6 || k == 5) mode = CYL; else if (k == 7 && o.closedSurf) mode = TORUS; else if (k == 8 && o.nonmanifold) mode = TJ; else if (k == 9 && o.closedSurf) mode = BOX;
  }
  std::vector<VI> els;
  if (mode == BOX) {
    int n[3] = {1 + (int)r.draw(2), 1 + (int)r.draw(2), 1 + (int)r.draw(2)};
    auto id = [&](int i, int j, int k) { return (k * (n[1] + 1) + j) * (n[0] + 1) + i; };
    for (int k = 0; k <= n[2]; k++) for (int j = 0; j <= n[1]; j++) for (int i = 0; i <= n[0]; i++) s.X.push_back({(double)i, (double)j, (double)k});
    for (int i = 0; i < n[0]; i++) for (int j = 0; j < n[1]; j++) {
      els.push_back({id(i, j, 0), id(i, j + 1, 0), id(i + 1, j + 1, 0), id(i + 1, j, 0)});
      els.push_back({id(i, j, n[2]), id(i + 1, j, n[2]), id(i + 1, j + 1, n[2]), id(i, j + 1, n[2])});
    }
    for (int i = 0; i < n[0]; i++) for (int k = 0; k < n[2]; k++) {
      els.push_back({id(i, 0, k), id(i + 1, 0, k), id(i + 1, 0, k + 1), id(i, 0, k + 1)});
      els.push_back({id(i, n[1], k), id(i, n[1], k + 1), id(i + 1, n[1], k + 1), id(i + 1, n[1], k)});
    }
    for (int j = 0; j < n[1]; j++) for (int k = 0; k < n[2]; k++) {
      els.push_back({id(0, j, k), id(0, j, k + 1), id(0, j + 1, k + 1), id(0, j + 1, k)});
      els.push_back({id(n[0], j, k), id(n[0], j + 1, k), id(n[0], j + 1, k + 1), id(n[0], j, k + 1)});
    }
    c.label("surface:box");
  } else {
    int n[2]; dims(c, o.maxcells, 2, n);
    if (mode == CYL || mode == TORUS) n[0] = std::max(3, n[0]);
    if (mode == TORUS) n[1] = std::max(3, n[1]);
    int mi = (mode == CYL || mode == TORUS) ? n[0] : n[0] + 1, mj = mode == TORUS ? n[1] : n[1] + 1;
    auto id = [&](int i, int j) { return (j % mj) * mi + (i % mi); };
    double amp = (o.jitter && !o.planar && r.coin()) ? 0.2 : 0.0;
    for (int j = 0; j < mj; j++) for (int i = 0; i < mi; i++) {
      double x = i, y = j;
      if (o.jitter && amp > 0) { x += r.real(-amp, amp); y += r.real(-amp, amp); }
      const double PI = 3.14159265358979;
      if (mode == PLANE || mode == TJ) s.X.push_back({x, y, 0});
      else if (mode == CYL) s.X.push_back({2 * std::cos(2 * PI * x / n[0]), 2 * std::sin(2 * PI * x / n[0]), y});
      else { double R = 3 + std::cos(2 * PI * y / n[1]); s.X.push_back({R * std::cos(2 * PI * x / n[0]), R * std::sin(2 * PI * x / n[0]), std::sin(2 * PI * y / n[1])}); }
    }
    for (int j = 0; j < n[1]; j++) for (int i = 0; i < n[0]; i++) els.push_back({id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)});
    if (mode == TJ) {  // a fin standing on the grid line j0
      int j0 = r.draw(n[1] + 1);
      int flaps = r.chance(1, 3) ? 2 + r.draw(3) : 1; static const double fy[] = {0, 0, .7, -.7}, fz[] = {1, -1, .8, -.8};   // more than one: 4 or more elements at the junction
      for (int t = 0; t < flaps; t++) {
        int b = s.X.size();
        for (int i = 0; i <= n[0]; i++) s.X.push_back({(double)i, j0 + fy[t], fz[t]});
        for (int i = 0; i < n[0]; i++) els.push_back({id(i, j0), id(i + 1, j0), b + i + 1, b + i});
      }
      if (flaps > 1) c.label("many-at-edge");
      c.label("surface:tjunction");
    }
    if (mode == CYL) c.label("surface:cylinder");
    if (mode == TORUS) c.label("surface:torus");
  }
  // subdivide
  int dens = o.simplex ? 3 : r.draw(4);
  std::vector<VI> out;
  for (auto& q : els) {
    int k = dens == 0 ? 0 : o.simplex ? 1 + r.draw(3) : r.draw(4);
    if (k == 0) out.push_back(q);
    else if (k == 1) { out.push_back({q[0], q[1], q[2]}); out.push_back({q[0], q[2], q[3]}); }
    else if (k == 2) { out.push_back({q[0], q[1], q[3]}); out.push_back({q[1], q[2], q[3]}); }
    else {
      V3 x = {0, 0, 0}; for (int v : q) x = x + 0.25 * s.X[v];
      int m = s.X.size(); s.X.push_back(x);
      for (int i = 0; i < 4; i++) out.push_back({q[i], q[(i + 1) % 4], m});
    }
  }
  // merge into polygons
  if (o.polys && !o.simplex && !o.standardOnly && r.coin()) {
    int tries = 1 + r.draw(std::max<int>(1, out.size() / 2));
    for (int t = 0; t < tries && out.size() > 1; t++) {
      int a = r.draw(out.size()), k = r.draw(out[a].size());
      int p = out[a][k], q = out[a][(k + 1) % out[a].size()];
      for (size_t b = 0; b < out.size(); b++) if ((int)b != a) {
        int nb = out[b].size(), kb = -1;
        for (int i = 0; i < nb; i++) if (out[b][i] == q && out[b][(i + 1) % nb] == p) kb = i;
        if (kb < 0) continue;
        int common = 0; for (int v : out[b]) common += std::count(out[a].begin(), out[a].end(), v);
        if (common != 2 || out[a].size() + nb > 14) break;
        // edge must belong to only these two (T junctions)
        int uses = 0; for (auto& e : out) for (size_t i = 0; i < e.size(); i++) { int u = e[i], w = e[(i + 1) % e.size()]; if ((u == p && w == q) || (u == q && w == p)) uses++; }
        if (uses != 2) break;
        VI m; int na = out[a].size();
        for (int i = 1; i <= na; i++) m.push_back(out[a][(k + i) % na]);   // q ... p
        for (int i = 2; i < nb; i++) m.push_back(out[b][(kb + i) % nb]);   // after p until before q
        std::set<int> ms(m.begin(), m.end());
        bool dup = false; for (auto& e : out) if (std::set<int>(e.begin(), e.end()) == ms) dup = true;
        // a merged polygon sharing more than a chain with a neighbour is still fine
        if (dup) break;
        out[a] = m; out.erase(out.begin() + b);
        c.label("polygons");
        break;
      }
    }
  }
  // holes
  if (o.holes && out.size() > 2 && r.draw(3) == 2) {
    int k = 1 + r.draw(out.size() / 3 + 1);
    for (int i = 0; i < k && out.size() > 1; i++) out.erase(out.begin() + r.draw(out.size()));
    c.label("holes");
  }
  affine(c, s.X, true, !o.surface3d);
  int nreg = o.materials ? 1 + r.draw(3) : 1;
  for (auto& e : out) { Cell cl; cl.type = POLYHED; cl.fv = {e}; cl.reg = 1 + (nreg > 1 ? r.draw(nreg) : 0); s.C.push_back(cl); }
  compact(s);
  return s;
}

Soup genSoup3D(Case& c, const GenOpt& o) {
  Soup s; s.topo = 3;
  Src& r = c.s;
  int style = o.simplex ? 0 : r.draw(40);
  bool extr = style >= 30;
  bool big = style >= 37 && o.polys && !o.standardOnly;
  std::vector<Cell> out;
  if (big) {  // one many-sided polyhedron per layer
    int n = 5 + r.draw(25), nz = 1 + r.draw(3);
    for (int k = 0; k <= nz; k++) for (int i = 0; i < n; i++) s.X.push_back({2 * std::cos(2 * M_PI * i / n), 2 * std::sin(2 * M_PI * i / n), (double)k});
    int split = r.draw(3);
    for (int k = 0; k < nz; k++) {
      Cell cl; cl.type = POLYHED; VI bot, top;
      for (int i = n - 1; i >= 0; i--) bot.push_back(k * n + i);
      for (int i = 0; i < n; i++) top.push_back((k + 1) * n + i);
      cl.fv.push_back(bot); cl.fv.push_back(top);
      for (int i = 0; i < n; i++) {
        int a = k * n + i, b = k * n + (i + 1) % n, d = b + n, e = a + n;
        bool sp = split == 2 || (split == 1 && r.coin());
        if (sp) { cl.fv.push_back({a, b, d}); cl.fv.push_back({a, d, e}); } else cl.fv.push_back({a, b, d, e});
      }
      if (cl.fv.size() > 32) c.label("polyhedron>32-faces");
      out.push_back(cl);
    }
    c.label("many-sided");
  } else if (extr) {
    GenOpt o2 = o; o2.surface3d = false; o2.nonmanifold = false; o2.planar = o.planar; o2.maxcells = std::max(1, o.maxcells / 2); o2.materials = false;
    Soup b = genSoup2D(c, o2);
    int nz = 1 + r.draw(2), nb = b.X.size();
    for (int k = 0; k <= nz; k++) for (auto& x : b.X) s.X.push_back({x[0], x[1], (double)k + (o.planar ? 0.0 : 0.0)});
    for (int k = 0; k < nz; k++) for (auto& e : b.C) {
      VI q = e.fv[0];
      // ensure ccw seen from above
      double A = 0; int n = q.size();
      for (int i = 0; i < n; i++) A += b.X[q[i]][0] * b.X[q[(i + 1) % n]][1] - b.X[q[i]][1] * b.X[q[(i + 1) % n]][0];
      if (A < 0) std::reverse(q.begin(), q.end());
      VI v; for (int x : q) v.push_back(x + k * nb); for (int x : q) v.push_back(x + (k + 1) * nb);
      if (n == 3) out.push_back(stdCell(PRISM, v, 1));
      else if (n == 4) out.push_back(stdCell(HEX, v, 1));
      else {
        Cell cl; cl.type = POLYHED;
        VI bot, top; for (int i = n - 1; i >= 0; i--) bot.push_back(v[i]); for (int i = 0; i < n; i++) top.push_back(v[n + i]);
        cl.fv.push_back(bot); cl.fv.push_back(top);
        for (int i = 0; i < n; i++) cl.fv.push_back({v[i], v[(i + 1) % n], v[n + (i + 1) % n], v[n + i]});
        out.push_back(cl);
      }
    }
    c.label("extruded");
  } else {
    int n[3]; dims(c, o.simplex ? std::max(1, o.maxcells / 6) : o.maxcells / 2 + 1, 3, n);
    auto id = [&](int i, int j, int k) { return (k * (n[1] + 1) + j) * (n[0] + 1) + i; };
    double amp = (!o.planar && o.jitter && r.coin()) ? 0.15 : 0;
    for (int k = 0; k <= n[2]; k++) for (int j = 0; j <= n[1]; j++) for (int i = 0; i <= n[0]; i++) {
      V3 x = {(double)i, (double)j, (double)k};
      if (amp > 0) for (int d = 0; d < 3; d++) x[d] += r.real(-amp, amp);
      s.X.push_back(x);
    }
    // mode 0 hex, 1 columns, 2 mixed random face splits, 3 all split
    int mode = o.simplex ? (r.coin() ? 4 : 3) : r.draw(4);
    // face diagonals keyed by sorted vertex quadruple
    std::map<VI, int> diag; std::map<VI, VI> canon;
    auto face = [&](VI q, int kind, int col) {
      VI key = sorted(q);
      if (diag.count(key)) return;
      canon[key] = q;
      int d = 0;
      if (mode == 1) d = kind == 2 ? col : 0;
      else if (mode == 2) d = r.draw(4) >= 2 ? 1 + r.draw(2) : 0;
      else if (mode == 3) d = 1 + r.draw(2);
      else if (mode == 4) d = 1;
      diag[key] = d;
    };
    VI coldiag;
    if (mode == 1) for (int i = 0; i < n[0] * n[1]; i++) coldiag.push_back(r.draw(3));
    int nreg = 1;
    for (int k = 0; k < n[2]; k++) for (int j = 0; j < n[1]; j++) for (int i = 0; i < n[0]; i++) {
      VI h = {id(i, j, k), id(i + 1, j, k), id(i + 1, j + 1, k), id(i, j + 1, k), id(i, j, k + 1), id(i + 1, j, k + 1), id(i + 1, j + 1, k + 1), id(i, j + 1, k + 1)};
      int col = mode == 1 ? coldiag[j * n[0] + i] : 0;
      face({h[0], h[1], h[2], h[3]}, 2, col); face({h[4], h[5], h[6], h[7]}, 2, col);
      face({h[0], h[1], h[5], h[4]}, 1, 0); face({h[3], h[2], h[6], h[7]}, 1, 0);
      face({h[0], h[3], h[7], h[4]}, 0, 0); face({h[1], h[2], h[6], h[5]}, 0, 0);
      // outward faces
      std::vector<VI> of; bool any = false, side = false;
      for (int f = 0; f < 6; f++) {
        VI q; for (int t = 0; t < 4; t++) q.push_back(h[STD_FV[HEX][f][t + 1]]);
        int d = diag[sorted(q)];
        if (!d) { of.push_back(q); continue; }
        any = true; if (f >= 2) side = true;
        const VI& cq = canon[sorted(q)];
        int a = d == 1 ? cq[0] : cq[1];
        int p = std::find(q.begin(), q.end(), a) - q.begin();
        VI g = {q[p], q[(p + 1) % 4], q[(p + 2) % 4], q[(p + 3) % 4]};
        of.push_back({g[0], g[1], g[2]}); of.push_back({g[0], g[2], g[3]});
      }
      auto center = [&]() {
        V3 x = {0, 0, 0}; for (int v : h) x = x + 0.125 * s.X[v];
        int m = s.X.size(); s.X.push_back(x);
        for (auto& f : of) {
          VI v(f.rbegin(), f.rend()); v.push_back(m);  // base seen from inside is ccw
          out.push_back(stdCell(f.size() == 3 ? TET : PYRAMID, v, nreg));
        }
      };
      auto poly = [&]() { Cell cl; cl.fv = of; cl.type = typeByFaces(of); if (cl.type != POLYHED) { center(); return; } out.push_back(cl); };
      bool allowpoly = o.polys && !o.standardOnly && !o.simplex;
      if (!any) {
        if (mode == 2 && r.coin()) center(); else out.push_back(stdCell(HEX, h, nreg));
      } else if (mode == 4) {
        // Kuhn: six tets around the diagonal h0-h6
        static const int P[6][3] = {{1, 2, 0}, {1, 5, 1}, {3, 2, 1}, {3, 7, 0}, {4, 5, 0}, {4, 7, 1}};
        for (auto& p : P) {
          VI v = {h[0], h[p[0]], h[p[1]], h[6]};
          V3 a = s.X[v[1]] - s.X[v[0]], b = s.X[v[2]] - s.X[v[0]], d = s.X[v[3]] - s.X[v[0]];
          if (dot(cross(a, b), d) < 0) std::swap(v[1], v[2]);
          out.push_back(stdCell(TET, v, nreg));
        }
      } else if (mode == 1 && !side) {
        int k2 = r.draw(allowpoly ? 4 : 3);
        if (k2 == 2) center();
        else if (k2 == 3) poly();
        else {
          VI t0 = col == 1 ? VI{0, 1, 2} : VI{1, 2, 3}, t1 = col == 1 ? VI{0, 2, 3} : VI{1, 3, 0};
          for (auto& t : {t0, t1}) out.push_back(stdCell(PRISM, {h[t[0]], h[t[1]], h[t[2]], h[t[0] + 4], h[t[1] + 4], h[t[2] + 4]}, nreg));
        }
      } else if (allowpoly && r.coin()) poly();
      else center();
    }
  }
  // merge cells into polyhedra
  if (o.polys && !o.simplex && !o.standardOnly && r.draw(2) == 1) {
    int tries = 1 + r.draw(std::max<int>(1, out.size() / 3));
    for (int t = 0; t < tries && out.size() > 1; t++) {
      int a = r.draw(out.size()); auto fa = cellFaces(out[a]); int k = r.draw(fa.size());
      VI key = sorted(fa[k]);
      for (size_t b = 0; b < out.size(); b++) if ((int)b != a) {
        auto fb = cellFaces(out[b]);
        bool share = false; for (auto& f : fb) if (sorted(f) == key) share = true;
        if (!share) continue;
        std::map<VI, int> cnt; for (auto& f : fa) cnt[sorted(f)]++; for (auto& f : fb) cnt[sorted(f)]++;
        std::vector<VI> m; for (auto& f : fa) if (cnt[sorted(f)] == 1) m.push_back(f); for (auto& f : fb) if (cnt[sorted(f)] == 1) m.push_back(f);
        if (!spherical(m) || typeByFaces(m) != POLYHED || m.size() > 70) break;
        Cell cl; cl.type = POLYHED; cl.fv = m; cl.reg = out[a].reg;
        std::set<int> vs; for (auto& f : m) vs.insert(f.begin(), f.end());
        std::set<int> vall; for (auto& f : fa) vall.insert(f.begin(), f.end()); for (auto& f : fb) vall.insert(f.begin(), f.end());
        if (vs.size() != vall.size()) break;  // would swallow a vertex
        out[a] = cl; out.erase(out.begin() + b);
        c.label("merged-polyhedra");
        break;
      }
    }
  }
  if (o.holes && out.size() > 2 && r.draw(3) == 2) {
    int k = 1 + r.draw(out.size() / 3 + 1);
    for (int i = 0; i < k && out.size() > 1; i++) out.erase(out.begin() + r.draw(out.size()));
    c.label("holes");
  }
  affine(c, s.X, false, false);
  int nreg = o.materials ? 1 + r.draw(3) : 1;
  for (auto& e : out) { e.reg = 1 + (nreg > 1 ? r.draw(nreg) : 0); s.C.push_back(e); }
  for (auto& e : out) c.label(e.type == TET ? "tet" : e.type == PYRAMID ? "pyramid" : e.type == PRISM ? "prism" : e.type == HEX ? "hex" : "polyhedron");
  compact(s);
  return s;
}

RMesh assemble(Case& c, const Soup& s0, const GenOpt& o, bool permute) {
  Soup s = s0; Src& r = c.s; RMesh m; m.topo = s.topo;
  bool perm = permute && r.coin();
  if (o.extras && r.coin()) {  // dangling entities
    c.label("extras");
    int k = 1 + r.draw(3);
    for (int i = 0; i < k; i++) {
      int a = r.draw(s.X.size());
      int b = s.X.size(); s.X.push_back({5.0 + i, 7.0, -3.0});
      if (s.topo == 3 && r.coin()) { int d = s.X.size(); s.X.push_back({5.0 + i, 8.0, -4.0}); s.danglingF.push_back({a, b, d}); }
      else s.danglingE.push_back({a, b});
    }
    if (r.coin()) { s.X.push_back({-9, -9, -9}); }
  }
  int nv = s.X.size();
  VI pv(nv); for (int i = 0; i < nv; i++) pv[i] = i;
  if (perm) pv = r.perm(nv);
  m.X.resize(nv); for (int i = 0; i < nv; i++) m.X[pv[i]] = s.X[i];
  auto re = [&](const VI& v) { VI w; for (int x : v) w.push_back(pv[x]); return w; };
  // faces
  std::vector<VI> fv; std::map<VI, int> fidx; std::vector<std::array<int, 2>> ev; std::map<std::pair<int, int>, int> eidx;
  VI elreg;
  auto addF = [&](VI f, bool flipok) {
    VI k = sorted(f);
    auto it = fidx.find(k);
    if (it != fidx.end()) return it->second;
    if (perm) { int rot = r.draw(f.size()); std::rotate(f.begin(), f.begin() + rot, f.end()); if (flipok && r.coin()) std::reverse(f.begin(), f.end()); }
    int id = fv.size(); fv.push_back(f); fidx[k] = id; return id;
  };
  bool flips = s.topo == 3 || (o.orientFlips && r.draw(3) == 2);
  if (s.topo == 2 && flips && perm) c.label("mixed-orientation");
  struct TR { VI f; std::vector<VI> cyc; int type; VI sv; int reg; };
  std::vector<TR> tr;
  VI freg;
  for (auto& cl : s.C) {
    if (s.topo == 2) { addF(re(cl.fv[0]), flips); freg.push_back(cl.reg); }
    else {
      TR t; t.type = cl.type; t.reg = cl.reg;
      if (cl.type != POLYHED) t.sv = re(cl.v);
      for (auto& f : cellFaces(cl)) { VI g = re(f); t.f.push_back(addF(g, true)); t.cyc.push_back(g); }
      if (perm && r.coin()) {
        VI p = r.perm(t.f.size()); TR u = t; for (size_t i = 0; i < p.size(); i++) { u.f[i] = t.f[p[i]]; u.cyc[i] = t.cyc[p[i]]; } t = u;
      }
      tr.push_back(t);
    }
  }
  int nelF = fv.size();
  for (auto& f : s.danglingF) addF(re(f), true);
  int nf = fv.size();
  VI pf(nf); for (int i = 0; i < nf; i++) pf[i] = i;
  if (perm) pf = r.perm(nf);
  // edges
  for (auto& f : fv) for (size_t i = 0; i < f.size(); i++) {
    int a = f[i], b = f[(i + 1) % f.size()];
    auto k = std::minmax(a, b);
    if (!eidx.count(k)) { eidx[k] = ev.size(); if (perm && r.coin()) std::swap(a, b); ev.push_back({a, b}); }
  }
  for (auto& e : s.danglingE) { auto k = std::minmax(pv[e[0]], pv[e[1]]); if (!eidx.count(k)) { eidx[k] = ev.size(); ev.push_back({pv[e[0]], pv[e[1]]}); } }
  int ne = ev.size();
  VI pe(ne); for (int i = 0; i < ne; i++) pe[i] = i;
  if (perm) pe = r.perm(ne);
  m.E.resize(ne); for (int i = 0; i < ne; i++) m.E[pe[i]] = ev[i];
  m.F.resize(nf);
  for (int i = 0; i < nf; i++) {
    RFace& F = m.F[pf[i]]; F.v = fv[i];
    for (size_t k = 0; k < F.v.size(); k++) {
      int a = F.v[k], b = F.v[(k + 1) % F.v.size()];
      int e = pe[eidx[std::minmax(a, b)]];
      F.e.push_back(e); F.d.push_back(m.E[e][0] == a ? 1 : 0);
    }
  }
  int nr = tr.size();
  VI pr(nr); for (int i = 0; i < nr; i++) pr[i] = i;
  if (perm) pr = r.perm(nr);
  m.R.resize(nr);
  VI er(s.topo == 3 ? nr : nf, 1);
  for (int i = 0; i < nr; i++) {
    RReg& R = m.R[pr[i]]; R.type = tr[i].type; R.sv = tr[i].sv;
    for (size_t k = 0; k < tr[i].f.size(); k++) { int f = pf[tr[i].f[k]]; R.f.push_back(f); R.d.push_back(sameCycle(m.F[f].v, tr[i].cyc[k], false) ? 1 : 0); }
    er[pr[i]] = tr[i].reg;
  }
  if (s.topo == 2) for (size_t i = 0; i < freg.size(); i++) er[pf[i]] = freg[i];
  m.derive();
  classify(c, m, er);
  return m;
}

void RMesh::derive() {
  vE.assign(X.size(), {}); eF.assign(E.size(), {}); fR.assign(F.size(), {});
  for (size_t i = 0; i < E.size(); i++) for (int k = 0; k < 2; k++) vE[E[i][k]].push_back(i);
  for (size_t i = 0; i < F.size(); i++) for (int e : F[i].e) eF[e].push_back(i);
  for (size_t i = 0; i < R.size(); i++) for (int f : R[i].f) fR[f].push_back(i);
  upok = false;
}
VI RMesh::regVerts(int r) const { std::set<int> s; for (int f : R[r].f) s.insert(F[f].v.begin(), F[f].v.end()); return VI(s.begin(), s.end()); }
VI RMesh::regEdges(int r) const { std::set<int> s; for (int f : R[r].f) s.insert(F[f].e.begin(), F[f].e.end()); return VI(s.begin(), s.end()); }
VI RMesh::vertsOf(int d, int i) const {
  if (d == 0) return {i};
  if (d == 1) return {E[i][0], E[i][1]};
  if (d == 2) return F[i].v;
  return regVerts(i);
}
void RMesh::buildUp() {
  for (int d = 0; d < 3; d++) for (int D = d + 1; D <= 3; D++) upc[d][D].assign(n(d), {});
  for (int i = 0; i < n(1); i++) for (int k : {0, 1}) upc[0][1][E[i][k]].push_back(i);
  for (int i = 0; i < n(2); i++) {
    for (int v : std::set<int>(F[i].v.begin(), F[i].v.end())) upc[0][2][v].push_back(i);
    for (int e : std::set<int>(F[i].e.begin(), F[i].e.end())) upc[1][2][e].push_back(i);
  }
  for (int i = 0; i < n(3); i++) {
    for (int v : regVerts(i)) upc[0][3][v].push_back(i);
    for (int e : regEdges(i)) upc[1][3][e].push_back(i);
    for (int f : std::set<int>(R[i].f.begin(), R[i].f.end())) upc[2][3][f].push_back(i);
  }
  upok = true;
}
VI RMesh::up(int d, int i, int D) const {
  if (!upok) const_cast<RMesh*>(this)->buildUp();
  return upc[d][D][i];
}
int RMesh::edgeBetween(int a, int b) const {
  for (int e : vE[a]) if ((E[e][0] == a && E[e][1] == b) || (E[e][0] == b && E[e][1] == a)) return e;
  return -1;
}
V3 RMesh::faceVecArea(int f) const {
  V3 s = {0, 0, 0}; const VI& v = F[f].v; int n = v.size();
  V3 c = {0, 0, 0}; for (int x : v) c = c + (1.0 / n) * X[x];
  for (int i = 0; i < n; i++) s = s + 0.5 * cross(X[v[i]] - c, X[v[(i + 1) % n]] - c);
  return s;
}
double RMesh::faceArea(int f) const { return len(faceVecArea(f)); }
double RMesh::regVolume(int r) const {
  double vol = 0;
  for (size_t k = 0; k < R[r].f.size(); k++) {
    const VI& v = F[R[r].f[k]].v; int n = v.size(); double s = 0;
    V3 c = {0, 0, 0}; for (int x : v) c = c + (1.0 / n) * X[x];
    for (int i = 0; i < n; i++) s += dot(c, cross(X[v[i]], X[v[(i + 1) % n]])) / 6.0;
    vol += R[r].d[k] ? s : -s;
  }
  return vol;
}
double RMesh::totalVolume() const { double s = 0; for (size_t i = 0; i < R.size(); i++) s += regVolume(i); return s; }
double RMesh::totalArea() const { double s = 0; for (size_t i = 0; i < F.size(); i++) s += faceArea(i); return s; }

void classify(Case& c, RMesh& m, const VI& er) {
  (void)c;
  m.buildUp();
  for (int d = 0; d < 4; d++) { m.gd[d].assign(m.n(d), 0); m.gi[d].assign(m.n(d), 0); }
  int T = m.topo;
  if (T == 3) {
    for (int i = 0; i < m.n(3); i++) { m.gd[3][i] = 3; m.gi[3][i] = er[i]; }
    for (int f = 0; f < m.n(2); f++) {
      VI r = m.up(2, f, 3);
      if (r.size() == 2 && er[r[0]] == er[r[1]]) { m.gd[2][f] = 3; m.gi[2][f] = er[r[0]]; }
      else if (r.size() == 2) { m.gd[2][f] = 2; m.gi[2][f] = 100 + std::min(er[r[0]], er[r[1]]) * 10 + std::max(er[r[0]], er[r[1]]); }
      else if (r.size() == 1) {
        V3 a = m.faceVecArea(f); int k = 0; for (int d = 1; d < 3; d++) if (std::fabs(a[d]) > std::fabs(a[k])) k = d;
        m.gd[2][f] = 2; m.gi[2][f] = 1 + 2 * k + (a[k] > 0) + 10 * (er[r[0]] - 1);
      } else { m.gd[2][f] = 2; m.gi[2][f] = 99; }
    }
  } else {
    for (int f = 0; f < m.n(2); f++) { m.gd[2][f] = 2; m.gi[2][f] = er[f]; }
  }
  for (int e = 0; e < m.n(1); e++) {
    VI f = m.up(1, e, 2); std::set<int> ids; int n2 = 0, g3 = 0, bnd = 0;
    for (int x : f) { if (m.gd[2][x] == 2) { ids.insert(m.gi[2][x]); n2++; } else g3 = m.gi[2][x]; }
    (void)bnd;
    if (f.empty()) { m.gd[1][e] = 1; m.gi[1][e] = 77; }
    else if (T == 3 && n2 == 0) { m.gd[1][e] = 3; m.gi[1][e] = g3; }
    else if (n2 == 2 && ids.size() == 1) { m.gd[1][e] = 2; m.gi[1][e] = *ids.begin(); }
    else { m.gd[1][e] = 1; int h = 0; for (int x : ids) h = h * 7 + x; m.gi[1][e] = 1 + h % 1000 + n2; }
  }
  for (int v = 0; v < m.n(0); v++) {
    VI es = m.up(0, v, 1), fs = m.up(0, v, 2); std::set<int> e1, f2; int n1 = 0, g3 = 0;
    for (int e : es) if (m.gd[1][e] == 1) { e1.insert(m.gi[1][e]); n1++; }
    for (int f : fs) { if (m.gd[2][f] == 2) f2.insert(m.gi[2][f]); else g3 = m.gi[2][f]; }
    if (n1 == 0 && f2.size() == 1) { m.gd[0][v] = 2; m.gi[0][v] = *f2.begin(); }
    else if (n1 == 0 && f2.empty() && T == 3 && !fs.empty()) { m.gd[0][v] = 3; m.gi[0][v] = g3; }
    else if (n1 == 2 && e1.size() == 1) { m.gd[0][v] = 1; m.gi[0][v] = *e1.begin(); }
    else { m.gd[0][v] = 0; m.gi[0][v] = v + 1; }
  }
}

RMesh genMesh2D(Case& c, const GenOpt& o) { return assemble(c, genSoup2D(c, o), o); }
RMesh genMesh3D(Case& c, const GenOpt& o) { return assemble(c, genSoup3D(c, o), o); }
RMesh genMesh(Case& c, const GenOpt& o) { return c.s.coin() ? genMesh3D(c, o) : genMesh2D(c, o); }
std::string describe(const RMesh& m) {
  std::map<std::string, int> t;
  if (m.topo == 2) for (auto& f : m.F) t[f.v.size() == 3 ? "tri" : f.v.size() == 4 ? "quad" : "polygon"]++;
  for (auto& r : m.R) t[r.type == TET ? "tet" : r.type == PYRAMID ? "pyr" : r.type == PRISM ? "prism" : r.type == HEX ? "hex" : "poly"]++;
  std::string s = pbt::format("%dD V=%zu E=%zu F=%zu R=%zu", m.topo, m.X.size(), m.E.size(), m.F.size(), m.R.size());
  for (auto& kv : t) s += pbt::format(" %s:%d", kv.first.c_str(), kv.second);
  return s;
}
