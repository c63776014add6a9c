// GMV files: an independent parser.
#pragma once
#include "rmesh.h"
namespace gmvf {
// cells by vertices in file order; faces outward (GMV manual: pyramid apex first, hex and prism top first)
static const std::vector<VI> GT[4] = {{{0, 1, 2}, {0, 2, 3}, {0, 3, 1}, {1, 3, 2}}, {{0, 1, 2}, {0, 2, 3}, {0, 3, 4}, {0, 4, 1}, {1, 4, 3, 2}},
  {{0, 1, 2}, {3, 5, 4}, {0, 3, 4, 1}, {1, 4, 5, 2}, {2, 5, 3, 0}}, {{0, 1, 2, 3}, {4, 7, 6, 5}, {0, 4, 5, 1}, {1, 5, 6, 2}, {2, 6, 7, 3}, {3, 7, 4, 0}}};
static const char* GN[4] = {"tet", "pyramid", "prism", "hex"}; static const int GV[4] = {4, 5, 6, 8};
static const int GP[4][8] = {{0, 2, 1, 3}, {4, 0, 1, 2, 3}, {3, 4, 5, 0, 1, 2}, {4, 5, 6, 7, 0, 1, 2, 3}};  // GMV position -> MSTK position
static int kindOf(int t) { return t == TET ? 0 : t == PYRAMID ? 1 : t == PRISM ? 2 : t == HEX ? 3 : -1; }
static VI rot(VI v) { std::rotate(v.begin(), std::min_element(v.begin(), v.end()), v.end()); return v; }

struct GCell { int dim; VI v; std::vector<VI> faces; };  // vertices (0-based), outward faces for dim 3
struct GVar { std::string name; int on; std::vector<double> val; };
struct GFile { std::vector<V3> X; std::vector<GCell> cells; VI mat; std::vector<std::string> mats; std::vector<GVar> vars; bool vface = false; };

static GFile parse(Case& c, const char* path) {
  GFile g; FILE* fp = fopen(path, "r"); REQ(c, fp, "file", "no file %s", path); char t[4096]; bool end = false;
  auto word = [&](const char* what) { REQ(c, fscanf(fp, "%4000s", t) == 1, "file-truncated", "file ends where %s is expected", what); return std::string(t); };
  auto num = [&](const char* what) { word(what); char* e; long v = strtol(t, &e, 10); REQ(c, !*e, "file-syntax", "'%s' where an integer (%s) is expected", t, what); return (int)v; };
  auto real = [&](const char* what) { word(what); char* e; double v = strtod(t, &e); REQ(c, !*e, "file-syntax", "'%s' where a number (%s) is expected", t, what); return v; };
  auto vtx = [&]() { int v = num("node number"); REQ(c, v >= 1 && v <= (int)g.X.size(), "file-node", "node %d of %zu", v, g.X.size()); return v - 1; };
  REQ(c, word("header") == "gmvinput" && word("header") == "ascii", "file-syntax", "header");
  while (!end) {
    std::string k = word("keyword");
    if (k == "codename" || k == "simdate") word("name"); else if (k == "endgmv") end = true;
    else if (k == "nodev") { int n = num("count"); g.X.resize(n); for (auto& x : g.X) for (int i = 0; i < 3; i++) x[i] = real("coordinate"); }
    else if (k == "nodes") { int n = num("count"); g.X.resize(n); for (int i = 0; i < 3; i++) for (auto& x : g.X) x[i] = real("coordinate"); }
    else if (k == "cells") {
      int n = num("count"); std::vector<VI> vf;
      for (int i = 0; i < n; i++) {
        std::string s = word("cell type"); GCell q; int m = num("size");
        if (s == "line" || s == "tri" || s == "quad") { q.dim = s == "line" ? 1 : 2; REQ(c, m == (s == "line" ? 2 : s == "tri" ? 3 : 4), "file-syntax", "%s with %d nodes", t, m); for (int j = 0; j < m; j++) q.v.push_back(vtx()); }
        else if (s == "general") { VI nn; for (int j = 0; j < m; j++) nn.push_back(num("face size")); for (int j = 0; j < m; j++) { VI f; for (int z = 0; z < nn[j]; z++) f.push_back(vtx()); q.faces.push_back(f); } if (m == 1) { q.dim = 2; q.v = q.faces[0]; } else q.dim = 3; }
        else if (s == "vface3d") { VI f; for (int j = 0; j < m; j++) f.push_back(num("face number")); vf.push_back(f); q.dim = 3; g.vface = true; }
        else { int z = -1; for (int j = 0; j < 4; j++) if (s == GN[j]) z = j; REQ(c, z >= 0 && m == GV[z], "file-syntax", "cell '%s' with %d nodes", s.c_str(), m); q.dim = 3; VI v; for (int j = 0; j < m; j++) v.push_back(vtx()); for (auto& f : GT[z]) { VI w; for (int j : f) w.push_back(v[j]); q.faces.push_back(w); } }
        g.cells.push_back(q);
      }
      if (g.vface) {
        REQ(c, vf.size() == g.cells.size(), "file-syntax", "vface3d mixed with other cells"); REQ(c, word("vfaces") == "vfaces", "file-syntax", "'%s' after vface3d cells", t); int m = num("count"); std::vector<VI> F(m); VI opp(m), own(m), used(m, 0);
        for (int j = 0; j < m; j++) { int z = num("size"); num("processor"); opp[j] = num("opposite"); num("processor"); own[j] = num("cell"); for (int i = 0; i < z; i++) F[j].push_back(vtx()); }
        for (int i = 0; i < n; i++) for (int f : vf[i]) { REQ(c, f >= 1 && f <= m, "vface-number", "cell %d uses face %d of %d", i + 1, f, m); REQ(c, !used[f - 1]++, "vface-twice", "face %d is used twice", f); REQ(c, own[f - 1] == i + 1, "vface-cell", "face %d belongs to cell %d, is used by cell %d", f, own[f - 1], i + 1); g.cells[i].faces.push_back(F[f - 1]); }
        for (int j = 0; j < m; j++) { REQ(c, used[j], "vface-unused", "face %d is not used", j + 1); if (!opp[j]) continue; int o = opp[j] - 1; REQ(c, o >= 0 && o < m && opp[o] == j + 1, "vface-opposite", "face %d is opposite to %d, which is opposite to %d", j + 1, o + 1, o >= 0 && o < m ? opp[o] : -1); VI a = F[j], r = F[o]; std::reverse(r.begin(), r.end()); REQ(c, rot(a) == rot(r), "vface-opposite", "face %d %s is opposite to face %d %s", j + 1, str(F[j]).c_str(), o + 1, str(F[o]).c_str()); }
      }
    } else if (k == "material") { int n = num("count"), on = num("kind"); REQ(c, on == 0, "file-syntax", "material on nodes"); for (int i = 0; i < n; i++) g.mats.push_back(word("material name")); for (size_t i = 0; i < g.cells.size(); i++) g.mat.push_back(num("material")); }
    else if (k == "variable") for (;;) { GVar v; v.name = word("variable name"); if (v.name == "endvars") break; v.on = num("kind"); size_t n = v.on ? g.X.size() : g.cells.size(); for (size_t i = 0; i < n; i++) v.val.push_back(real("value")); g.vars.push_back(v); }
    else REQ(c, false, "file-syntax", "unknown keyword '%s'", k.c_str());
  }
  REQ(c, fscanf(fp, "%4000s", t) != 1, "file-syntax", "'%s' after the end", t); fclose(fp); return g;
}
// cells of the model in dimension order 3, 2, 1 (only those not used by a higher one)
static std::vector<std::pair<int, int>> cellsOf(const RMesh& m) {
  std::vector<std::pair<int, int>> r; std::vector<char> u[4]; for (int d = 0; d < 4; d++) u[d].assign(m.n(d), 0); for (auto& R : m.R) for (int f : R.f) u[2][f] = 1; for (auto& F : m.F) for (int e : F.e) u[1][e] = 1;
  for (int d = 3; d > 0; d--) for (int i = 0; i < m.n(d); i++) if (!u[d][i]) r.push_back({d, i}); return r;
}
}
