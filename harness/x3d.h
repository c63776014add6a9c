// FLAG X3D files: an independent parser, and the sides of the elements of the model as the format has them.
#pragma once
#include "rmesh.h"
namespace x3df {
static VI rot(VI v) { std::rotate(v.begin(), std::min_element(v.begin(), v.end()), v.end()); return v; }
struct XFace { VI v; int pid, opid, opp; };
struct XFile { std::vector<std::array<int, 3>> ghost; VI partelm; std::map<std::string, int> hdr; std::map<int, std::string> mats; std::vector<V3> X; std::vector<XFace> F; std::vector<VI> C; VI matid; std::vector<std::pair<std::string, std::vector<double>>> cell; std::vector<std::pair<std::string, std::vector<V3>>> node; };
static XFile parse(Case& c, const char* path, int pid = 0) {   // pid 0: of a serial mesh, else the process (numbered from 1) that wrote it
  XFile g; FILE* fp = fopen(path, "r"); REQ(c, fp, "file", "no file %s", path); char t[4096];
  auto word = [&](const std::string& what) { REQ(c, fscanf(fp, "%4000s", t) == 1, "file-truncated", "file ends where %s is expected", what.c_str()); return std::string(t); };
  auto key = [&](const std::string& k) { REQ(c, word(k) == k, "file-syntax", "'%s' where '%s' is expected", t, k.c_str()); };
  auto num = [&](const char* what) { word(what); char* e; long v = strtol(t, &e, 10); REQ(c, !*e, "file-syntax", "'%s' where an integer (%s) is expected", t, what); return (int)v; };
  auto real = [&](const char* what) { word(what); char* e; double v = strtod(t, &e); REQ(c, !*e, "file-syntax", "'%s' where a number (%s) is expected", t, what); return v; };
  key("x3dtoflag"); key("ascii"); key("header");
  for (const char* k : {"process", "numdim", "materials", "nodes", "faces", "elements", "ghost_nodes", "slaved_nodes", "nodes_per_slave", "nodes_per_face", "faces_per_cell", "node_data_fields", "cell_data_fields"}) { key(k); g.hdr[k] = num(k); }
  key("end_header");
  for (const char* k : {"matnames", "mateos", "matopc"}) { key(k); for (int i = 0; i < g.hdr["materials"]; i++) { int id = num("material"); std::string s = word("name"); if (!strcmp(k, "matnames")) { REQ(c, id == i + 1, "file-material", "material %d is numbered %d", i + 1, id); g.mats[id] = s; } } key(std::string("end_") + k); }
  key("nodes"); for (int i = 0; i < g.hdr["nodes"]; i++) { REQ(c, num("node") == i + 1, "file-number", "node %d is numbered %s", i + 1, t); V3 x; for (double& z : x) z = real("coordinate"); g.X.push_back(x); } key("end_nodes");
  key("faces"); for (int i = 0; i < g.hdr["faces"]; i++) { REQ(c, num("face") == i + 1, "file-number", "face %d is numbered %s", i + 1, t); XFace f; int n = num("size"); REQ(c, n <= g.hdr["nodes_per_face"], "file-header", "face with %d nodes, header says at most %d", n, g.hdr["nodes_per_face"]); for (int k = 0; k < n; k++) { int v = num("node"); REQ(c, v >= 1 && v <= (int)g.X.size(), "file-node", "node %d of %zu", v, g.X.size()); f.v.push_back(v - 1); } f.pid = num("process"); f.opid = num("process"); f.opp = num("face"); for (int k = 0; k < 5; k++) num("filler"); g.F.push_back(f); } key("end_faces");
  key("cells"); for (int i = 0; i < g.hdr["elements"]; i++) { REQ(c, num("cell") == i + 1, "file-number", "cell %d is numbered %s", i + 1, t); VI f; int n = num("size"); REQ(c, n <= g.hdr["faces_per_cell"], "file-header", "cell with %d faces, header says at most %d", n, g.hdr["faces_per_cell"]); for (int k = 0; k < n; k++) { int v = num("face"); REQ(c, v >= 1 && v <= (int)g.F.size(), "file-face", "face %d of %zu", v, g.F.size()); f.push_back(v - 1); } g.C.push_back(f); } key("end_cells");
  key("slaved_nodes"); num("count"); key("end_slaved_nodes"); key("ghost_nodes"); { int n = num("count"); REQ(c, n == g.hdr["ghost_nodes"] && (pid || !n), "file-header", "%d ghost nodes, header says %d", n, g.hdr["ghost_nodes"]); for (int i = 0; i < n; i++) { std::array<int, 3> q; for (int& z : q) z = num("ghost node"); num("filler"); g.ghost.push_back(q); } } key("end_ghost_nodes");
  key("cell_data"); int nc = 0;
  for (;;) { std::string n = word("cell data"); if (n == "end_cell_data") break; nc++; if (n == "matid") { for (int i = 0; i < g.hdr["elements"]; i++) g.matid.push_back(num("material")); } else { std::vector<double> v; for (int i = 0; i < g.hdr["elements"]; i++) v.push_back(real("value")); if (n == "partelm") for (double x : v) g.partelm.push_back((int)x); else g.cell.push_back({n, v}); } key("end_" + n); }
  key("node_data"); int nn = 0; for (;;) { std::string n = word("node data"); if (n == "end_node_data") break; nn++; std::vector<V3> v; for (size_t i = 0; i < g.X.size(); i++) { V3 x; for (double& z : x) z = real("value"); v.push_back(x); } g.node.push_back({n, v}); key("end_" + n); }
  key("end_dump"); REQ(c, fscanf(fp, "%4000s", t) != 1, "file-syntax", "'%s' after the end", t); fclose(fp);
  REQ(c, nc == g.hdr["cell_data_fields"] && nn == g.hdr["node_data_fields"], "file-header", "%d cell and %d node fields, header says %d and %d", nc, nn, g.hdr["cell_data_fields"], g.hdr["node_data_fields"]);
  VI used(g.F.size(), 0); for (auto& q : g.C) for (int f : q) REQ(c, !used[f]++, "face-use", "face %d is used by two cells", f + 1);
  for (size_t i = 0; i < g.F.size(); i++) { auto& f = g.F[i]; REQ(c, used[i], "face-use", "face %zu is used by no cell", i + 1); REQ(c, f.pid == (pid ? pid : 1), "face-process", "face %zu is on process %d", i + 1, f.pid); REQ(c, (f.opp != 0) == (f.opid != 0), "face-pair", "face %zu is opposite to face %d of process %d", i + 1, f.opp, f.opid); if (!f.opp || (pid && f.opid != pid)) continue; REQ(c, f.opid == (pid ? pid : 1) && f.opp >= 1 && f.opp <= (int)g.F.size() && g.F[f.opp - 1].opp == (int)i + 1, "face-pair", "face %zu is opposite to face %d", i + 1, f.opp); VI r = g.F[f.opp - 1].v; std::reverse(r.begin(), r.end()); REQ(c, rot(r) == rot(f.v), "face-pair", "faces %zu %s and %d %s are paired", i + 1, str(f.v).c_str(), f.opp, str(g.F[f.opp - 1].v).c_str()); }
  return g;
}
static VI numbers(Case& c, const std::string& path) { VI r; FILE* fp = fopen(path.c_str(), "r"); REQ(c, fp, "set-file", "no file %s", path.c_str()); char l[256]; while (fgets(l, 256, fp)) { if (l[0] == '\n') break; r.push_back(atoi(l)); } fclose(fp); return r; }

// sides of element k of the model, as the cell uses them (outward / along the face)
static std::vector<VI> sides(const RMesh& m, int k) { std::vector<VI> r; if (m.topo == 3) for (size_t i = 0; i < m.R[k].f.size(); i++) { VI v = m.F[m.R[k].f[i]].v; if (!m.R[k].d[i]) std::reverse(v.begin(), v.end()); r.push_back(v); } else for (size_t i = 0; i < m.F[k].v.size(); i++) r.push_back({m.F[k].v[i], m.F[k].v[(i + 1) % m.F[k].v.size()]}); return r; }
static VI canon(const RMesh& m, const VI& v) { return m.topo == 3 ? rot(v) : v; }
static bool holds(Case& c, RMesh& m) {  // what the format can hold: a manifold, consistently oriented
  if (!distinctPoints(m, 0) || !distinctShapes(m)) { c.label("skip-coincident"); return false; }
  std::set<VI> s; for (int k = 0; k < m.n(m.topo); k++) for (auto& v : sides(m, k)) if (!s.insert(canon(m, v)).second) { c.label("skip-not-oriented"); return false; }
  m.derive(); if (m.topo == 2) for (auto& f : m.eF) if (f.empty() || f.size() > 2) return false; if (m.topo == 3) for (auto& r : m.fR) if (r.empty()) return false; return true;
}
}
