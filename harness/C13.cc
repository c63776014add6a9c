#include "rmesh.h"
extern "C" void MESH_Reset_Cached_MaxIDs(Mesh_ptr);
// STL, OFF and DX files, read by independent strict parsers, against the model.
static VI rot(VI v) { std::rotate(v.begin(), std::min_element(v.begin(), v.end()), v.end()); return v; }
static std::vector<std::string> lines(Case& c, const char* path) { FILE* fp = fopen(path, "r"); REQ(c, fp, "file", "no file %s", path); std::string all; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, fp))) all.append(b, n); fclose(fp); REQ(c, !all.empty(), "file-empty", "%s is empty after the export returned", path); std::vector<std::string> r(1); for (char ch : all) if (ch == '\n') r.emplace_back(); else r.back() += ch; REQ(c, r.back().empty(), "file-truncated", "%s does not end with a newline: '%s'", path, r.back().c_str()); r.pop_back(); return r; }
static std::vector<std::string> words(const std::string& s) { std::vector<std::string> r; std::string w; for (char ch : s + " ") if (isspace(ch)) { if (!w.empty()) r.push_back(w); w.clear(); } else w += ch; return r; }
static double real(Case& c, const std::string& s) { char* e; double v = strtod(s.c_str(), &e); REQ(c, !s.empty() && !*e, "file-syntax", "'%s' is not a number", s.c_str()); return v; }
static int num(Case& c, const std::string& s) { char* e; long v = strtol(s.c_str(), &e, 10); REQ(c, !s.empty() && !*e, "file-syntax", "'%s' is not an integer", s.c_str()); return (int)v; }

static void stl(Case& c, const RMesh& m, BM& b) {
  bool tri = true; for (auto& f : m.F) tri &= f.v.size() == 3;
  int st = c.s.coin() ? MESH_ExportToSTL(b.m, "a.stl") : MESH_ExportToFile(b.m, "a.stl", "stl", 0, NULL, NULL, NULL);
  if (m.n(3) || !tri) { REQ(c, st == 0, "return", "export of what STL cannot hold returned %d", st); c.label("refused"); return; }
  REQ(c, st == 1, "return", "export returned %d", st); auto L = lines(c, "a.stl"); size_t k = 0; auto next = [&]() { REQ(c, k < L.size(), "file-truncated", "file ends at line %zu", k); return words(L[k++]); };
  auto w = next(); REQ(c, w.size() >= 1 && w[0] == "solid", "file-syntax", "first line '%s'", L[0].c_str()); double big = 0; for (auto& x : m.X) for (double z : x) big = std::max(big, std::fabs(z));
  for (int i = 0; i < m.n(2); i++) {
    w = next(); REQ(c, w.size() == 5 && w[0] == "facet" && w[1] == "normal", "file-syntax", "line %zu is '%s', expected facet %d", k, L[k - 1].c_str(), i); V3 n = {real(c, w[2]), real(c, w[3]), real(c, w[4])};
    w = next(); REQ(c, w.size() == 2 && w[0] == "outer" && w[1] == "loop", "file-syntax", "line %zu is '%s', expected 'outer loop'", k, L[k - 1].c_str()); std::vector<V3> p;
    for (int z = 0; z < 3; z++) { w = next(); REQ(c, w.size() == 4 && w[0] == "vertex", "file-syntax", "line %zu is '%s', expected a vertex", k, L[k - 1].c_str()); p.push_back({real(c, w[1]), real(c, w[2]), real(c, w[3])}); }
    for (const char* e : {"endloop", "endfacet"}) { w = next(); REQ(c, w.size() == 1 && w[0] == e, "file-syntax", "line %zu is '%s', expected '%s'", k, L[k - 1].c_str(), e); }
    auto& v = m.F[i].v; bool ok = false; for (int s = 0; s < 3; s++) { bool q = true; for (int z = 0; z < 3; z++) for (int d = 0; d < 3; d++) q &= std::fabs(p[z][d] - m.X[v[(s + z) % 3]][d]) <= 1e-7 * big; ok |= q; }
    REQ(c, ok, "facet", "facet %d is (%g %g %g) (%g %g %g) (%g %g %g), not face %s", i, p[0][0], p[0][1], p[0][2], p[1][0], p[1][1], p[1][2], p[2][0], p[2][1], p[2][2], str(v).c_str());
    V3 a = m.faceVecArea(i); double la = len(a); if (la > 1e-12 * big * big) for (int d = 0; d < 3; d++) REQ(c, std::fabs(n[d] - a[d] / la) <= 1e-3, "normal", "normal of facet %d is (%g %g %g), expected (%g %g %g)", i, n[0], n[1], n[2], a[0] / la, a[1] / la, a[2] / la); }
  w = next(); REQ(c, w.size() >= 1 && w[0] == "endsolid", "file-syntax", "line %zu is '%s', expected endsolid", k, L[k - 1].c_str()); REQ(c, k == L.size(), "file-syntax", "text after endsolid"); if (m.n(2) > 1) c.nontrivial();
}
static void off(Case& c, const RMesh& m, BM& b) {
  int st = c.s.coin() ? MESH_ExportToOFF(b.m, "a.off") : MESH_ExportToFile(b.m, "a.off", c.s.coin() ? "off" : NULL, 0, NULL, NULL, NULL);
  if (m.n(3)) { REQ(c, st == 0, "return", "export of a volume mesh returned %d", st); c.label("refused"); return; }
  REQ(c, st == 1, "return", "export returned %d", st); auto L = lines(c, "a.off"); REQ(c, (int)L.size() == 2 + m.n(0) + m.n(2), "file-count", "%zu lines for %d vertices and %d faces", L.size(), m.n(0), m.n(2));
  REQ(c, words(L[0]) == std::vector<std::string>{"OFF"}, "file-syntax", "first line '%s'", L[0].c_str()); auto w = words(L[1]); REQ(c, w.size() == 3 && num(c, w[0]) == m.n(0) && num(c, w[1]) == m.n(2) && num(c, w[2]) == m.n(1), "file-count", "header '%s' for %d vertices, %d faces, %d edges", L[1].c_str(), m.n(0), m.n(2), m.n(1));
  double big = 0; for (auto& x : m.X) for (double z : x) big = std::max(big, std::fabs(z));
  for (int i = 0; i < m.n(0); i++) { w = words(L[2 + i]); REQ(c, w.size() == 3, "file-syntax", "vertex line '%s'", L[2 + i].c_str()); for (int d = 0; d < 3; d++) REQ(c, std::fabs(real(c, w[d]) - m.X[i][d]) <= 1e-9 * big, "coordinate", "vertex %d is '%s', expected %.15g %.15g %.15g", i, L[2 + i].c_str(), m.X[i][0], m.X[i][1], m.X[i][2]); }
  for (int i = 0; i < m.n(2); i++) { w = words(L[2 + m.n(0) + i]); VI v; for (size_t k = 1; k < w.size(); k++) v.push_back(num(c, w[k])); REQ(c, w.size() >= 1 && num(c, w[0]) == (int)v.size(), "file-syntax", "face line '%s'", L[2 + m.n(0) + i].c_str()); REQ(c, sameCycle(v, m.F[i].v, false), "face", "face %d is %s, expected %s (numbered from 0)", i, str(v).c_str(), str(m.F[i].v).c_str()); }
  if (m.n(2) > 1) c.nontrivial();
}
static void dx(Case& c, const RMesh& m, BM& b) {
  std::string base = c.s.coin() ? "a" : "some.long-name"; int st = c.s.coin() ? MESH_ExportToDX(b.m, (base + ".dx").c_str(), 1) : MESH_ExportToFile(b.m, (base + ".dx").c_str(), "dx", 0, NULL, NULL, NULL); REQ(c, st == 1, "return", "export returned %d", st);
  auto L = lines(c, (base + ".dx").c_str()); std::string dat; { FILE* fp = fopen((base + ".dat").c_str(), "rb"); REQ(c, fp, "file", "no data file"); char q[65536]; size_t n; while ((n = fread(q, 1, sizeof q, fp))) dat.append(q, n); fclose(fp); }
  struct Arr { bool flt; int rank1, items; std::vector<double> v; std::map<std::string, std::string> att; }; std::map<int, Arr> A; std::map<std::string, std::map<std::string, int>> fields; std::map<std::string, int>* cur = nullptr; Arr* arr = nullptr; size_t used = 0; bool end = false;
  for (size_t k = 0; k < L.size(); k++) {
    auto w = words(L[k]); if (w.empty()) continue; REQ(c, !end, "dx-syntax", "text after end: '%s'", L[k].c_str()); const char* t = L[k].c_str();
    if (w[0] == "end") end = true;
    else if (w[0] == "object" && w.size() > 3 && w[3] == "array") { int id = num(c, w[1]); REQ(c, !A.count(id), "dx-object", "object %d twice", id); Arr a; size_t p = 4; auto eat = [&](const char* x) { REQ(c, p < w.size() && w[p] == x, "dx-syntax", "'%s': expected %s", t, x); p++; }; auto val = [&]() { REQ(c, p < w.size(), "dx-syntax", "'%s' is cut", t); return w[p++]; };
      eat("type"); std::string ty = val(); a.flt = ty == "float"; REQ(c, a.flt || ty == "int", "dx-syntax", "type %s", ty.c_str()); eat("rank"); int rk = num(c, val()); a.rank1 = 1; if (rk) { REQ(c, rk == 1, "dx-syntax", "rank %d", rk); eat("shape"); a.rank1 = num(c, val()); } eat("items"); a.items = num(c, val()); std::string order = val(); eat("binary"); REQ(c, order == "lsb" || order == "msb", "dx-syntax", "byte order '%s'", order.c_str());
      k++; REQ(c, k < L.size(), "dx-syntax", "no data line"); std::string dl = L[k]; for (char& ch : dl) if (ch == ',') ch = ' '; auto d = words(dl); REQ(c, d.size() == 4 && d[0] == "data" && d[1] == "file" && d[2] == base + ".dat", "dx-syntax", "data line '%s'", L[k].c_str()); size_t off = num(c, d[3]), n = (size_t)a.rank1 * a.items; REQ(c, off == used && off + 4 * n <= dat.size(), "dx-offset", "object %d is %zu numbers at %zu of a file of %zu bytes; the previous one ended at %zu", id, n, off, dat.size(), used); used = off + 4 * n;
      for (size_t z = 0; z < n; z++) { unsigned char q[4]; memcpy(q, dat.data() + off + 4 * z, 4); uint32_t u = order == "lsb" ? q[0] | q[1] << 8 | q[2] << 16 | (uint32_t)q[3] << 24 : q[3] | q[2] << 8 | q[1] << 16 | (uint32_t)q[0] << 24; float f; memcpy(&f, &u, 4); a.v.push_back(a.flt ? (double)f : (double)(int32_t)u); }
      arr = &(A[id] = a); cur = nullptr; }
    else if (w[0] == "attribute") { REQ(c, arr, "dx-syntax", "'%s' outside of an array", t); std::string s = t; std::vector<std::string> q; size_t p = 0; while ((p = s.find('"', p)) != std::string::npos) { size_t e = s.find('"', p + 1); REQ(c, e != std::string::npos, "dx-syntax", "'%s'", t); q.push_back(s.substr(p + 1, e - p - 1)); p = e + 1; } REQ(c, q.size() == 2, "dx-syntax", "'%s'", t); arr->att[q[0]] = q[1]; }
    else if (w[0] == "object") { REQ(c, w.size() == 4 && w[2] == "class" && w[3] == "field", "dx-syntax", "'%s'", t); REQ(c, !fields.count(w[1]), "dx-object", "field %s twice", w[1].c_str()); cur = &fields[w[1]]; arr = nullptr; }
    else if (w[0] == "component") { REQ(c, cur && w.size() == 4 && w[2] == "value", "dx-syntax", "'%s'", t); int id = num(c, w[3]); REQ(c, A.count(id), "dx-object", "'%s' refers to no object", t); (*cur)[w[1]] = id; }
    else c.fail("dx-syntax", "line '%s'", t);
  }
  REQ(c, end, "dx-syntax", "no end"); REQ(c, used == dat.size(), "dx-offset", "the header describes %zu of the %zu bytes of data", used, dat.size());
  REQ(c, A.count(1) && A[1].flt && A[1].rank1 == 3 && A[1].items >= m.n(0), "dx-positions", "positions"); auto& P = A[1].v; auto ftol = [](double a, double b) { return std::fabs(a - b) <= 1e-5 * std::fabs(b) + 1e-37; };
  for (int i = 0; i < m.n(0); i++) for (int d = 0; d < 3; d++) REQ(c, ftol(P[3 * i + d], m.X[i][d]), "dx-positions", "coordinate %d of position %d is %g, expected %g", d, i, P[3 * i + d], m.X[i][d]);
  double big = 0; for (auto& x : m.X) for (double z : x) big = std::max(big, std::fabs(z));
  std::set<int> refd; auto idx = [&](Arr& a, size_t z, int n, const char* what) { double v = a.v[z]; REQ(c, v >= 0 && v < n, "dx-index", "%s %g of %d", what, v, n); return (int)v; };
  auto field = [&](const char* nm, const char* type, int shape, Arr*& con, Arr*& data) { auto it = fields.find(std::string("\"") + nm + "\""); if (it == fields.end()) return false; auto& f = it->second; for (auto& q : f) refd.insert(q.second); REQ(c, f.size() == 3 && f["\"positions\""] == 1 && f.count("\"connections\"") && f.count("\"data\""), "dx-field", "field %s has not its three components", nm); con = &A[f["\"connections\""]]; data = &A[f["\"data\""]]; REQ(c, !con->flt && con->rank1 == shape && con->att["element type"] == type && con->att["ref"] == "positions", "dx-field", "connections of %s", nm); REQ(c, data->flt && data->rank1 == 1 && data->items == con->items && data->att["dep"] == "connections", "dx-field", "data of %s: %d values for %d elements", nm, data->items, con->items); return true; };
  // faces without regions: triangles, or fans about the centre
  std::multiset<std::pair<VI, int>> want, got; bool many = false; for (int i = 0; i < m.n(2); i++) if (m.fR[i].empty()) { want.insert({rot(m.F[i].v), m.gi[2][i]}); many |= m.F[i].v.size() > 3; }
  Arr *con, *data; int nf = 0; if (field("tris", "triangles", 3, con, data)) { nf++; std::map<int, std::map<int, int>> fan; std::map<int, std::set<int>> fg; int np = A[1].items;
    for (int i = 0; i < con->items; i++) { VI t; for (int z = 0; z < 3; z++) t.push_back(idx(*con, 3 * i + z, np, "vertex")); VI r = t; int ctr = -1; for (int z = 0; z < 3; z++) if (t[z] >= m.n(0)) { REQ(c, ctr < 0, "dx-triangle", "triangle %s has two centres", str(t).c_str()); ctr = t[z]; r = {t[(z + 1) % 3], t[(z + 2) % 3]}; } if (ctr < 0) got.insert({rot(t), (int)data->v[i]}); else { REQ(c, fan[ctr].emplace(r[0], r[1]).second, "dx-triangle", "two triangles from vertex %d to centre %d", r[0], ctr); fg[ctr].insert((int)data->v[i]); } }
    for (auto& q : fan) { VI cyc; int v = q.second.begin()->first; for (size_t k = 0; k < q.second.size(); k++) { cyc.push_back(v); auto it = q.second.find(v); REQ(c, it != q.second.end(), "dx-triangle", "the triangles about centre %d do not close", q.first); v = it->second; } REQ(c, v == cyc[0] && std::set<int>(cyc.begin(), cyc.end()).size() == cyc.size() && fg[q.first].size() == 1, "dx-triangle", "the triangles about centre %d are not one fan", q.first); got.insert({rot(cyc), *fg[q.first].begin()}); for (int d = 0; d < 3; d++) { double s = 0; for (int x : cyc) s += m.X[x][d] / cyc.size(); REQ(c, std::fabs(P[3 * q.first + d] - s) <= 1e-5 * big, "dx-centre", "centre %d of %s", q.first, str(cyc).c_str()); } }
    REQ(c, (int)fan.size() == np - m.n(0), "dx-positions", "%d positions, %d vertices and %zu centres", np, m.n(0), fan.size()); c.label("tris"); }
  auto list = [&](const std::multiset<std::pair<VI, int>>& s) { std::string r; for (auto& q : s) { if (r.size() > 300) break; r += str(q.first) + ":" + std::to_string(q.second) + " "; } return r; };
  REQ(c, got == want, "dx-faces", "triangles describe %zu faces, expected %zu: %s instead of %s", got.size(), want.size(), list(got).c_str(), list(want).c_str());
  { auto it = fields.find("\"polygons\""); REQ(c, (it != fields.end()) == many, "dx-field", "polygons written: %d, expected %d", it != fields.end(), many); if (many) { nf++; c.label("polygon-field"); auto& f = it->second; REQ(c, f.size() == 5, "dx-field", "%zu components of polygons", f.size()); for (auto& q : f) refd.insert(q.second); Arr &e = A[f["\"edges\""]], &l = A[f["\"loops\""]], &fc = A[f["\"faces\""]], &dt = A[f["\"data\""]]; REQ(c, !e.flt && !l.flt && !fc.flt && dt.flt && e.att["ref"] == "positions" && l.att["ref"] == "edges" && fc.att["ref"] == "loops" && dt.att["dep"] == "faces" && l.items == fc.items && dt.items == fc.items, "dx-field", "components of polygons"); got.clear();
      for (int i = 0; i < fc.items; i++) { REQ(c, fc.v[i] == i, "dx-polygon", "face %d starts at loop %g", i, fc.v[i]); int lo = (int)l.v[i], hi = i + 1 < l.items ? (int)l.v[i + 1] : e.items; REQ(c, lo >= 0 && lo < hi && hi <= e.items && (i || !lo), "dx-polygon", "loop %d is from %d to %d of %d edges", i, lo, hi, e.items); VI v; for (int z = lo; z < hi; z++) v.push_back(idx(e, z, m.n(0), "vertex")); got.insert({rot(v), (int)dt.v[i]}); } REQ(c, got == want, "dx-polygon", "polygons describe %s instead of %s", list(got).c_str(), list(want).c_str()); } }
  // regions
  auto canon = [&](const std::vector<VI>& fs, int g) { std::vector<VI> r; for (auto& f : fs) { VI q; for (size_t i = 0; i < f.size(); i++) if (f[i] != f[(i + 1) % f.size()]) q.push_back(f[i]); if (q.size() >= 3) r.push_back(rot(q)); } std::sort(r.begin(), r.end()); return std::make_pair(r, g); };
  const char* fn[5] = {"", "tets", "pyramids", "prisms", "hexes"}; for (int t = TET; t <= HEX; t++) {
    std::multiset<std::pair<std::vector<VI>, int>> w, g; for (int i = 0; i < m.n(3); i++) if (m.R[i].type == t) { std::vector<VI> fs; for (size_t k = 0; k < m.R[i].f.size(); k++) { VI v = m.F[m.R[i].f[k]].v; if (!m.R[i].d[k]) std::reverse(v.begin(), v.end()); fs.push_back(v); } w.insert(canon(fs, m.gi[3][i])); }
    bool has = field(fn[t], t == TET ? "tetrahedra" : "cubes", t == TET ? 4 : 8, con, data); REQ(c, has == !w.empty(), "dx-field", "field %s written: %d, elements of the kind: %zu", fn[t], has, w.size()); if (!has) continue; nf++; c.label(fn[t]);
    for (int i = 0; i < con->items; i++) { VI v; for (int z = 0; z < con->rank1; z++) v.push_back(idx(*con, con->rank1 * i + z, m.n(0), "vertex")); if (t != TET) v = {v[0], v[1], v[3], v[2], v[4], v[5], v[7], v[6]}; int q = t == TET ? TET : HEX; std::vector<VI> fs; for (int f = 0; f < STD_NF[q]; f++) { VI x; for (int z = 0; z < STD_FV[q][f][0]; z++) x.push_back(v[STD_FV[q][f][z + 1]]); fs.push_back(x); } g.insert(canon(fs, (int)data->v[i])); }
    REQ(c, g == w, "dx-elements", "the %zu %s in the file are not the %zu in the mesh", g.size(), fn[t], w.size()); }
  REQ(c, nf == (int)fields.size(), "dx-field", "%zu fields, %d known", fields.size(), nf); for (auto& a : A) REQ(c, a.first == 1 || refd.count(a.first), "dx-object", "object %d is in no field", a.first);
  if (m.n(m.topo) > 1) c.nontrivial();
}
static void run(Case& c) {
  int fmt = c.s.draw(3); c.label(fmt == 0 ? "off" : fmt == 1 ? "stl" : "dx"); GenOpt o; o.maxcells = 4 + c.size / 3; o.materials = true; if (fmt == 1) o.simplex = !c.s.chance(1, 8); o.extras = c.s.chance(1, 3);
  RMesh m = fmt < 2 && !c.s.chance(1, 10) ? genMesh2D(c, o) : genMesh(c, o); if (!m.n(2)) return; m.derive();
  if (fmt < 2 && c.s.chance(1, 3)) { double s = std::pow(10.0, c.s.range(-12, 12)); for (auto& x : m.X) x = s * x; c.label("scaled"); }
  BM b = build(c, m, c.s.coin() ? F1 : F4, EXPLICIT); if (c.s.coin()) { c.label("id-gaps"); for (int d = 0; d < 4; d++) { VI p = c.s.perm(m.n(d)); int id = 0; for (int i = 0; i < m.n(d); i++) { id += 1 + (c.s.chance(1, 3) ? c.s.draw(4) : 0); MEnt_Set_ID(b.ent[d][p[i]], id); } } MESH_Reset_Cached_MaxIDs(b.m); }
  int nat = MESH_Num_Attribs(b.m); VI ids[4]; for (int d = 0; d < 4; d++) for (void* e : b.ent[d]) ids[d].push_back(MEnt_ID(e));
  for (int z = 0; z < 1 + (int)c.s.chance(1, 8); z++) if (fmt == 0) off(c, m, b); else if (fmt == 1) stl(c, m, b); else dx(c, m, b);
  REQ(c, MESH_Num_Attribs(b.m) == nat, "source-attributes", "export left %d attributes, were %d", MESH_Num_Attribs(b.m), nat); for (int d = 0; d < 4; d++) for (int i = 0; i < m.n(d); i++) REQ(c, MEnt_ID(b.ent[d][i]) == ids[d][i], "source-ids", "export changed the ID of entity %d of dimension %d", i, d); checkAdjacency(c, b, m, "source after export", 1); checkCoords(c, b, m, "source after export"); MESH_Delete(b.m);
}
int main(int argc, char** argv) { static pbt::Property P = {"C13", "a mesh with at least two elements was written and its file parsed", run, 8000, 200000}; return pbt::main_serial(argc, argv, P); }
