#include "parfile.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
// The command-line tools, called as functions (their main renamed at build time), each on one or several ranks of the message passing stand-in.
extern "C" { int meshconvert_main(int, char**); int chkmesh_main(int, char**); int mkstruc_main(int, char**); int exoatt_main(int, char**); int tet2hex_main(int, char**); int tri2quad_main(int, char**); }
typedef int (*Main)(int, char**); typedef std::vector<std::string> VS;
static int call(Main f, VS a) { std::vector<char*> v; for (auto& x : a) v.push_back(strdup(x.c_str())); v.push_back(nullptr); return f((int)a.size(), v.data()); }
struct Quiet { int old; Quiet(const char* f) { fflush(stderr); old = dup(2); int fd = open(f, O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); close(fd); } ~Quiet() { fflush(stderr); dup2(old, 2); close(old); } };
static std::string slurp(const std::string& f) { FILE* p = fopen(f.c_str(), "rb"); std::string s; if (!p) return "<no file>"; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n); fclose(p); return s; }
static bool exists(const std::string& f) { return !access(f.c_str(), F_OK); }
static std::string join(const VS& a) { std::string s; for (auto& x : a) s += " " + x; return s; }
static void one(Case& c, const std::function<void()>& f) { std::vector<std::string> o; shim::run(c, 1, shim::Opt(), [&](int, std::string&) { f(); }, o); }
// run in a process of its own; the exit status, which has to be a deliberate one
static int status(Case& c, Main f, const VS& a) { fflush(NULL); pid_t p = fork(); if (!p) { Quiet q("status.txt"); int r = call(f, a); fflush(NULL); _exit(r & 255); } int st = 0; waitpid(p, &st, 0); bool bad = (WIFSIGNALED(st) && WTERMSIG(st) != SIGABRT) || (WIFEXITED(st) && WEXITSTATUS(st) == 99); REQ(c, !bad, "crash", "%s: %s", join(a).c_str(), slurp("status.txt").substr(0, 600).c_str()); return WIFSIGNALED(st) ? 134 : WEXITSTATUS(st); }
// ---- mkstruc -----------------------------------------------------------
static void mkstruc(Case& c) {
  int D = 2 + c.s.draw(2), n[3] = {1 + (int)c.s.draw(4), 1 + (int)c.s.draw(4), D == 3 ? 1 + (int)c.s.draw(3) : 0}; double lo[3] = {0, 0, 0}, up[3] = {0, 0, 0}; VS a = {"mkstruc"};
  for (int k = 0; k < D; k++) { lo[k] = c.s.real(-5, 5); up[k] = lo[k] + c.s.real(0.1, 5); } for (int k = 0; k < D; k++) a.push_back(pbt::format("%.17g", lo[k])); for (int k = 0; k < D; k++) a.push_back(pbt::format("%.17g", up[k])); for (int k = 0; k < D; k++) a.push_back(std::to_string(n[k]));
  std::string out = "struct.mstk"; if (c.s.coin()) { out = c.s.coin() ? "grid.mstk" : "d.ir/some.grid.mstk"; a.push_back(out); } mkdir("d.ir", 0700); c.note("%s", join(a).c_str());
  one(c, [&] { call(mkstruc_main, a); REQ(c, exists(out), "no-output", "no file %s", out.c_str());
    Mesh_ptr ref = MESH_Gen_Structured(lo[0], lo[1], lo[2], up[0], up[1], up[2], n[0], n[1], n[2]); BM rb; RMesh r = extract(c, ref, rb); r.topo = D; r.derive(); r.buildUp(); Mesh_ptr k = MESH_New(UNKNOWN_REP); REQ(c, MESH_InitFromFile(k, out.c_str(), NULL) == 1, "return", "reading the grid failed"); double big = 0; for (auto& x : r.X) for (double z : x) big = std::max(big, std::fabs(z)); MatchOpt mo; mo.tol = 1e-9 * big; Match M = matchMesh(c, r, k, "grid", mo);
    for (int d = 0; d <= D; d++) for (int i = 0; i < r.n(d); i++) REQ(c, MEnt_GEntDim(M.at(d, i)) == r.gd[d][i] && MEnt_GEntID(M.at(d, i)) == r.gi[d][i], "classification", "entity %d/%d is classified on (%d,%d), expected (%d,%d)", d, i, MEnt_GEntDim(M.at(d, i)), MEnt_GEntID(M.at(d, i)), r.gd[d][i], r.gi[d][i]); });
  if (n[0] * n[1] > 1) c.nontrivial();
}
// ---- one process: conversion -----------------------------------------------
static const char* fmtOf(const std::string& e) { return e == "mstk" ? "mstk" : e == "gmv" ? "gmv" : e == "x3d" ? "x3d" : e == "stl" ? "stl" : e == "off" ? "off" : e == "dx" ? "dx" : "exodusii"; }
static Mesh_ptr libRead(Case& c, const std::string& f, const std::string& e) { Mesh_ptr k = MESH_New(e == "mstk" ? UNKNOWN_REP : F1); int opts[5] = {0, 0, 0, 0, 0}; REQ(c, (e == "mstk" ? MESH_InitFromFile(k, f.c_str(), MPI_COMM_WORLD) : MESH_ImportFromFile(k, f.c_str(), fmtOf(e), opts, MPI_COMM_WORLD)) == 1, "setup", "reading %s failed", f.c_str()); return k; }
static void libWrite(Case& c, Mesh_ptr k, const std::string& f, const std::string& e, int natt) { char* n = strdup(f.c_str()); int r; if (e == "mstk") r = MESH_WriteToFile(k, n, MESH_RepType(k), MPI_COMM_WORLD); else if (e == "dx") r = MESH_ExportToDX(k, n, 1); else r = MESH_ExportToFile(k, n, fmtOf(e), natt, NULL, NULL, MPI_COMM_WORLD); free(n); REQ(c, r == 1, "setup", "writing %s failed", f.c_str()); }
struct Given { RMesh m; BM b; std::vector<std::pair<std::string, int>> att; };
static bool source(Case& c, Given& S, GenOpt o) {
  o.materials = true; RMesh& m = S.m; for (int k = 0;; k++) { m = genMesh(c, o); flatten(m); bool ok = distinctPoints(m, 1e-6) && distinctShapes(m); for (int r = 0; r < m.n(3); r++) ok &= starShaped(m, r); if (ok) break; if (k > 20) { c.label("skip-shape"); return false; } }
  S.b = build(c, m, c.s.coin() ? F1 : F4, EXPLICIT); m.buildUp(); Mesh_ptr M = S.b.m; int T = m.topo;
  for (int k = c.s.draw(3); k > 0; k--) { int d = c.s.coin() ? 0 : T; MAttrib_ptr a = MAttrib_New(M, pbt::format("fld%d", k).c_str(), DOUBLE, (MType)d); for (int i = 0; i < m.n(d); i++) MEnt_Set_AttVal(S.b.ent[d][i], a, 0, c.s.range(-99, 99) / 4.0, NULL); c.label("field"); }
  for (int k = c.s.draw(3); k > 0; k--) { int w = c.s.draw(3), d = w == 0 ? 0 : w == 1 ? T - 1 : T; MSet_ptr q = MSet_New(M, pbt::format("%s%d", w == 0 ? "nodeset_" : w == 1 ? "sideset_" : "elemset_", 100 + k).c_str(), (MType)d); MSet_Add(q, S.b.ent[d][0]); for (int i = 1; i < m.n(d); i++) if (c.s.coin()) MSet_Add(q, S.b.ent[d][i]); c.label("set"); }
  return true;
}
static void compareFiles(Case& c, const std::string& a, const std::string& b, const std::string& e, const char* what) {
  std::string x = slurp(a), y = slurp(b); for (auto* z : {&x, &y}) for (size_t i = 0; i + 8 <= z->size(); i++) { const char* q = z->data() + i; auto dd = [](const char* s) { return isdigit((unsigned char)s[0]) && isdigit((unsigned char)s[1]); }; if (dd(q) && dd(q + 3) && dd(q + 6) && q[2] == q[5] && (q[2] == ':' || q[2] == '/')) z->replace(i, 8, 8, '#'); }   // time and date of the export
  if (x == y) return; size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) i++; size_t l = x.rfind('\n', i); l = l == std::string::npos || e == "exo" ? (i > 20 ? i - 20 : 0) : l + 1; c.fail("differs-from-library", "%s: file of the tool (%zu bytes) and of the library calls (%zu bytes) differ at byte %zu: '%s' / '%s'", what, x.size(), y.size(), i, x.substr(l, 60).c_str(), y.substr(l, 60).c_str());
}
static void convert(Case& c) {
  std::string e1 = c.s.pick(VS{"mstk", "gmv", "exo", "x3d", "g", "e"}), e2 = c.s.pick(VS{"mstk", "gmv", "exo", "x3d", "par", "off", "stl", "dx", "g", "e"}), f1 = c.s.pick(VS{"in", "a.b", "dir.x/in"}) + "." + e1, f2 = c.s.pick(VS{"out", "p.q", "dir.x/out"}) + "." + e2; if (e2 == "par" || e2 == "exo" || e1 == "exo" || e1 == "par") { if (f1[0] == 'd') f1 = "in." + e1; }
  GenOpt o; o.maxcells = 3 + c.size / 6; if (e1 == "x3d" || e2 == "x3d") o.nonmanifold = o.orientFlips = false; Given S; if (!source(c, S, o)) return; RMesh& m = S.m; int T = m.topo; bool tris = true; for (auto& f : m.F) tris &= f.v.size() == 3;
  if (e2 == "off" || e2 == "stl" || e2 == "dx") { if (T == 3 && e2 != "dx") e2 = "gmv", f2 = "out.gmv"; }
  VS opt; int cl = c.s.draw(5), ct = c.s.draw(3); if (cl < 4) opt.push_back(std::string("--classify=") + VS{"y", "1", "n", "0"}[cl]); if (ct) opt.push_back(ct == 1 ? "--check-topo=y" : "--check-topo=n"); if (c.s.chance(1, 4)) opt.push_back("--partition=n"); if (c.s.chance(1, 4)) opt.push_back("--weave=n"); if (c.s.chance(1, 6)) opt.push_back("--unknown=3"); c.s.shuffle(opt); bool classify = cl != 2 && cl != 3; if (!classify && ct == 1) { ct = 0; for (auto& x : opt) if (x == "--check-topo=y") x = "--check-topo=n"; }
  VS a = {"meshconvert"}; a.insert(a.end(), opt.begin(), opt.end()); a.push_back(f1); a.push_back(f2); c.note("%s: %s", join(a).c_str(), describe(m).c_str()); c.label("from-" + e1); c.label("to-" + e2); c.label(classify ? "classify" : "no-classify");
  mkdir("dir.x", 0700); mkdir("ref", 0700); mkdir("ref/dir.x", 0700);
  one(c, [&] { if (e1 == "mstk") MESH_WriteToFile(S.b.m, f1.c_str(), MESH_RepType(S.b.m), MPI_COMM_WORLD); else libWrite(c, S.b.m, f1, e1, -1); });
  REQ(c, exists(f1), "setup", "the input file was not written");
  if (e2 == "stl" && !tris) { one(c, [&] { int r = status(c, meshconvert_main, a); REQ(c, r != 0, "failure-not-reported", "status 0 though STL files hold triangles only"); }); c.label("refused"); return; }
  one(c, [&] { int r = call(meshconvert_main, a); REQ(c, r == 0, "exit-status", "status %d", r); REQ(c, exists(f2), "no-output", "no file %s", f2.c_str()); });
  one(c, [&] { Mesh_ptr k = libRead(c, f1, e1); REQ(c, !chdir("ref"), "harness", "chdir"); if (classify) MESH_BuildClassfn(k, 0); if (ct == 1) REQ(c, MESH_CheckTopo(k) == 1, "setup", "the topology check fails"); libWrite(c, k, f2, e2, 0); });
  compareFiles(c, f2, "ref/" + f2, e2, join(a).c_str());
  bool readable = e2 != "off" && e2 != "stl" && e2 != "dx";
  if (readable) one(c, [&] { Mesh_ptr k = libRead(c, f2, e2 == "par" ? "exo" : e2); MatchOpt mo; double big = 0; for (auto& x : m.X) for (double z : x) big = std::max(big, std::fabs(z)); mo.tol = 1e-6 * (1 + big); mo.orient2 = false; Match M = matchMesh(c, dropUnused(m), k, "converted", mo); (void)M; });
  if (m.n(T) > 1) c.nontrivial();
}
static void refuse(Case& c) {
  GenOpt o; o.maxcells = 3; Given S; if (!source(c, S, o)) return; int w = c.s.draw(6); VS a = {"meshconvert"}; std::string in = "in.mstk", out = "out.gmv"; Main f = meshconvert_main;
  if (w == 0) { in = VS{"none.mstk", "none.gmv", "none.exo", "none.x3d"}[c.s.draw(4)]; c.label("missing-input"); } if (w == 1) { in = VS{"in.vtk", "in.cgns", "in.xyz", "in.avs", "in.inp", "mstk", "in.OFF"}[c.s.draw(7)]; c.label("unsupported-input"); } if (w == 2) { out = VS{"out.vtk", "out.cgns", "out.xyz", "out.avs", "out.inp", "gmv"}[c.s.draw(6)]; c.label("unsupported-output"); } if (w == 3) { out = "no/such/dir/out." + VS{"mstk", "gmv", "exo", "x3d"}[c.s.draw(4)]; c.label("output-directory-missing"); }
  if (w == 4) { in = "bad.mstk"; FILE* p = fopen("bad.mstk", "w"); fprintf(p, "MESH 1.0\nF1 3 4 5\n"); fclose(p); c.label("not-a-mesh"); } if (w == 5) { f = c.s.coin() ? tet2hex_main : tri2quad_main; a[0] = f == tet2hex_main ? "tet2hex" : "tri2quad"; out = VS{"out.vtk", "out.avs", "out.xyz", "out.cgns", "no/such/dir/out.gmv"}[c.s.draw(5)]; c.label("unsupported-output"); c.label(a[0]); }
  one(c, [&] { MESH_WriteToFile(S.b.m, "in.mstk", F1, MPI_COMM_WORLD); if (w == 1) MESH_WriteToFile(S.b.m, in.c_str(), F1, MPI_COMM_WORLD); });
  a.push_back(in); a.push_back(out); c.note("%s", join(a).c_str()); one(c, [&] { int r = status(c, f, a); REQ(c, r != 0, "failure-not-reported", "%s: status 0 although nothing can have been converted", join(a).c_str()); }); c.nontrivial();
}
// ---- tri2quad, tet2hex ----------------------------------------------------
static void split(Case& c) {
  bool T = c.s.coin(), bad = c.s.chance(1, 5); GenOpt o; o.maxcells = 3 + c.size / 8; o.simplex = !bad; o.standardOnly = !bad; Given S; o.materials = true; RMesh& m = S.m; for (int k = 0;; k++) { m = T ? genMesh3D(c, o) : genMesh2D(c, o); flatten(m); if (distinctPoints(m, 1e-6) && distinctShapes(m)) break; if (k > 20) return; } S.b = build(c, m, F1, EXPLICIT);
  bool ok = true; for (auto& f : m.F) ok &= f.v.size() == 3; for (auto& r : m.R) ok &= r.f.size() == 4; std::string e1 = c.s.pick(VS{"mstk", "gmv", "exo"}), e2 = c.s.pick(VS{"mstk", "gmv", "exo", "x3d"}), f1 = "in." + e1, f2 = "out." + e2; VS a = {T ? "tet2hex" : "tri2quad", f1, f2}; c.note("%s: %s", join(a).c_str(), describe(m).c_str()); c.label(a[0]); c.label("from-" + e1); c.label("to-" + e2); mkdir("ref", 0700); Main f = T ? tet2hex_main : tri2quad_main;
  one(c, [&] { libWrite(c, S.b.m, f1, e1, -1); }); if (!ok) { c.label("refused"); one(c, [&] { int r = status(c, f, a); REQ(c, r != 0, "failure-not-reported", "%s converted other elements", a[0].c_str()); REQ(c, !exists(f2), "failure-not-reported", "%s wrote a file for other elements", a[0].c_str()); }); c.nontrivial(); return; }
  one(c, [&] { int r = call(f, a); REQ(c, r == 0, "exit-status", "status %d", r); REQ(c, exists(f2), "no-output", "no file %s", f2.c_str()); });
  one(c, [&] { Mesh_ptr k = libRead(c, f1, e1), q = NULL; REQ(c, !chdir("ref"), "harness", "chdir"); REQ(c, (T ? MESH_Tet2Hex(k, &q) : MESH_Tri2Quad(k, &q)) == 1, "setup", "conversion failed"); libWrite(c, q, f2, e2, -1); });
  compareFiles(c, f2, "ref/" + f2, e2, join(a).c_str());
  one(c, [&] { Mesh_ptr k = libRead(c, f2, e2); int per = T ? 4 : 3, D = T ? 3 : 2; RMesh u = dropUnused(m); int want = 0; for (int d = 0; d <= D; d++) want += u.n(d); REQ(c, (T ? MESH_Num_Regions(k) : MESH_Num_Faces(k)) == per * m.n(D), "count", "%d elements from %d", T ? MESH_Num_Regions(k) : MESH_Num_Faces(k), m.n(D)); REQ(c, MESH_Num_Vertices(k) == want, "count", "%d vertices, expected %d", MESH_Num_Vertices(k), want); });
  c.nontrivial();
}
// ---- chkmesh ------------------------------------------------------------------
static double tet(const V3& a, const V3& b, const V3& c, const V3& d) { return dot(cross(b - a, c - a), d - a) / 6; }
static void check(Case& c) {
  GenOpt o; o.maxcells = 3 + c.size / 8; Given S; if (!source(c, S, o)) return; RMesh& m = S.m; int T = m.topo; std::string e = c.s.pick(VS{"mstk", "gmv", "exo", "x3d"}), f = "in." + e; if (T == 3 && c.s.chance(2, 3)) { double L = 0; for (auto& x : m.X) L = std::max(L, len(x)); for (int k = 1 + c.s.draw(2); k > 0; k--) { int v = c.s.draw(m.n(0)); for (double& z : m.X[v]) z += c.s.real(-2, 2); MV_Set_Coords(S.b.ent[0][v], m.X[v].data()); } c.label("moved-vertices"); if (e == "exo" || e == "x3d" || e == "gmv") e = "mstk", f = "in.mstk"; }
  // smallest tetrahedron of the decomposition from the corners, face centres and the centre
  bool good = true, sure = true; for (int r = 0; r < m.n(3); r++) { VI vs = m.regVerts(r); V3 cen = {0, 0, 0}; double L = 0; for (int v : vs) cen = cen + m.X[v]; cen = (1.0 / vs.size()) * cen; for (int v : vs) L = std::max(L, len(m.X[v] - cen)); double eps = 1e-7 * L * L * L, vol = 0; bool tt = vs.size() == 4 && m.R[r].f.size() == 4; double mn = 1e300;
    for (size_t i = 0; i < m.R[r].f.size(); i++) { auto& F = m.F[m.R[r].f[i]]; V3 fc = {0, 0, 0}; for (int v : F.v) fc = fc + m.X[v]; fc = (1.0 / F.v.size()) * fc; for (size_t k = 0; k < F.v.size(); k++) { double t = tet(m.X[F.v[k]], m.X[F.v[(k + 1) % F.v.size()]], fc, cen) * (m.R[r].d[i] ? -1 : 1); vol += t; mn = std::min(mn, t); } }
    if (std::fabs(vol) < eps || (!tt && std::fabs(mn) < eps)) sure = false; if (vol <= 0 || (!tt && mn < 0)) good = false; }
  if (!sure) { c.label("near-degenerate"); return; } c.label(good ? "valid" : "inverted"); c.label("check-" + e); std::string in = "in." + e; c.note("chkmesh %s: %s", in.c_str(), describe(m).c_str());
  one(c, [&] { libWrite(c, S.b.m, in, e, -1); }); one(c, [&] { { Quiet q("log.txt"); call(chkmesh_main, {"chkmesh", in}); } std::string s = slurp("log.txt"); bool said = s.find("A-OK") != std::string::npos; REQ(c, said == good, good ? "valid-rejected" : "invalid-accepted", "chkmesh said: %s", s.substr(0, 900).c_str()); if (T == 3 && !good) { REQ(c, exists("badelems.gmv"), "no-list", "no badelems.gmv"); Mesh_ptr k = MESH_New(F1); REQ(c, MESH_ImportFromFile(k, "badelems.gmv", "gmv", NULL, MPI_COMM_WORLD) == 1 && MESH_Num_Regions(k) == m.n(3), "no-list", "badelems.gmv does not hold the mesh"); } }); c.nontrivial();
}
// a mesh in the native format with one fault in its topology
// ---- exoatt --------------------------------------------------------------------
static Tool tool(Case& c, bool exoatt) {
  Tool t; static VS args; args = {exoatt ? "exoatt" : "meshconvert"};
  t.prep = [exoatt](Case& c, DWorld& W, const ExoFile* f) { const RMesh& m = W.m; int T = m.topo; args.resize(1); std::vector<DAtt> keep; for (auto& a : W.atts) if (a.name != "node_map" && a.name != "elem_map") keep.push_back(a); W.atts = keep; int np = 1; for (int q : W.part) np = std::max(np, q + 1);
    bool multi = W.part.size() && toolOpts; if (toolOpts[1]) args.push_back(c.s.coin() ? "--partition=y" : "--partition=1"); else { if (c.s.coin()) args.push_back(c.s.coin() ? "--partition=o" : "--partition=2"); if (toolOpts[3] || c.s.coin()) args.push_back(pbt::format("--partition-method=%d", toolOpts[3])); } (void)multi; (void)np;
    if (!exoatt) { if (c.s.chance(1, 3)) args.push_back(c.s.coin() ? "--classify=n" : "--classify=y"); if (c.s.chance(1, 4)) args.push_back("--weave=n"); c.s.shuffle(args); for (size_t i = 1; i < args.size(); i++) if (args[i][0] != '-') std::swap(args[0], args[i]); return; }
    if (c.s.chance(5, 6)) { int k = 1 + c.s.draw(3); FILE* p = fopen("att.txt", "w"); fprintf(p, "%d\n", k); for (; k > 0; k--) { DAtt a; a.t = DOUBLE; a.nc = 1; a.dim = c.s.coin() ? 0 : T; a.name = pbt::format("att_%d", k); bool all = c.s.coin(); const char* w = a.dim ? c.s.coin() ? "CELL" : "cell" : c.s.coin() ? "NODE" : "Node"; int n = m.n(a.dim); VI id = c.s.perm(n); int cnt = all ? n : 1 + (int)c.s.draw(n); fprintf(p, "%s %s %d\n", a.name.c_str(), w, all ? -1 : cnt); for (int i = 0; i < cnt; i++) { double v = c.s.range(-999, 999) / 8.0; int q = all ? i : id[i]; if (all) fprintf(p, "%.17g%s", v, c.s.coin() ? "\n" : " "); else fprintf(p, "%d %.17g\n", q + 1, v); a.val[{a.dim, q}] = {v}; } fprintf(p, "\n"); W.atts.push_back(a); c.label(all ? "attribute-on-all" : "attribute-on-some"); } fclose(p); args.push_back("--attfile=att.txt"); }
    if (c.s.chance(5, 6)) { bool sides = T == 3 || f->ndim == 2; int k = 1 + c.s.draw(3); FILE* p = fopen("set.txt", "w"); fprintf(p, "%d\n", k); for (; k > 0; k--) { DSet s; int w = c.s.draw(sides ? 3 : 2); s.dim = w == 0 ? 0 : w == 1 ? T : T - 1; int id = 7000 + k; s.name = pbt::format("%s%d", w == 0 ? "nodeset_" : w == 1 ? "elemset_" : "sideset_", id); VI pm = c.s.perm(m.n(s.dim)); int cnt = 1 + c.s.draw(m.n(s.dim)); VI in; for (int i = 0; i < cnt; i++) { if (w == 2 && m.up(s.dim, pm[i], T).empty()) continue; in.push_back(pm[i]); } if (in.empty()) { w = 0; s.dim = 0; s.name = pbt::format("nodeset_%d", id); in.push_back(0); } fprintf(p, "%d %s %zu\n", id, w == 0 ? "NODE" : w == 1 ? "cell" : "FACE", in.size()); for (int i : in) { s.in.push_back({s.dim, i}); if (w < 2) fprintf(p, "%d\n", i + 1); else { VI v = m.vertsOf(s.dim, i); int r = c.s.draw(v.size()); if (T == 3) fprintf(p, "%zu ", v.size()); for (size_t q = 0; q < v.size(); q++) fprintf(p, "%d ", v[(q + r) % v.size()] + 1); fprintf(p, "\n"); } } W.sets.push_back(s); c.label(w == 0 ? "tool-nodeset" : w == 1 ? "tool-cellset" : "tool-faceset"); } fclose(p); args.push_back("--setfile=set.txt"); } };
  t.run = [exoatt](const DWorld&, const std::string& a, const std::string& b) { VS v = args; v.push_back(a); v.push_back(b); int r = call(exoatt ? exoatt_main : meshconvert_main, v); if (!exoatt && r) exit(3); };
  (void)c; return t;
}
static void run(Case& c) {
  switch (c.s.draw(9)) {
    case 0: c.label("mkstruc"); return mkstruc(c);
    case 1: case 2: c.label("convert"); return convert(c);
    case 3: c.label("refuse"); return refuse(c);
    case 4: return split(c);
    case 5: c.label("check"); return check(c);
    case 6: { c.label("exoatt"); Tool t = tool(c, true); return partial(c, false, &t); }
    case 7: { c.label("parallel-convert"); Tool t = tool(c, false); return partial(c, false, &t); }
    default: { c.label("parallel-reconvert"); Tool t = tool(c, false); return writeRead(c, &t); }
  }
}
int main(int argc, char** argv) { static pbt::Property P = {"C33", "a tool converted, generated, refused or judged a mesh of more than one element", run, 1600, 30000, {}, MSTK_Init}; return pbt::main_serial(argc, argv, P); }
