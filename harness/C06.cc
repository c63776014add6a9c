#include "rmesh.h"
extern "C" MSet_ptr MSets_Cat(MSet_ptr, MSet_ptr);
// Mesh sets against a model: names, order, algebra, independence.
typedef std::vector<void*> VP;
struct S { MSet_ptr s; std::string name; int dim; VP m; };
static std::string nameOf(MSet_ptr s) { char b[1024]; MSet_Name(s, b); return b; }

static void check(Case& c, Mesh_ptr mesh, std::vector<S>& ss, const VP& pool, const char* op) {
  REQ(c, MESH_Num_MSets(mesh) == (int)ss.size(), "set-count", "%s: mesh has %d sets, expected %zu", op, MESH_Num_MSets(mesh), ss.size());
  int idx = 0, k = 0; MSet_ptr q;
  while ((q = MESH_Next_MSet(mesh, &idx))) { REQ(c, k < (int)ss.size() && ss[k].s == q, "set-iteration", "%s: set %d of the mesh is wrong", op, k); k++; }
  REQ(c, k == (int)ss.size(), "set-iteration", "%s: iteration gives %d sets, expected %zu", op, k, ss.size());
  for (k = 0; k < (int)ss.size(); k++) {
    S& x = ss[k]; int n = x.m.size();
    REQ(c, MESH_MSet(mesh, k) == x.s, "set-index", "%s: MESH_MSet(%d) wrong", op, k);
    REQ(c, nameOf(x.s) == x.name, "set-name", "%s: set %d is named %s, expected %s", op, k, nameOf(x.s).c_str(), x.name.c_str());
    MSet_ptr by = MESH_MSetByName(mesh, x.name.c_str()); bool ok = false;
    for (auto& y : ss) if (y.s == by && y.name == x.name) ok = true;
    REQ(c, ok, "set-by-name", "%s: lookup of set %s by name failed", op, x.name.c_str());
    REQ(c, MSet_EntDim(x.s) == x.dim && MSet_Mesh(x.s) == mesh, "set-dim", "%s: entity type or mesh of set %s wrong", op, x.name.c_str());
    REQ(c, MSet_Num_Entries(x.s) == n, "set-length", "%s: set %s has %d entries, expected %d", op, x.name.c_str(), MSet_Num_Entries(x.s), n);
    VP it; void* p; int i = 0; while ((p = MSet_Next_Entry(x.s, &i))) it.push_back(p);
    REQ(c, it == x.m, "set-entries", "%s: entries of set %s differ", op, x.name.c_str());
    for (int j = 0; j < n; j++) REQ(c, MSet_Entry(x.s, j) == x.m[j], "set-entries", "%s: entry %d of set %s", op, j, x.name.c_str());
    REQ(c, MSet_Entry(x.s, n) == NULL, "set-entries", "%s: entry past the end", op);
    void* t = c.s.pick(pool); auto f = std::find(x.m.begin(), x.m.end(), t);
    REQ(c, (MSet_Contains(x.s, t) != 0) == (f != x.m.end()), "set-contains", "%s: MSet_Contains", op);
    REQ(c, MSet_Locate(x.s, t) == (f == x.m.end() ? -1 : (int)(f - x.m.begin())), "set-locate", "%s: MSet_Locate gives %d", op, MSet_Locate(x.s, t));
  }
  REQ(c, MESH_MSet(mesh, ss.size()) == NULL, "set-index", "%s: set past the end", op);
  REQ(c, MESH_MSetByName(mesh, "no such set") == NULL, "set-by-name", "%s: lookup of an absent name succeeded", op);
}

static void run(Case& c) {
  GenOpt o; o.maxcells = 6; RMesh m = genMesh(c, o); BM b = build(c, m, c.s.coin() ? F4 : F1, EXPLICIT);
  int D = m.topo; std::set<void*> gone;
  VP extra; for (int i = 0; i < 4; i++) { MVertex_ptr v = MV_New(b.m); extra.push_back(v); }
  std::vector<S> ss; int counter = 0, algebra = 0;
  auto pool = [&](int dim) { VP r; for (int d = 0; d <= D; d++) if (dim == MALLTYPE || dim == d) for (void* p : b.ent[d]) r.push_back(p); if (dim == 0 || dim == MALLTYPE) for (void* p : extra) if (!gone.count(p)) r.push_back(p); return r; };
  auto fresh = [&]() { counter++; static const char* pre[] = {"set", "a much longer set name with blanks ", "S", "set1"}; return pbt::format("%s%d%s", pre[c.s.draw(4)], counter, c.s.chance(1, 8) ? std::string(60, 'x').c_str() : ""); };
  VP all = pool(MALLTYPE);
  check(c, b.m, ss, all, "no set yet");
  int nops = 2 + c.s.draw(c.size * 2 + 2);
  for (int st = 0; st < nops; st++) {
    int op = ss.empty() ? 0 : c.s.draw(19); char nm[64]; snprintf(nm, sizeof nm, "step %d op %d", st, op);
    if (op == 0) { int dims[] = {0, 1, 2, D, MALLTYPE}; int d = dims[c.s.draw(5)]; std::string n = fresh(); if (ss.size() < 8) { MSet_ptr s = MSet_New(b.m, n.c_str(), (MType)d); ss.push_back({s, n, d, {}}); } check(c, b.m, ss, all, nm); continue; }
    S& x = ss[c.s.draw(ss.size())]; VP pl = pool(x.dim); int n = x.m.size(); void* p = c.s.pick(pl); auto f = std::find(x.m.begin(), x.m.end(), p); bool in = f != x.m.end();
    switch (op) {
      case 1: case 2: if (!in || c.s.chance(1, 6)) { REQ(c, MSet_Add(x.s, p) == x.s, "set-add", "MSet_Add did not return the set"); x.m.push_back(p); } break;
      case 3: case 4: case 5: { REQ(c, MSet_ChknAdd(x.s, p) == x.s, "set-add", "MSet_ChknAdd did not return the set"); if (!in) x.m.push_back(p); break; }
      case 6: if (!in) { void* q = n && c.s.coin() ? c.s.pick(x.m) : NULL; REQ(c, MSet_Insert(x.s, p, q) == x.s, "set-add", "MSet_Insert did not return the set"); if (q) x.m.insert(std::find(x.m.begin(), x.m.end(), q), p); else x.m.push_back(p); } break;
      case 7: if (!in) { int i = c.s.draw(n + 1); REQ(c, MSet_Inserti(x.s, p, i) == x.s, "set-add", "MSet_Inserti did not return the set"); x.m.insert(x.m.begin() + i, p); } break;
      case 8: { int r = MSet_Rem(x.s, p); REQ(c, r == in, "set-remove", "%s: MSet_Rem returned %d", nm, r); if (in) x.m.erase(f); break; }
      case 9: { int i = c.s.draw(n + 1); int r = MSet_Remi(x.s, i); REQ(c, r == (i < n), "set-remove", "%s: MSet_Remi returned %d", nm, r); if (i < n) x.m.erase(x.m.begin() + i); break; }
      case 10: { void* q = c.s.pick(pl); if (std::find(x.m.begin(), x.m.end(), q) != x.m.end()) break; int r = MSet_Replace(x.s, p, q); REQ(c, r == in, "set-replace", "%s: MSet_Replace returned %d", nm, r); if (in) *f = q; break; }
      case 11: if (!in && n) { int i = c.s.draw(n); int r = MSet_Replacei(x.s, i, p); REQ(c, r == 1, "set-replace", "%s: MSet_Replacei returned %d", nm, r); x.m[i] = p; } break;
      case 12: { std::string nn = fresh(); std::vector<char> t(nn.begin(), nn.end()); t.push_back(0); MSet_Rename(x.s, t.data()); x.name = nn; c.label("rename"); break; }
      case 13: if (c.s.coin()) { size_t k = &x - &ss[0]; MSet_Delete(x.s); ss.erase(ss.begin() + k); c.label("delete"); } break;
      case 14: if (ss.size() < 12) { MSet_ptr s = MSet_Copy(x.s); REQ(c, s != x.s && s, "set-copy", "MSet_Copy returned the source"); S y{s, x.name, x.dim, x.m}; ss.push_back(y); check(c, b.m, ss, all, "copy");
          std::string nn = fresh(); std::vector<char> t(nn.begin(), nn.end()); t.push_back(0); MSet_Rename(s, t.data()); ss.back().name = nn; c.label("copy"); } break;
      case 15: case 16: case 17: {
        S& y = ss[c.s.draw(ss.size())]; if (ss.size() >= 12) break;
        std::set<void*> A(x.m.begin(), x.m.end()), B(y.m.begin(), y.m.end()), W; MSet_ptr r;
        if (op == 15) { r = MSets_Union(x.s, y.s); W = A; W.insert(B.begin(), B.end()); }
        else if (op == 16) { r = MSets_Intersect(x.s, y.s); for (void* q : A) if (B.count(q)) W.insert(q); }
        else { r = MSets_Subtract(x.s, y.s); for (void* q : A) if (!B.count(q)) W.insert(q); }
        algebra += &x != &y && !A.empty() && !B.empty();
        if (op != 15 && W.empty()) { REQ(c, !r, "set-algebra", "%s: empty result set is not NULL", nm); break; }
        REQ(c, r, "set-algebra", "%s: no result set", nm);
        std::set<void*> G; VP got; void* q; int i = 0; while ((q = MSet_Next_Entry(r, &i))) { G.insert(q); got.push_back(q); }
        REQ(c, G == W, "set-algebra", "%s: result has %zu members, expected %zu (operands %zu, %zu)", nm, G.size(), W.size(), A.size(), B.size());
        if (A.size() == x.m.size() && B.size() == y.m.size()) REQ(c, got.size() == G.size(), "set-algebra", "%s: result lists a member twice", nm);
        int wd = op == 17 || x.dim == y.dim ? x.dim : MALLTYPE;
        ss.push_back({r, nameOf(r), wd, got});
        c.label(op == 15 ? "union" : op == 16 ? "intersection" : "difference");
        check(c, b.m, ss, all, nm);
        std::string nn = fresh(); std::vector<char> t(nn.begin(), nn.end()); t.push_back(0); MSet_Rename(r, t.data()); ss.back().name = nn;
        break; }
      case 18: {  // delete a free vertex that is in no set; add a new one
        void* v = c.s.pick(extra); bool used = gone.count(v); for (auto& y : ss) used |= std::find(y.m.begin(), y.m.end(), v) != y.m.end();
        if (!used && c.s.coin()) { MV_Delete(v, 0); gone.insert(v); all = pool(MALLTYPE); MVertex_ptr w = MV_New(b.m); extra.push_back(w); gone.erase(w); c.label("entity-deleted"); all = pool(MALLTYPE); }
        else if (x.dim != 1 && ss.size() > 1) { S& y = ss[(&x - &ss[0] + 1) % ss.size()]; if (y.dim == x.dim && &x != &y) { VP add = y.m; REQ(c, MSets_Cat(x.s, y.s) == x.s, "set-cat", "MSets_Cat did not return the destination"); x.m.insert(x.m.end(), add.begin(), add.end()); c.label("cat"); } }
        break; }
    }
    check(c, b.m, ss, all, nm);
  }
  c.note("%d operations, %zu sets at the end, %d set algebra results", nops, ss.size(), algebra);
  MESH_Delete(b.m);
  if (algebra) c.nontrivial();
}
static pbt::Property P = {"C06", "history with at least one union, intersection or difference of two different non-empty sets; distinct by choice tape", run, 10000, 200000};
int main(int argc, char** argv) { return pbt::main_serial(argc, argv, P); }
