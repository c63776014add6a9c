#include "rmesh.h"
// Lists against std::vector: generated histories over several lists.
extern "C" { int List_Size_Raw(List_ptr); void* List_Entry_Raw(List_ptr, int); int List_Remi_Raw(List_ptr, int); }
typedef std::vector<void*> VP;
struct L { List_ptr l; VP m; };
static std::vector<void*> POOL;
static int cmpid(const void* a, const void* b) { return MEnt_ID(*(void**)a) - MEnt_ID(*(void**)b); }
static int cmpkey(const void* a, const void* b) { return MEnt_ID((void*)a) - MEnt_ID(*(void**)b); }
static std::string vs(const VP& v) { std::string s = "["; for (void* p : v) s += std::to_string(MEnt_ID(p)) + " "; return s + "]"; }
static bool strictly(const VP& v) { for (size_t i = 1; i < v.size(); i++) if (MEnt_ID(v[i - 1]) >= MEnt_ID(v[i])) return false; return true; }
static int coarse(void* p) { return MEnt_ID(p) / 4; }
static bool coarselySorted(const VP& v) { for (size_t i = 1; i < v.size(); i++) if (coarse(v[i - 1]) > coarse(v[i])) return false; return std::set<void*>(v.begin(), v.end()).size() == v.size(); }
static VP read(List_ptr l) { VP r; void* p; int idx = 0; while ((p = List_Next_Entry(l, &idx))) r.push_back(p); return r; }

static void check(Case& c, L& x, const char* op) {
  int n = x.m.size();
  REQ(c, List_Num_Entries(x.l) == n, "list-length", "after %s: length %d, expected %d", op, List_Num_Entries(x.l), n);
  VP it = read(x.l);
  REQ(c, it == x.m, "list-iteration", "after %s: iteration gives %s expected %s", op, vs(it).c_str(), vs(x.m).c_str());
  for (int i = 0; i < n; i++) REQ(c, List_Entry(x.l, i) == x.m[i], "list-entry", "after %s: entry %d of %d is wrong", op, i, n);
  REQ(c, List_Entry(x.l, n) == NULL && List_Entry(x.l, n + 3) == NULL, "list-entry", "after %s: entry past the end is not NULL", op);
  REQ(c, List_Size_Raw(x.l) >= n, "list-length", "after %s: raw size %d", op, List_Size_Raw(x.l));
  for (int k = 0; k < 3; k++) {
    void* p = c.s.pick(POOL); auto f = std::find(x.m.begin(), x.m.end(), p);
    REQ(c, (List_Contains(x.l, p) != 0) == (f != x.m.end()), "list-contains", "after %s: List_Contains(%d) wrong", op, MEnt_ID(p));
    int w = f == x.m.end() ? -1 : (int)(f - x.m.begin());
    REQ(c, List_Locate(x.l, p) == w, "list-locate", "after %s: List_Locate gives %d expected %d", op, List_Locate(x.l, p), w);
  }
}

static void run(Case& c) {
  Mesh_ptr m = MESH_New(F1);
  int np = 1 + c.s.draw(1 + c.size);
  for (int i = 0; i < np; i++) POOL.push_back(MV_New(m));
  std::vector<L> ls; int kind = c.s.draw(3);
  for (int i = 0; i < 3; i++) ls.push_back({List_New(c.s.draw(20)), {}});
  int nops = 1 + c.s.draw(4 * c.size + 4), removals = 0, holes = 0, grow = 0, refused = 0;
  for (int s = 0; s < nops; s++) {
    int a = c.s.draw(ls.size()); L& x = ls[a]; VP& v = x.m; int n = v.size();
    void* p = c.s.pick(POOL); auto f = std::find(v.begin(), v.end(), p);
    bool hole = List_Size_Raw(x.l) != n; holes += hole;
    // three histories: mixed; append dominated (growth); removal dominated
    int op = kind == 0 ? c.s.draw(18) : kind == 1 ? (int)c.s.pick(std::vector<int>{0, 0, 0, 1, 2, 3, 4, 5, 6, 9, 10, 12}) : (int)c.s.pick(std::vector<int>{0, 0, 1, 4, 4, 5, 5, 6, 11, 3, 2, 7, 8, 13, 16});
    char nm[80]; snprintf(nm, sizeof nm, "step %d op %d n=%d gaps=%d", s, op, n, hole);
    switch (op) {
      case 0: x.l = List_Add(x.l, p); v.push_back(p); grow++; break;
      case 1: x.l = List_ChknAdd(x.l, p); if (f == v.end()) v.push_back(p); break;
      case 2: {  // insert before an entry (or at the end); the entry may be absent
        void* b = c.s.chance(1, 6) ? NULL : c.s.pick(POOL);
        x.l = List_Insert(x.l, p, b);
        if (!b) v.push_back(p); else { auto g = std::find(v.begin(), v.end(), b); if (g != v.end()) v.insert(g, p); else refused++; }
        break; }
      case 3: { int i = c.s.draw(n + 3); List_ptr r = List_Inserti(x.l, p, i);
        if (i <= n) { REQ(c, r == x.l, "list-insert", "%s: List_Inserti did not return the list", nm); v.insert(v.begin() + i, p); } else refused++;
        break; }
      case 4: { int r = List_Rem(x.l, p); REQ(c, r == (f != v.end()), "list-remove", "%s: List_Rem returned %d", nm, r); if (f != v.end()) { v.erase(f); removals++; } else refused++; break; }
      case 5: { int i = c.s.draw(n + 2); int r = List_Remi(x.l, i); REQ(c, r == (i < n), "list-remove", "%s: List_Remi(%d) returned %d", nm, i, r); if (i < n) { v.erase(v.begin() + i); removals++; } else refused++; break; }
      case 6: if (bool fine = strictly(v); fine || coarselySorted(v)) { int r = List_RemSorted(x.l, p, fine ? MEnt_ID : coarse); c.label(fine ? "rem-sorted" : "rem-sorted-equal-keys");
          REQ(c, r == (f != v.end()), "list-remove", "%s: List_RemSorted returned %d, entry %s", nm, r, f != v.end() ? "present" : "absent"); if (f != v.end()) { v.erase(f); removals++; } } break;
      case 7: { void* q = c.s.pick(POOL); int r = List_Replace(x.l, p, q); REQ(c, r == (f != v.end()), "list-replace", "%s: List_Replace returned %d", nm, r); if (f != v.end()) *f = q; break; }
      case 8: { int i = c.s.draw(n + 2); int r = List_Replacei(x.l, i, p); REQ(c, r == (i < n), "list-replace", "%s: List_Replacei(%d) returned %d", nm, i, r); if (i < n) v[i] = p; break; }
      case 9: { int b = c.s.draw(ls.size()); if (ls[b].m.size() + n > 4000) break; VP add = ls[b].m; x.l = List_Cat(x.l, ls[b].l); v.insert(v.end(), add.begin(), add.end()); c.label("cat"); if (b != a) check(c, ls[b], "List_Cat (source)"); break; }
      case 10: { int b = c.s.draw(ls.size()); if (b == a) break; List_Delete(ls[b].l); ls[b].l = List_Copy(x.l); ls[b].m = v; check(c, ls[b], "List_Copy (copy)"); c.label("copy"); break; }
      case 11: x.l = List_Compress(x.l); REQ(c, List_Size_Raw(x.l) == n, "list-compress", "%s: %d raw entries after compression", nm, List_Size_Raw(x.l)); c.label("compress"); break;
      case 12: { x.l = List_Compress(x.l); List_Sort(x.l, n, sizeof(void*), cmpid); std::stable_sort(v.begin(), v.end(), [](void* q, void* r) { return MEnt_ID(q) < MEnt_ID(r); }); c.label("sort");
        if (c.s.coin() && std::set<void*>(v.begin(), v.end()).size() == v.size()) for (int i = 0; i + 1 < n; i++) if (coarse(v[i]) == coarse(v[i + 1]) && c.s.coin()) { List_Replacei(x.l, i, v[i + 1]); List_Replacei(x.l, i + 1, v[i]); std::swap(v[i], v[i + 1]); }
        break; }
      case 13: {  // iterate, removing some of the entries just visited
        VP seen; int idx = 0; void* q; VP keep; VP want = v; int rm = c.s.draw(5);
        std::set<void*> dup(v.begin(), v.end()); if (dup.size() != v.size()) break;
        while ((q = List_Next_Entry(x.l, &idx))) { seen.push_back(q); if (rm && (int)(MEnt_ID(q) % 5) < rm) { List_Rem(x.l, q); removals++; } else keep.push_back(q); }
        REQ(c, seen == want, "list-iteration", "%s: iteration that removes the visited entries saw %s expected %s", nm, vs(seen).c_str(), vs(want).c_str());
        v = keep; c.label("remove-while-iterating"); break; }
      case 14: if (n && strictly(v) && !hole) { void* r = List_Search(x.l, p, n, sizeof(void*), cmpkey); REQ(c, r == (f == v.end() ? NULL : p), "list-search", "%s: List_Search", nm); c.label("search"); } break;
      case 16: { int raw = List_Size_Raw(x.l); int i = c.s.draw(raw + 1); void* q = List_Entry_Raw(x.l, i); int r = List_Remi_Raw(x.l, i);
        REQ(c, r == (i < raw), "list-remove", "%s: List_Remi_Raw(%d of %d) returned %d", nm, i, raw, r);
        if (i < raw && q) { int k = 0; for (int j = 0; j < i; j++) k += List_Entry_Raw(x.l, j) != NULL; REQ(c, k < n && v[k] == q, "list-raw", "%s: raw entry %d is not entry %d", nm, i, k); v.erase(v.begin() + k); removals++; }
        break; }
      case 17: List_Delete(x.l); x.l = List_New(c.s.draw(70)); v.clear(); break;
    }
    check(c, x, nm);
  }
  for (auto& x : ls) check(c, x, "the whole history");
  c.note("%d ops, %d removals, %d ops on lists with gaps, %d refused, sizes %zu %zu %zu", nops, removals, holes, refused, ls[0].m.size(), ls[1].m.size(), ls[2].m.size());
  if (grow > 8) c.label("grown");
  if (holes) c.label("gaps");
  if (refused) c.label("refused-requests");
  if (holes && removals >= 2) c.nontrivial();
}
static pbt::Property P = {"C05", "history with at least two removals and an operation on a list with gaps; distinct by choice tape", run, 12000, 400000};
int main(int argc, char** argv) { return pbt::main_serial(argc, argv, P); }
