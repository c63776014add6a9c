#include "rmesh.h"
// Attribute values against a map (attribute, entity) -> value.
struct Val { int st = 0; int i = 0; double d = 0; void* p = nullptr; std::vector<double> v; };  // st: 0 never set / removed, 1 set, 2 cleared
struct A { MAttrib_ptr a; std::string name; MAttType t; int dim, nc; std::map<void*, Val> val; };

static void checkVal(Case& c, A& a, void* e, const char* op) {
  auto it = a.val.find(e); Val w; if (it != a.val.end()) w = it->second;
  int iv = -77; double dv = -77; void* pv = (void*)&iv; int r = MEnt_Get_AttVal(e, a.a, &iv, &dv, &pv);
  const char* nm = a.name.c_str();
  REQ(c, (r != 0) == (w.st != 0) || w.st == 2, "att-status", "%s: MEnt_Get_AttVal(%s) returned %d for a value that was %s", op, nm, r, w.st ? "set" : "not set");
  if (w.st != 1) {
    bool zero = true;
    if (a.t == INT) zero = iv == 0 && MEnt_Get_IntAttVal(e, a.a) == 0;
    else if (a.t == DOUBLE) zero = dv == 0 && MEnt_Get_DblAttVal(e, a.a) == 0;
    else if (a.t == POINTER) zero = pv == NULL && MEnt_Get_PtrAttVal(e, a.a) == NULL;
    else { if (w.st == 0) zero = pv == NULL; else if (pv) for (int k = 0; k < a.nc; k++) zero &= ((double*)pv)[k] == 0; }
    REQ(c, zero, "att-default", "%s: attribute %s (type %d) has a value although it was %s", op, nm, (int)a.t, w.st ? "cleared" : "never set or removed");
    return;
  }
  if (a.t == INT) { REQ(c, iv == w.i && MEnt_Get_IntAttVal(e, a.a) == w.i, "att-value", "%s: %s is %d, last set %d", op, nm, iv, w.i); }
  else if (a.t == DOUBLE) { REQ(c, dv == w.d && MEnt_Get_DblAttVal(e, a.a) == w.d, "att-value", "%s: %s is %g, last set %g", op, nm, dv, w.d); }
  else if (a.t == POINTER) { REQ(c, pv == w.p && MEnt_Get_PtrAttVal(e, a.a) == w.p, "att-value", "%s: %s pointer differs", op, nm); }
  else {
    double* q = a.t == VECTOR ? MEnt_Get_VecAttVal(e, a.a) : MEnt_Get_TnsrAttVal(e, a.a);
    REQ(c, pv && q, "att-value", "%s: %s has no value", op, nm);
    for (int k = 0; k < a.nc; k++) REQ(c, ((double*)pv)[k] == w.v[k] && q[k] == w.v[k], "att-value", "%s: component %d of %s is %g, last set %g", op, k, nm, ((double*)pv)[k], w.v[k]);
  }
}

static void run(Case& c) {
  GenOpt o; o.maxcells = 4; RMesh m = genMesh(c, o); BM b = build(c, m, c.s.coin() ? F4 : F1, EXPLICIT);
  std::vector<A> as; int counter = 0, over = 0, clr = 0; double scratch[64]; int dummy[16];
  auto ents = [&](int dim) { std::vector<void*> r; for (int d = 0; d < 4; d++) if (dim == MALLTYPE || dim == d) for (void* p : b.ent[d]) r.push_back(p); return r; };
  auto dirCheck = [&](const char* op) {
    REQ(c, MESH_Num_Attribs(b.m) == (int)as.size(), "att-count", "%s: mesh has %d attributes, expected %zu", op, MESH_Num_Attribs(b.m), as.size());
    int idx = 0, k = 0; MAttrib_ptr q; while ((q = MESH_Next_Attrib(b.m, &idx))) { REQ(c, k < (int)as.size() && as[k].a == q, "att-iteration", "%s: attribute %d", op, k); k++; }
    for (k = 0; k < (int)as.size(); k++) {
      A& x = as[k]; char t[512];
      REQ(c, MESH_Attrib(b.m, k) == x.a, "att-index", "%s: MESH_Attrib(%d)", op, k);
      REQ(c, MESH_AttribByName(b.m, x.name.c_str()) == x.a, "att-by-name", "%s: lookup of %s", op, x.name.c_str());
      REQ(c, x.name == MAttrib_Get_Name(x.a, t), "att-name", "%s: name %s", op, t);
      REQ(c, MAttrib_Get_Type(x.a) == x.t && (int)MAttrib_Get_EntDim(x.a) == x.dim && MAttrib_Get_NumComps(x.a) == x.nc, "att-def", "%s: type, entity type or components of %s", op, t);
    }
    REQ(c, MESH_AttribByName(b.m, "nope") == NULL && MESH_Attrib(b.m, as.size()) == NULL, "att-by-name", "%s: absent attribute found", op);
  };
  dirCheck("start");
  int nops = 4 + c.s.draw(4 * c.size + 4);
  int D = m.topo;
  for (int st = 0; st < nops; st++) {
    int op = as.empty() ? 0 : c.s.draw(17); char nm[64]; snprintf(nm, sizeof nm, "step %d op %d", st, op);
    if (op == 0) {
      if (as.size() >= 8) continue;
      MAttType ts[] = {INT, DOUBLE, POINTER, VECTOR, TENSOR}; MAttType t = ts[c.s.draw(5)]; int dims[] = {0, 1, 2, D, MALLTYPE}; int d = dims[c.s.draw(5)];
      int nc = t == VECTOR || t == TENSOR ? 1 + (int)c.s.draw(t == TENSOR ? 21 : 5) : 1; std::string n = pbt::format("%s%d", c.s.coin() ? "att" : "attribute with a long name ", counter++);
      MAttrib_ptr a = nc > 1 || t == VECTOR || t == TENSOR ? MAttrib_New(b.m, n.c_str(), t, (MType)d, nc) : MAttrib_New(b.m, n.c_str(), t, (MType)d);
      as.push_back({a, n, t, d, nc, {}}); dirCheck(nm); continue;
    }
    A& a = as[c.s.draw(as.size())]; auto es = ents(a.dim); if (es.empty()) continue; void* e = c.s.pick(es);
    if (op <= 9) {
      Val v; v.st = 1; v.i = (int)c.s.draw(2000001) - 1000000; v.d = c.s.real(-1e6, 1e6); v.p = &dummy[c.s.draw(16)]; for (int k = 0; k < a.nc; k++) v.v.push_back(c.s.real(-10, 10));
      for (int k = 0; k < a.nc; k++) scratch[k] = v.v[k];
      if (a.val.count(e) && a.val[e].st) over++;
      bool gen = c.s.coin(); double* old = nullptr; if ((a.t == VECTOR || a.t == TENSOR)) old = MEnt_Get_VecAttVal(e, a.a);
      if (gen) MEnt_Set_AttVal(e, a.a, v.i, v.d, a.t == POINTER ? v.p : (void*)scratch);
      else switch (a.t) { case INT: MEnt_Set_IntAttVal(e, a.a, v.i); break; case DOUBLE: MEnt_Set_DblAttVal(e, a.a, v.d); break; case POINTER: MEnt_Set_PtrAttVal(e, a.a, v.p); break; case VECTOR: MEnt_Set_VecAttVal(e, a.a, scratch); break; default: MEnt_Set_TnsrAttVal(e, a.a, scratch); }
      (void)old;
      for (int k = 0; k < a.nc; k++) scratch[k] = -999;   // the stored value must be a copy
      a.val[e] = v;
    } else if (op <= 11) { MEnt_Clear_AttVal(e, a.a); if (a.val.count(e) && a.val[e].st) { a.val[e].st = 2; clr++; } c.label("clear"); }
    else if (op <= 13) { MEnt_Rem_AttVal(e, a.a); a.val.erase(e); c.label("remove"); clr++; }
    else if (op == 14) { MEnt_Rem_AllAttVals(e); for (auto& x : as) x.val.erase(e); c.label("remove-all"); clr++; }
    else if (op == 15) { if (c.s.chance(1, 2)) { MAttrib_Clear(a.a); for (auto& x : a.val) if (x.second.st) x.second.st = 2; c.label("clear-attribute"); } }
    else if (c.s.chance(1, 2)) { size_t k = &a - &as[0]; MAttrib_Delete(a.a); as.erase(as.begin() + k); c.label("delete-attribute"); dirCheck(nm); continue; }
    checkVal(c, a, e, nm);
    if (c.s.chance(1, 4)) { dirCheck(nm); for (auto& x : as) for (void* q : ents(x.dim)) checkVal(c, x, q, nm); }
    else { auto& x = as[c.s.draw(as.size())]; auto q = ents(x.dim); if (!q.empty()) checkVal(c, x, c.s.pick(q), nm); }
  }
  dirCheck("end"); for (auto& x : as) for (void* q : ents(x.dim)) checkVal(c, x, q, "end");
  // values do not disturb the mesh
  checkAdjacency(c, b, m, "after attribute operations", 1); checkCoords(c, b, m, "after attribute operations");
  // a deleted entity takes its values along, others keep theirs
  if (m.topo == 2 && m.n(2) > 1) { void* f = b.ent[2][0]; MF_Delete(f, 0); for (auto& x : as) { x.val.erase(f); for (void* q : ents(x.dim)) if (q != f) checkVal(c, x, q, "after deleting a face"); } c.label("entity-deleted"); }
  c.note("%d operations on %zu attributes, %d overwrites, %d clears/removals", nops, as.size(), over, clr);
  MESH_Delete(b.m);
  if (over && clr) c.nontrivial();
}
static pbt::Property P = {"C07", "history with at least one overwrite and one clear or removal; distinct by choice tape", run, 10000, 200000};
int main(int argc, char** argv) { return pbt::main_serial(argc, argv, P); }
