// A stand-in for the message passing layer: the ranks are forked processes of one case, messages go through shared
// memory, and how long a send blocks is chosen by the case. Any behaviour shown here is one MPI allows.
// Finds: deadlocks (exactly), truncation, type mismatch, messages nobody receives, requests nobody completes,
// collectives that do not match, send buffers changed before completion.
#pragma once
#include "pbt.h"
#include <mpi.h>
#include <functional>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstring>
#include <list>
namespace shim {
enum { MAXNP = 12, MAXMSG = 200000, MAXCOL = 20000 };
struct Msg { int src, dst, tag; size_t bytes, off; void* type; bool taken; int next; };
struct Col { int kind, root; long count; void *type, *op; size_t off; bool posted; };
struct Shm {
  pthread_mutex_t mx; pthread_cond_t cv; int np; unsigned long version; bool stop; uint64_t seed; int eager; bool synccol, trace;
  bool blocked[MAXNP], done[MAXNP]; unsigned long bver[MAXNP]; char where[MAXNP][160];
  char kind[80], msg[3000]; int failrank; char labels[4096]; size_t out[MAXNP], outn[MAXNP];
  size_t top, cap; int nmsg; int head[MAXNP][MAXNP], tail[MAXNP][MAXNP]; Msg m[MAXMSG]; Col col[MAXCOL][MAXNP]; char data[1];
};
struct Req { bool send, completed; int peer, tag; size_t bytes; void* type; void* buf; int mi; bool pushed; MPI_Status st; };
inline Shm* S = nullptr; inline int me = 0; inline bool inited = false; inline int nsend = 0, ncol = 0; inline std::list<Req*> live; inline long ncalls = 0;
[[noreturn]] inline void die(const char* kind, const char* fmt, ...) {
  if (!S->failrank) { S->failrank = me + 1; snprintf(S->kind, sizeof S->kind, "%s", kind); va_list ap; va_start(ap, fmt); vsnprintf(S->msg, sizeof S->msg, fmt, ap); va_end(ap); }
  S->stop = true; pthread_cond_broadcast(&S->cv); pthread_mutex_unlock(&S->mx); _exit(77);
}
struct Lock { Lock() { pthread_mutex_lock(&S->mx); if (S->stop) { pthread_mutex_unlock(&S->mx); _exit(77); } } ~Lock() { pthread_mutex_unlock(&S->mx); } };
inline void bump() { S->version++; pthread_cond_broadcast(&S->cv); }
inline size_t alloc(size_t n) { size_t o = S->top; S->top += (n + 15) & ~(size_t)15; if (S->top > S->cap) die("inconclusive:arena", "message arena exhausted"); return o; }
inline void checkDeadlock() {
  for (int r = 0; r < S->np; r++) if (!S->done[r] && !(S->blocked[r] && S->bver[r] == S->version)) return;
  std::string s; for (int r = 0; r < S->np; r++) s += pbt::format("rank %d %s; ", r, S->done[r] ? "has finished" : S->where[r]); die("deadlock", "no rank can proceed: %s", s.c_str());
}
template <class P> inline void wait(const char* what, P pred) {  // lock held
  snprintf(S->where[me], sizeof S->where[me], "waits in %s", what);
  while (!pred()) { S->blocked[me] = true; S->bver[me] = S->version; checkDeadlock(); pthread_cond_wait(&S->cv, &S->mx); if (S->stop) { pthread_mutex_unlock(&S->mx); _exit(77); } }
  S->blocked[me] = false;
}
inline size_t tsize(MPI_Datatype t) {
  if (t == MPI_INT || t == MPI_UNSIGNED || t == MPI_FLOAT) return 4; if (t == MPI_DOUBLE || t == MPI_LONG || t == MPI_UNSIGNED_LONG || t == MPI_LONG_LONG || t == MPI_UINT64_T || t == MPI_INT64_T || t == MPI_UNSIGNED_LONG_LONG) return 8; if (t == MPI_CHAR || t == MPI_BYTE || t == MPI_UNSIGNED_CHAR || t == MPI_SIGNED_CHAR) return 1; if (t == MPI_SHORT) return 2;
  die("harness", "unknown datatype");
}
inline int put(int dst, int tag, const void* b, size_t bytes, void* type) {
  if (S->nmsg >= MAXMSG) die("inconclusive:messages", "too many messages");
  int i = S->nmsg++; Msg& m = S->m[i]; m.src = me; m.dst = dst; m.tag = tag; m.bytes = bytes; m.type = type; m.off = alloc(bytes); if (bytes) memcpy(S->data + m.off, b, bytes); m.taken = false; m.next = -1;
  if (S->tail[me][dst] >= 0) S->m[S->tail[me][dst]].next = i; else S->head[me][dst] = i; S->tail[me][dst] = i; bump(); return i;
}
inline void flush() { for (Req* r : live) if (r->send && !r->pushed) { r->mi = put(r->peer, r->tag, r->buf, r->bytes, r->type); r->pushed = true; } }  // in order of posting
inline uint64_t choice() { return pbt::mix64(S->seed ^ (uint64_t)(me * 1000003 + nsend++) * 0x9E3779B97F4A7C15ull); }
inline int match(int src, int tag) { for (int s = 0; s < S->np; s++) if (src == MPI_ANY_SOURCE || s == src) for (int i = S->head[s][me]; i >= 0; i = S->m[i].next) if (!S->m[i].taken && (tag == MPI_ANY_TAG || S->m[i].tag == tag)) return i; return -1; }
inline void take(int i, void* buf, size_t cap, void* type, MPI_Status* st) {
  Msg& m = S->m[i]; if (m.type != type) die("mpi-type-mismatch", "message from rank %d tag %d received with another datatype", m.src, m.tag);
  if (m.bytes > cap) die("mpi-truncate", "message of %zu bytes from rank %d tag %d received into %zu bytes on rank %d", m.bytes, m.src, m.tag, cap, me);
  if (m.bytes) memcpy(buf, S->data + m.off, m.bytes); m.taken = true; while (S->head[m.src][me] >= 0 && S->m[S->head[m.src][me]].taken) S->head[m.src][me] = S->m[S->head[m.src][me]].next; if (S->head[m.src][me] < 0) S->tail[m.src][me] = -1;
  if (st && st != MPI_STATUS_IGNORE) { st->MPI_SOURCE = m.src; st->MPI_TAG = m.tag; st->MPI_ERROR = 0; st->_ucount = m.bytes; } bump();
}
inline void peerOk(int p, const char* w) { if (p < 0 || p >= S->np) die("mpi-rank", "%s with rank %d of %d", w, p, S->np); }
inline void complete(Req* r, MPI_Status* st) {
  if (r->send) { flush(); if (S->eager == 0 || (S->eager == 2 && (choice() & 1))) { int i = r->mi; wait(pbt::format("completion of a send to %d tag %d", r->peer, r->tag).c_str(), [&] { return S->m[i].taken; }); } }
  else if (!r->completed) {
    // receives posted earlier from the same peer match first
    flush(); wait(pbt::format("completion of a receive from %d tag %d", r->peer, r->tag).c_str(), [&] { for (Req* q : live) if (!q->send && !q->completed) { int i = match(q->peer, q->tag); if (i >= 0) { take(i, q->buf, q->bytes, q->type, &q->st); q->completed = true; } } return r->completed; });
  }
  if (!r->send && st && st != MPI_STATUS_IGNORE) *st = r->st; live.remove(r); delete r;
}
// collectives: every rank posts its part; those that need other parts wait for them
inline Col* post(const char* name, int kind, int root, long count, MPI_Datatype t, MPI_Op op, const void* b, size_t bytes, bool needall) {
  if (ncol >= MAXCOL) die("inconclusive:collectives", "too many collectives"); flush(); int s = ncol++; Col& c = S->col[s][me]; c.kind = kind; c.root = root; c.count = count; c.type = t; c.op = op; c.off = alloc(bytes); if (bytes) memcpy(S->data + c.off, b, bytes); c.posted = true; bump();
  Col* all = S->col[s]; if (needall || S->synccol) wait(name, [&] { for (int r = 0; r < S->np; r++) if (!all[r].posted) return false; return true; });
  else if (root >= 0 && root != me && kind != 4 && kind != 1) {} // a contribution only
  else if (root >= 0 && root != me) wait(name, [&] { return all[root].posted; });
  for (int r = 0; r < S->np; r++) if (all[r].posted && (all[r].kind != kind || all[r].root != root || all[r].count != count || all[r].type != t || all[r].op != op)) die("mpi-collective-mismatch", "collective %d (%s): rank %d and rank %d call different collectives or with different root, count, type or operation (%d/%d, %ld/%ld)", s, name, me, r, kind, all[r].kind, count, all[r].count);
  return all;
}
template <class T> inline void red(T* a, const T* b, long n, MPI_Op op) { for (long i = 0; i < n; i++) { if (op == MPI_SUM) a[i] += b[i]; else if (op == MPI_MAX) { if (b[i] > a[i]) a[i] = b[i]; } else if (op == MPI_MIN) { if (b[i] < a[i]) a[i] = b[i]; } else if (op == MPI_LAND) a[i] = a[i] && b[i]; else if (op == MPI_LOR) a[i] = a[i] || b[i]; else die("harness", "unknown reduction"); } }
struct Opt { int eager = 1; bool synccol = false; uint64_t seed = 0; };  // eager 0: sends block until received, 1: buffered, 2: chosen per message
inline Opt draw(pbt::Case& c) { Opt o; o.eager = c.s.draw(3); o.synccol = c.s.coin(); o.seed = c.s.draw(1 << 30); c.label(o.eager == 0 ? "sends-synchronous" : o.eager == 1 ? "sends-buffered" : "sends-mixed"); return o; }
inline void run(pbt::Case& c, int np, const Opt& o, const std::function<void(int, std::string&)>& body, std::vector<std::string>& outs) {
  size_t cap = 256u << 20, tot = sizeof(Shm) + cap; S = (Shm*)mmap(nullptr, tot, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (S == MAP_FAILED) { S = nullptr; c.fail("harness", "no shared memory"); }
  pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED); pthread_mutex_init(&S->mx, &ma);
  pthread_condattr_t ca; pthread_condattr_init(&ca); pthread_condattr_setpshared(&ca, PTHREAD_PROCESS_SHARED); pthread_cond_init(&S->cv, &ca);
  S->np = np; S->cap = cap; S->eager = o.eager; S->synccol = o.synccol; S->seed = o.seed; for (int i = 0; i < MAXNP; i++) for (int j = 0; j < MAXNP; j++) S->head[i][j] = S->tail[i][j] = -1;
  fflush(NULL); std::vector<pid_t> pid(np);
  for (int r = 0; r < np; r++) { pid[r] = fork(); if (pid[r]) continue;
    prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(300); me = r; inited = true; nsend = ncol = 0; live.clear(); auto l0 = c.labels; std::string out; 
    auto fin = [&](const char* k, const char* m) { Lock l; if (!S->failrank) { S->failrank = r + 1; snprintf(S->kind, sizeof S->kind, "%s", k); snprintf(S->msg, sizeof S->msg, "[rank %d of %d] %s", r, np, m); } S->stop = true; pthread_cond_broadcast(&S->cv); };
    try { body(r, out); } catch (pbt::Failure& f) { fin(f.kind.c_str(), f.msg.c_str()); _exit(77); } catch (std::exception& e) { fin("harness-exception", e.what()); _exit(77); }
    { Lock l; if (!live.empty()) die("mpi-request-leak", "rank %d never completed a %s with rank %d tag %d", r, live.front()->send ? "send" : "receive", live.front()->peer, live.front()->tag);
      for (int s = 0; s < np; s++) for (int i = S->head[s][r]; i >= 0; i = S->m[i].next) if (!S->m[i].taken) die("mpi-unreceived", "message from rank %d to rank %d tag %d was never received", s, r, S->m[i].tag);
      S->out[r] = alloc(out.size()); S->outn[r] = out.size(); memcpy(S->data + S->out[r], out.data(), out.size()); for (auto& x : c.labels) if (!l0.count(x)) if (strlen(S->labels) + x.size() + 2 < sizeof S->labels) { strcat(S->labels, x.c_str()); strcat(S->labels, "\n"); }
      S->done[r] = true; bump(); if (!S->stop) { bool all = true; for (int q = 0; q < np; q++) all &= S->done[q]; if (!all) checkDeadlock(); } }
    fflush(NULL); _exit(0); }
  int crash = 0; bool crashed = false;
  for (int k = 0; k < np; k++) { int st = 0; pid_t p; while ((p = ::wait(&st)) < 0 && errno == EINTR) {} if (p < 0) break; bool ok = WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 77);
    if (!ok && !crashed && !S->failrank) { crashed = true; crash = st; } if (!ok) { for (pid_t q : pid) if (q != p) kill(q, SIGKILL); } }
  if (crashed) { fflush(NULL); if (WIFSIGNALED(crash)) { signal(WTERMSIG(crash), SIG_DFL); raise(WTERMSIG(crash)); } _exit(WEXITSTATUS(crash) ? WEXITSTATUS(crash) : 1); }
  std::string k = S->kind, m = S->msg, lb = S->labels; int fr = S->failrank;
  if (!fr) for (int s = 0; s < np; s++) for (int d = 0; d < np; d++) for (int i = S->head[s][d]; i >= 0; i = S->m[i].next) if (!S->m[i].taken && !fr) { fr = 1; k = "mpi-unreceived"; m = pbt::format("message from rank %d to rank %d tag %d was never received", s, d, S->m[i].tag); }
  outs.clear(); if (!fr) for (int r = 0; r < np; r++) outs.push_back(std::string(S->data + S->out[r], S->outn[r]));
  munmap(S, tot); S = nullptr; size_t p0 = 0, p1; while ((p1 = lb.find('\n', p0)) != std::string::npos) { c.label(lb.substr(p0, p1 - p0)); p0 = p1 + 1; }
  if (fr) c.fail(k.c_str(), "%s", m.c_str());
}
}  // namespace shim
extern "C" {
using namespace shim;
int MPI_Init(int*, char***) { inited = true; return 0; }
int MPI_Initialized(int* f) { *f = inited; return 0; }
int MPI_Finalize() { return 0; }
int MPI_Comm_rank(MPI_Comm, int* r) { *r = S ? me : 0; return 0; }
int MPI_Comm_size(MPI_Comm, int* n) { *n = S ? S->np : 1; return 0; }
double MPI_Wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
int MPI_Error_string(int, char* s, int* n) { strcpy(s, "error"); *n = 5; return 0; }
int MPI_Abort(MPI_Comm, int e) { abort(); }
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { *n = (int)(s->_ucount / tsize(t)); return 0; }
int MPI_Send(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm) {
  Lock l; peerOk(dst, "MPI_Send"); if (n < 0) die("mpi-count", "MPI_Send with count %d", n); flush(); int i = put(dst, tag, b, n * tsize(t), t); bool sync = S->eager == 0 || (S->eager == 2 && (choice() & 1));
  if (sync) wait(pbt::format("MPI_Send to %d tag %d", dst, tag).c_str(), [&] { return S->m[i].taken; }); return 0;
}
int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Status* st) {
  Lock l; if (src != MPI_ANY_SOURCE) peerOk(src, "MPI_Recv"); if (n < 0) die("mpi-count", "MPI_Recv with count %d", n); flush(); for (Req* q : live) if (!q->send && !q->completed && q->peer == src && q->tag == tag) die("harness", "blocking receive behind a posted one");
  int i = -1; wait(pbt::format("MPI_Recv from %d tag %d", src, tag).c_str(), [&] { return (i = match(src, tag)) >= 0; }); take(i, b, n * tsize(t), t, st); return 0;
}
int MPI_Isend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm, MPI_Request* r) {
  Lock l; peerOk(dst, "MPI_Isend"); if (n < 0) die("mpi-count", "MPI_Isend with count %d", n); Req* q = new Req{true, false, dst, tag, n * tsize(t), t, (void*)b, -1, false, {}}; live.push_back(q); bool now = S->eager == 1 || (S->eager == 2 && (choice() & 1)); if (now) flush(); *r = (MPI_Request)q; return 0;
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Request* r) {
  Lock l; peerOk(src, "MPI_Irecv"); Req* q = new Req{false, false, src, tag, n * tsize(t), t, b, -1, false, {}}; live.push_back(q); *r = (MPI_Request)q; return 0;
}
int MPI_Wait(MPI_Request* r, MPI_Status* st) { Lock l; if (*r == MPI_REQUEST_NULL) return 0; complete((Req*)*r, st); *r = MPI_REQUEST_NULL; return 0; }
int MPI_Waitall(int n, MPI_Request r[], MPI_Status st[]) { Lock l; for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) { complete((Req*)r[i], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &st[i]); r[i] = MPI_REQUEST_NULL; } return 0; }
int MPI_Barrier(MPI_Comm) { Lock l; post("MPI_Barrier", 0, -1, 0, MPI_INT, MPI_SUM, nullptr, 0, true); return 0; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm) { Lock l; peerOk(root, "MPI_Bcast"); size_t z = n * tsize(t); Col* a = post("MPI_Bcast", 1, root, n, t, MPI_SUM, b, me == root ? z : 0, false); if (me != root && z) memcpy(b, S->data + a[root].off, z); return 0; }
int MPI_Allgather(const void* b, int n, MPI_Datatype t, void* rb, int rn, MPI_Datatype rt, MPI_Comm) {
  Lock l; size_t z = n * tsize(t); if (z != rn * tsize(rt)) die("mpi-count", "MPI_Allgather sends %d and receives %d", n, rn); const void* src = b == MPI_IN_PLACE ? (char*)rb + me * z : b; Col* a = post("MPI_Allgather", 2, -1, n, t, MPI_SUM, src, z, true);
  for (int r = 0; r < S->np; r++) { if (b != MPI_IN_PLACE && z && (char*)rb + r * z < (char*)b + z && (char*)b < (char*)rb + (r + 1) * z) die("mpi-alias", "MPI_Allgather with overlapping buffers"); if (z) memcpy((char*)rb + r * z, S->data + a[r].off, z); } return 0;
}
int MPI_Allreduce(const void* b, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) {
  Lock l; size_t z = n * tsize(t); Col* a = post("MPI_Allreduce", 3, -1, n, t, op, b == MPI_IN_PLACE ? rb : b, z, true); if (!z) return 0; if (b == rb) die("mpi-alias", "MPI_Allreduce with the same buffer"); memcpy(rb, S->data + a[0].off, z);
  for (int r = 1; r < S->np; r++) { const void* q = S->data + a[r].off; if (t == MPI_INT) red((int*)rb, (const int*)q, n, op); else if (t == MPI_DOUBLE) red((double*)rb, (const double*)q, n, op); else if (t == MPI_UNSIGNED) red((unsigned*)rb, (const unsigned*)q, n, op); else die("harness", "reduction of unknown type"); } return 0;
}
int MPI_Scatter(const void* b, int n, MPI_Datatype t, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm) { Lock l; size_t z = n * tsize(t); Col* a = post("MPI_Scatter", 4, root, n, t, MPI_SUM, b, me == root ? z * S->np : 0, false); if (z) memcpy(rb, S->data + a[root].off + me * z, z); return 0; }
int MPI_Gather(const void* b, int n, MPI_Datatype t, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm) { Lock l; size_t z = n * tsize(t); Col* a = post("MPI_Gather", 5, root, n, t, MPI_SUM, b, z, me == root); if (me == root) for (int r = 0; r < S->np; r++) if (z) memcpy((char*)rb + r * z, S->data + a[r].off, z); return 0; }
}
