#include "pbt.h"
#include <cstdarg>
#include <ctime>
#include <cerrno>
#include <sstream>
#include <fstream>
#include <iostream>
#include <unistd.h>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=99:symbolize=0:allocator_may_return_null=0:max_allocation_size_mb=3000:hard_rss_limit_mb=6000:detect_stack_use_after_return=0:handle_abort=0:malloc_context_size=1:quarantine_size_mb=8";
}

namespace pbt {

static const size_t TAPE_MAX = 1u << 19;
struct Shared {
  int state;  // 0 running, 1 ok, 2 failed
  int nontriv;
  uint64_t key;
  char labels[2048];
  char desc[1500];
  char kind[128];
  char msg[4096];
  size_t ntape;
  uint64_t tape[TAPE_MAX];
};

std::string format(const char* fmt, ...) {
  char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  return b;
}
uint64_t mix64(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}
uint64_t Src::raw() {  // xorshift128+
  uint64_t a = st[0], b = st[1]; st[0] = b; a ^= a << 23;
  st[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return st[1] + b;
}
uint64_t Src::draw(uint64_t n) {
  uint64_t v;
  if (replay) v = (in && pos < in->size()) ? (*in)[pos] : 0; else v = raw();
  pos++;
  if (n < 1) n = 1;
  v = replay ? std::min(v, n - 1) : v % n;
  if (sh) { if (sh->ntape < TAPE_MAX) sh->tape[sh->ntape++] = v; }
  else own.push_back(v);
  return v;
}
void Case::note(const char* fmt, ...) {
  char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (desc.size() < 1400) { if (!desc.empty()) desc += "; "; desc += b; }
  if (verbose) fprintf(stderr, "NOTE %s\n", b);
}
void Case::fail(const char* kind, const char* fmt, ...) {
  char b[3500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  throw Failure{kind, b};
}

struct Outcome {
  bool failed = false, inconclusive = false;
  std::string kind, msg, labels, desc;
  bool nontriv = false; uint64_t key = 0;
  std::vector<uint64_t> tape;
};

static Shared* SH;
static std::string SCRATCH;
static const Property* PROP;
static void (*KNOWN)(Case&) = nullptr;

static void rm_contents(const std::string& d) {
  DIR* dir = opendir(d.c_str());
  if (!dir) return;
  while (dirent* e = readdir(dir)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string p = d + "/" + n;
    struct stat sb;
    if (lstat(p.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode)) { rm_contents(p); rmdir(p.c_str()); }
    else unlink(p.c_str());
  }
  closedir(dir);
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static Outcome run_one(const std::vector<uint64_t>* tape, uint64_t seed, uint64_t idx, int size, bool verbose = false) {
  SH->state = 0; SH->nontriv = 0; SH->key = 0; SH->labels[0] = SH->desc[0] = SH->kind[0] = SH->msg[0] = 0; SH->ntape = 0;
  std::string errf = SCRATCH + "/stderr.txt";
  std::string dir = SCRATCH + "/d";
  mkdir(dir.c_str(), 0700);
  fflush(NULL);
  pid_t pid = fork();
  if (pid == 0) {
    if (chdir(dir.c_str())) _exit(98);
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    if (!verbose) { int ef = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(ef, 2); }
    rlimit rl; rl.rlim_cur = 60; rl.rlim_max = 65; setrlimit(RLIMIT_CPU, &rl);
    rlimit rf; rf.rlim_cur = rf.rlim_max = 512u << 20; setrlimit(RLIMIT_FSIZE, &rf);
    alarm(400);
    Src s; s.sh = SH;
    if (tape) { s.replay = true; s.in = tape; }
    else { s.st[0] = mix64(seed * 0x9E3779B97F4A7C15ull + idx * 2 + 1); s.st[1] = mix64(s.st[0] ^ (idx << 20) ^ seed); if (!s.st[0]) s.st[0] = 1; }
    Case c(s);
    c.scratch = dir; c.verbose = verbose;
    // the size is the first tape entry so that it replays and shrinks
    if (s.replay) c.size = (int)s.draw(101);
    else { SH->tape[SH->ntape++] = size; c.size = size; s.pos++; }
    int st = 1;
    try { if (KNOWN) KNOWN(c); else PROP->run(c); }
    catch (Failure& f) {
      st = 2; snprintf(SH->kind, sizeof SH->kind, "%s", f.kind.c_str()); snprintf(SH->msg, sizeof SH->msg, "%s", f.msg.c_str());
    } catch (std::exception& e) {
      st = 2; snprintf(SH->kind, sizeof SH->kind, "harness-exception"); snprintf(SH->msg, sizeof SH->msg, "%s", e.what());
    }
    std::string l; for (auto& x : c.labels) l += x + "\n";
    snprintf(SH->labels, sizeof SH->labels, "%s", l.c_str());
    snprintf(SH->desc, sizeof SH->desc, "%s", c.desc.c_str());
    SH->nontriv = c.nontriv;
    uint64_t k = c.key;
    if (!k) for (size_t i = 0; i < SH->ntape; i++) k = mix64(k ^ SH->tape[i]);
    SH->key = k;
    SH->state = st;
    fflush(NULL);
    _exit(0);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
  Outcome o;
  o.tape.assign(SH->tape, SH->tape + SH->ntape);
  if (SH->state == 1 && WIFEXITED(status) && WEXITSTATUS(status) == 0) {
    o.nontriv = SH->nontriv; o.key = SH->key; o.labels = SH->labels; o.desc = SH->desc;
  } else if (SH->state == 2) {
    o.kind = SH->kind; o.msg = SH->msg; o.desc = SH->desc; (o.kind.rfind("inconclusive", 0) == 0 ? o.inconclusive : o.failed) = true;
  } else {
    std::string err;
    { std::ifstream f(errf); std::stringstream ss; ss << f.rdbuf(); err = ss.str(); }
    if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) { o.inconclusive = true; o.kind = "wall-clock"; }
    else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) { o.inconclusive = true; o.kind = "killed"; }
    else {
      o.failed = true;
      size_t p = err.find("AddressSanitizer: ");
      if (WIFSIGNALED(status) && (WTERMSIG(status) == SIGXCPU)) o.kind = "no-termination(cpu-limit)";
      else if (p != std::string::npos) { std::string k = err.substr(p + 18, 60); o.kind = "memory-error:" + k.substr(0, k.find_first_of(" \n(")); }
      else if ((p = err.find("FATAL ERROR!! in ")) != std::string::npos) { std::string k = err.substr(p + 17, 80); o.kind = "fatal:" + k.substr(0, k.find_first_of(":\n")); }
      else if (WIFSIGNALED(status)) o.kind = format("signal:%d", WTERMSIG(status));
      else o.kind = format("exit:%d", WEXITSTATUS(status));
      o.msg = err.size() > 3000 ? err.substr(0, 1500) + "\n...\n" + err.substr(err.size() - 1500) : err;
    }
  }
  rm_contents(dir);
  return o;
}

static std::vector<uint64_t> shrink(std::vector<uint64_t> best, const std::string& kind, double tlimit, int maxruns) {
  double t0 = now(); int runs = 0;
  auto better = [&](const std::vector<uint64_t>& cand) -> bool {
    if (runs >= maxruns || now() - t0 > tlimit) return false;
    runs++;
    Outcome o = run_one(&cand, 0, 0, 0);
    if (o.failed && o.kind == kind) {
      // o.tape is the canonical (consumed) form
      std::vector<uint64_t> t = o.tape;
      if (t.size() < best.size() || (t.size() == best.size() && t < best)) { best = t; return true; }
    }
    return false;
  };
  bool progress = true;
  while (progress && runs < maxruns && now() - t0 < tlimit) {
    progress = false;
    for (size_t blk = std::max<size_t>(1, best.size() / 2); blk >= 1; blk /= 2) {
      for (size_t i = best.size(); i > 0;) {
        size_t a = i > blk ? i - blk : 0;
        if (a >= best.size()) { i = best.size(); if (!i) break; continue; }
        std::vector<uint64_t> c(best.begin(), best.begin() + a);
        if (a + blk < best.size()) c.insert(c.end(), best.begin() + a + blk, best.end());
        if (better(c)) progress = true;
        else {
          bool any = false; c = best;
          for (size_t j = a; j < std::min(best.size(), a + blk); j++) { any |= c[j] != 0; c[j] = 0; }
          if (any && better(c)) progress = true;
        }
        i = a;
        if (runs >= maxruns || now() - t0 > tlimit) break;
      }
      if (blk == 1) break;
    }
    for (size_t i = 0; i < best.size(); i++) {
      if (best[i] == 0) continue;
      std::vector<uint64_t> c = best;
      uint64_t lo = 0, hi = best[i];
      for (int it = 0; it < 12 && lo < hi; it++) {
        uint64_t mid = lo + (hi - lo) / 2;
        c = best; if (i >= c.size()) break; c[i] = mid;
        if (better(c)) { progress = true; if (i >= best.size()) break; hi = best[i]; } else lo = mid + 1;
      }
      if (runs >= maxruns || now() - t0 > tlimit) break;
    }
  }
  return best;
}

static std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) o += format("\\u%04x", ch);
    else o += ch;
  }
  return o;
}

static std::vector<uint64_t> read_tape(const char* path) {
  std::ifstream f(path); std::vector<uint64_t> t; std::string line;
  while (std::getline(f, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::stringstream ss(line); uint64_t v; while (ss >> v) t.push_back(v);
  }
  return t;
}

int main_serial(int argc, char** argv, const Property& p) {
  if (!getenv("PBT_NOASLR")) {  // stable addresses: pointer-order effects replay
    setenv("PBT_NOASLR", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  PROP = &p;
  uint64_t seed = 1; int worker = 0, nworkers = 1; long cases = 100; double tlimit = 1e9; const char* replay = nullptr;
  std::string out, known; bool verbose = false; int only = -1; int minsize = 4, maxsize = 60;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return i + 1 < argc ? argv[++i] : (char*)"0"; };
    if (a == "--seed") seed = strtoull(nx(), 0, 10);
    else if (a == "--worker") worker = atoi(nx());
    else if (a == "--nworkers") nworkers = atoi(nx());
    else if (a == "--cases") cases = atol(nx());
    else if (a == "--time") tlimit = atof(nx());
    else if (a == "--out") out = nx();
    else if (a == "--replay") replay = nx();
    else if (a == "--only") only = atoi(nx());
    else if (a == "--maxsize") maxsize = atoi(nx());
    else if (a == "-v") verbose = true;
    else if (a == "--known") known = nx();
    else if (a == "--info") { printf("{\"id\":\"%s\",\"rule\":\"%s\",\"quick\":%d,\"thorough\":%d,\"mpi\":0}\n", p.id, jesc(p.rule).c_str(), p.quick_cases, p.thorough_cases); return 0; }
  }
  if (p.setup) p.setup();
  SH = (Shared*)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  char tmpl[256]; snprintf(tmpl, sizeof tmpl, "%s/pbtXXXXXX", getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp");
  if (!mkdtemp(tmpl)) return 4;
  SCRATCH = tmpl;
  auto cleanup = [&]() { rm_contents(SCRATCH); rmdir(SCRATCH.c_str()); };
  if (!known.empty()) {
    for (auto& k : p.known) if (known == k.name) {
      KNOWN = k.run; std::vector<uint64_t> t;
      Outcome o = run_one(&t, 0, 0, 0, verbose);
      cleanup();
      if (o.inconclusive) { printf("INCONCLUSIVE %s\n", o.kind.c_str()); return 5; }
      if (o.failed) { printf("FAILS kind=%s\n%s\n%s\n", o.kind.c_str(), o.msg.c_str(), o.desc.c_str()); return 1; }
      printf("PASSES\n"); return 0;
    }
    cleanup(); printf("no such known case\n"); return 4;
  }
  if (replay) {
    auto t = read_tape(replay);
    Outcome o = run_one(&t, 0, 0, 0, verbose);
    cleanup();
    if (o.inconclusive) { printf("INCONCLUSIVE %s\n", o.kind.c_str()); return 5; }
    if (o.failed) { printf("FAILS kind=%s\n%s\n%s\n", o.kind.c_str(), o.msg.c_str(), o.desc.c_str()); return 1; }
    printf("PASSES %s\n", o.desc.c_str());
    return 0;
  }
  std::map<std::string, long> lab; std::set<uint64_t> keys; std::vector<std::string> samples;
  long n = 0, nt = 0, inconc = 0, flaky = 0; double t0 = now();
  std::string status = "ok", failjson;
  auto sz = [&](long i) { return minsize + (int)((i * 37) % (maxsize - minsize + 1)); };
  for (long i = worker; i < cases; i += nworkers) {
    if (only >= 0 && i != only) continue;
    if (now() - t0 > tlimit) { status = "time"; break; }
    Outcome o = run_one(nullptr, seed, i, sz(i), verbose);
    n++;
    if (o.inconclusive) { inconc++; if (getenv("PBT_INCONC")) fprintf(stderr, "INCONC %s %s\n%s\n", o.kind.c_str(), o.msg.substr(0, 300).c_str(), o.desc.substr(0, 300).c_str()); continue; }
    if (!o.failed) {
      if (o.nontriv) { nt++; keys.insert(o.key); if ((int)samples.size() < 6 && (nt == 1 || (nt & (nt - 1)) == 0)) { std::string L = o.labels; for (auto& ch : L) if (ch == '\n') ch = ' '; samples.push_back(format("case %ld size %d: ", i, sz(i)) + o.desc.substr(0, 1500) + " [" + L.substr(0, 600) + "]"); } }
      std::stringstream ss(o.labels); std::string l; while (std::getline(ss, l)) lab[l]++;
      continue;
    }
    // confirm from the tape before anything else
    auto tape = o.tape;
    bool rep = true;
    std::string k0 = o.kind;
    for (int r = 0; r < 3 && rep; r++) { Outcome q = run_one(&tape, 0, 0, 0); if (!q.failed) rep = false; else k0 = q.kind; }
    if (!rep) { flaky++; fprintf(stderr, "not reproducible: case %ld kind %s\n%s\n", i, o.kind.c_str(), o.msg.c_str()); continue; }
    fprintf(stderr, "case %ld fails: %s; shrinking %zu draws\n", i, k0.c_str(), tape.size());
    auto small = shrink(tape, k0, 60, 1500);
    Outcome q = run_one(&small, 0, 0, 0);
    std::string rp = out + ".replay";
    std::ofstream f(rp);
    f << "# property " << p.id << " seed " << seed << " case " << i << "\n# kind: " << q.kind << "\n";
    { std::stringstream ss(q.msg + "\n" + q.desc); std::string l; while (std::getline(ss, l)) f << "# " << l << "\n"; }
    for (size_t j = 0; j < small.size(); j++) f << small[j] << ((j % 20 == 19) ? "\n" : " ");
    f << "\n";
    failjson = format("\"fail\":{\"case\":%ld,\"kind\":\"%s\",\"replay\":\"%s\",\"draws\":%zu,\"msg\":\"", i, jesc(q.kind).c_str(), jesc(rp).c_str(), small.size()) + jesc(q.msg.substr(0, 1500)) + "\"}";
    status = "fail";
    break;
  }
  std::string js = format("{\"status\":\"%s\",\"cases\":%ld,\"nontrivial\":%ld,\"inconclusive\":%ld,\"flaky\":%ld,\"wall\":%.2f,\"labels\":{", status.c_str(), n, nt, inconc, flaky, now() - t0);
  bool first = true;
  for (auto& kv : lab) { js += format("%s\"%s\":%ld", first ? "" : ",", jesc(kv.first).c_str(), kv.second); first = false; }
  js += "},\"samples\":[";
  for (size_t i = 0; i < samples.size(); i++) js += std::string(i ? "," : "") + "\"" + jesc(samples[i]) + "\"";
  js += "],\"keys\":[";
  first = true;
  for (auto k : keys) { js += format("%s%llu", first ? "" : ",", (unsigned long long)k); first = false; }
  js += "]";
  if (!failjson.empty()) js += "," + failjson;
  js += "}\n";
  if (!out.empty()) { std::ofstream f(out); f << js; } else { printf("%s %ld cases %ld nontrivial %zu distinct %ld inconclusive %ld flaky %.1fs\n%s\n", status.c_str(), n, nt, keys.size(), inconc, flaky, now() - t0, failjson.c_str()); for (auto& kv : lab) printf("  %6ld %s\n", kv.second, kv.first.c_str()); for (auto& x : samples) printf("  S %s\n", x.c_str()); }
  cleanup();
  return status == "fail" ? 1 : 0;
}

}  // namespace pbt
