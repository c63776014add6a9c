// Choice-sequence property-based testing engine: every random decision of a
// case is one draw from a tape; tapes are generated from (seed, index), and a
// failing tape is shrunk and stored as the replay file.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <array>
#include <algorithm>
#include <functional>
#include <stdexcept>

namespace pbt {

struct Shared;  // result block shared between worker and case process

struct Failure { std::string kind, msg; };

struct Src {
  // generation state
  bool replay = false;
  uint64_t st[2] = {0, 0};
  const std::vector<uint64_t>* in = nullptr;
  size_t pos = 0;
  Shared* sh = nullptr;
  std::vector<uint64_t> own;  // used when sh == nullptr (MPI harness)
  uint64_t raw();
  uint64_t draw(uint64_t n);                 // [0,n), n>=1; 0 is "simplest"
  int range(int lo, int hi) { return lo + (int)draw((uint64_t)(hi - lo) + 1); }
  bool chance(int num, int den) { return (int)draw(den) >= den - num; }  // false is simplest
  bool coin() { return draw(2) == 1; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
  template <class T> void shuffle(std::vector<T>& v) {
    for (size_t i = 0; i + 1 < v.size(); i++) std::swap(v[i], v[i + draw(v.size() - i)]);
  }
  std::vector<int> perm(int n) {
    std::vector<int> p(n);
    for (int i = 0; i < n; i++) p[i] = i;
    shuffle(p);
    return p;
  }
  double real(double lo, double hi) { return lo + (hi - lo) * (double)draw(1u << 20) / (double)(1u << 20); }
};

struct Case {
  Src& s;
  int size = 20;  // 1..100
  std::set<std::string> labels;
  bool nontriv = false;
  uint64_t key = 0;
  std::string desc;
  std::string scratch;  // private directory for files (also the cwd)
  bool verbose = false;
  explicit Case(Src& s_) : s(s_) {}
  void label(const std::string& l) { labels.insert(l); }
  void nontrivial() { nontriv = true; }
  void mix(uint64_t x) { key = (key ^ (x + 0x9e3779b97f4a7c15ull + (key << 6) + (key >> 2))) * 0xff51afd7ed558ccdull; }
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  [[noreturn]] void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
};

#define REQ(c, cond, kind, ...) do { if (!(cond)) (c).fail(kind, __VA_ARGS__); } while (0)

// a directed case for a recorded known finding (see known_findings.json)
struct Known { const char* name; void (*run)(Case&); };
// to be supplied by each property
struct Property {
  const char* id;
  const char* rule;      // what counts as non-trivial
  void (*run)(Case&);
  int quick_cases, thorough_cases;  // default totals over all workers
  std::vector<Known> known = {};
  void (*setup)() = nullptr;   // once per process, before any case is forked
};

int main_serial(int argc, char** argv, const Property& p);
int main_mpi(int argc, char** argv, const Property& p);
uint64_t mix64(uint64_t x);
std::string format(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

}  // namespace pbt
