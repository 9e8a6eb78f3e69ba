// Deterministic simulator core: choices, seams (heap, MPI, process images), supervision.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <algorithm>

#define OMPI_SKIP_MPICXX 1
extern "C" {
#include <mpi.h>
#include "binned.h"
#include "binnedBLAS.h"
#include "reproBLAS.h"
#include "binnedMPI.h"
}

// ---------------------------------------------------------------- randomness
static inline uint64_t mix64(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
static inline uint64_t hash2(uint64_t a, uint64_t b) { return mix64(a ^ mix64(b + 0x51ed270b0a1f2c3dull)); }

// Every decision of a run is one pick() from this source; the recorded list of picks is the
// replay file. 0 is always the simplest choice, so minimisation lowers and removes picks.
struct Ch {
  bool replay = false;
  uint64_t st = 0;
  std::vector<uint32_t> log;
  size_t pos = 0;
  static constexpr size_t MAXLOG = 400000;
  void seed(uint64_t s) { replay = false; st = s; log.clear(); pos = 0; }
  void load(const std::vector<uint32_t>& v) { replay = true; log = v; pos = 0; }
  uint32_t pick(uint32_t n) {  // uniform in [0,n)
    if (n <= 1) return 0;
    uint32_t v;
    if (replay) {
      v = pos < log.size() ? log[pos] : 0;
      if (v >= n) v = n - 1;
      if (pos < log.size()) log[pos] = v;
      pos++;
    } else {
      st += 0x9e3779b97f4a7c15ull;
      v = (uint32_t)(((mix64(st) >> 32) * (uint64_t)n) >> 32);
      log.push_back(v);
      pos++;
    }
    return v;
  }
  bool chance(uint32_t num, uint32_t den) { return pick(den) >= den - num; }  // 0 => false
  int range(int lo, int hi) { return lo + (int)pick((uint32_t)(hi - lo + 1)); }
  uint32_t bits() { return pick(0x7fffffff); }
  // skewed small: 0..n-1, mostly small
  uint32_t small(uint32_t n) {
    uint32_t k = pick(4);
    uint32_t m = n;
    for (uint32_t i = k; i < 3; i++) m = (m + 3) / 4;
    return pick(m ? m : 1);
  }
};

// ---------------------------------------------------------------- violations
struct Violation {
  std::string cls;     // stable class, used by minimisation (e.g. "reduce/state-mismatch")
  std::string detail;  // human readable
};
[[noreturn]] void violate(const std::string& cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
struct HarnessError { std::string what; };

// ---------------------------------------------------------------- run context
struct Stats {
  std::map<std::string, long long> c;
  void add(const char* k, long long v = 1) { c[k] += v; }
};
struct Run {
  Ch ch;
  bool trace = false;
  std::vector<std::string> events;
  uint64_t thash = 0;      // hash of the schedule/fault trace
  uint64_t stateh = 0;     // hash over observed accumulator states
  std::set<std::string> tags;
  bool nontrivial = false;
  double simtime = 0;      // simulated seconds
};
extern Run* R;
extern Stats ST;
extern std::vector<std::unordered_set<uint64_t>*> g_sets;
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
static inline void cnt(const char* k, long long v = 1) { ST.add(k, v); }
void state_seen(uint64_t h);
// A listed known finding suppresses exactly its own signature.
bool known(const std::string& sig);

// ---------------------------------------------------------------- library under test
struct Lib {
  std::string name, path;
  void* h = nullptr;
  struct Seg { uint8_t* a; size_t n; };
  std::vector<Seg> segs;
  std::vector<uint8_t> pristine;
  size_t segbytes = 0;
  size_t tlsmod = 0, tlsbytes = 0;
#define F(f) decltype(&::f) f = nullptr;
#include "funcs.inc"
#undef F
  void open(const std::string& name, const std::string& path);
  void save(std::vector<uint8_t>& out);
  void load(const std::vector<uint8_t>& in);
  void reset() { load(pristine); }
};
extern std::vector<Lib*> LIBS;

// A simulated process: one library variant plus its private copy of that variant's writable data.
struct Proc {
  Lib* lib = nullptr;
  std::vector<uint8_t> data;
  void start(Lib* l) { lib = l; data = l->pristine; }
};
// RAII: run code "inside" process p.
struct In {
  Proc& p;
  explicit In(Proc& p_) : p(p_) { p.lib->load(p.data); }
  ~In() { p.lib->save(p.data); }
};

// ---------------------------------------------------------------- heap seam
struct Arena {
  static constexpr size_t CAP = 512u << 20;
  uint8_t* base = nullptr;
  size_t pos = 0, high = 0;
  struct Blk { size_t off, size; uint8_t live; uint8_t lib; };
  std::vector<Blk> blks;
  uint64_t gseed = 0;
  int gmode = 0;             // what fresh memory contains
  long nlib = 0;             // library allocations so far
  long fail_at = -1;         // index of library allocation to fail (-1: none)
  bool fail_sticky = false;  // all later ones fail too
  long nfail = 0;
  long live_lib = 0;
  size_t live_lib_bytes = 0;
  void init();
  void reset(uint64_t gseed, int gmode);
  void* alloc(size_t n, bool fromlib, size_t align = 16);
  void dealloc(void* p, bool fromlib);
  Blk* find(void* p);
  void check(const char* where);   // red zones intact, freed memory untouched
};
extern Arena A;
template <class T> T* anew(size_t n) { return (T*)A.alloc(n * sizeof(T), false, sizeof(T)); }

// Inputs placed against an unreadable guard page and made read-only.
struct Guards {
  static constexpr int SLOTS = 12;
  static constexpr size_t SZ = 1u << 20;
  uint8_t* base = nullptr;
  int used = 0;
  struct U { uint8_t* p; size_t n; uint64_t h; bool ro; } u[SLOTS];
  void init();
  void reset();
  void* place(const void* src, size_t n, bool atend, bool ro);
  void* fresh(size_t n, bool atend);
};
extern Guards G;

// ---------------------------------------------------------------- MPI seam
struct SimType { uint32_t magic; int kind; long size; bool committed, freed; int creator; long extent; };
struct SimOp { uint32_t magic; MPI_User_function* fn; int commute; bool freed; int creator; };
struct MpiSeam {
  std::vector<SimType*> types;
  std::vector<SimOp*> ops;
  long calls = 0, ncontig = 0, ncommit = 0, nopcreate = 0, naborts = 0;
  long fail_call = -1;     // index of the MPI call to fail
  int fail_code = 0;
  long nfailed = 0;
  int last_abort_code = 0;
  bool abort_returns = false;   // otherwise MPI_Abort unwinds with SimAbort
  std::function<void()> yield;  // preemption inside MPI calls
  void reset();
};
struct SimAbort { int code; };
extern MpiSeam M;
long sim_type_size(MPI_Datatype t);

// ---------------------------------------------------------------- thread seam
// Simulated threads: one holds the baton; yield() may pass it on, wait() must.
struct Sched {
  bool on = false;
  int cur = 0;
  void (*yield)(const char* what, const void* obj) = nullptr;
  void (*wait)(const char* what, const void* obj) = nullptr;
  int atomic = 0;   // inside a seam: accesses to shared data are not preemption points
};
extern Sched S;

// ---------------------------------------------------------------- families
struct Family {
  const char* name;
  void (*run)(const std::string& prof);
};
extern std::vector<Family> FAMILIES;
struct RegFamily { RegFamily(const char* n, void (*f)(const std::string&)) { FAMILIES.push_back({n, f}); } };

// expected-fault guard: run f; returns 0 normally, 1 if it hit a null-page access, 2 if it called abort/exit,
// anything else propagates as a crash.
int run_failstop(const std::function<void()>& f);
extern bool g_in_lib;   // inside library code (crash attribution)
