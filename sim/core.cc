#include "core.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

Run* R = nullptr;
Stats ST;
std::vector<Lib*> LIBS;
Arena A;
Guards G;
MpiSeam M;
Sched S;
std::vector<Family> FAMILIES;
bool g_in_lib = false;
static std::unordered_set<uint64_t> g_traces, g_states;
static std::set<std::string> g_known;

void violate(const std::string& cls, const char* fmt, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  throw Violation{cls, b};
}
void ev(const char* fmt, ...) {
  char b[1024];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n < 0) n = 0;
  if (n >= (int)sizeof b) n = sizeof b - 1;
  uint64_t h = R->thash;
  for (int i = 0; i < n; i++) h = (h ^ (uint8_t)b[i]) * 0x100000001b3ull;
  R->thash = mix64(h + n);
  cnt("events");
  if (R->trace) R->events.push_back(std::string(b, n));
}
void note(const char* fmt, ...) {   // shown with a replay, not part of the trace hash
  char b[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (R->trace) R->events.push_back(b);
}
void state_seen(uint64_t h) {
  R->stateh = hash2(R->stateh, h);
  if (g_states.size() < 3000000) g_states.insert(h);
}
bool known(const std::string& sig) {
  if (g_known.count(sig)) {
    ST.c["known." + sig]++;
    return true;
  }
  return false;
}

// ------------------------------------------------------------------ Lib
struct PhCtx { uintptr_t base; std::vector<Lib::Seg> out; bool found; size_t tls; };
static int phcb(struct dl_phdr_info* i, size_t, void* v) {
  PhCtx* c = (PhCtx*)v;
  if (i->dlpi_addr != c->base) return 0;
  c->found = true;
  uintptr_t rel_end = 0;
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) {
      rel_end = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz;
      rel_end = (rel_end + 4095) & ~(uintptr_t)4095;
    }
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto& p = i->dlpi_phdr[k];
    if (p.p_type == PT_TLS) c->tls = p.p_memsz;
    if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) {
      uintptr_t a = i->dlpi_addr + p.p_vaddr, e = a + p.p_memsz;
      if (rel_end > a && rel_end <= e + 4096) a = rel_end;
      if (a < e) c->out.push_back({(uint8_t*)a, e - a});
    }
  }
  return 1;
}
void Lib::open(const std::string& nm, const std::string& p) {
  name = nm;
  path = p;
  h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!h) throw HarnessError{std::string("dlopen: ") + dlerror()};
#define F(f)                                                         \
  f = (decltype(f))dlsym(h, #f);                                     \
  if (!f) throw HarnessError{std::string("missing symbol ") + #f};
#include "funcs.inc"
#undef F
  struct link_map* lm = nullptr;
  dlinfo(h, RTLD_DI_LINKMAP, &lm);
  PhCtx c{(uintptr_t)lm->l_addr, {}, false, 0};
  dl_iterate_phdr(phcb, &c);
  if (!c.found) throw HarnessError{"no program headers for " + p};
  segs = c.out;
  for (auto& s : segs) segbytes += s.n;
  if (c.tls && !dlinfo(h, RTLD_DI_TLS_MODID, &tlsmod) && tlsmod) tlsbytes = c.tls;   // thread-local variables of the one thread a process has
  segbytes += tlsbytes;
  save(pristine);
}
extern "C" void* __tls_get_addr(void*);
static void* tls_block(size_t mod) {
  size_t idx[2] = {mod, 0};
  return __tls_get_addr(idx);
}
void Lib::save(std::vector<uint8_t>& out) {
  out.resize(segbytes);
  size_t o = 0;
  for (auto& s : segs) { memcpy(out.data() + o, s.a, s.n); o += s.n; }
  if (tlsbytes) memcpy(out.data() + o, tls_block(tlsmod), tlsbytes);
}
void Lib::load(const std::vector<uint8_t>& in) {
  size_t o = 0;
  for (auto& s : segs) { memcpy(s.a, in.data() + o, s.n); o += s.n; }
  if (tlsbytes) memcpy(tls_block(tlsmod), in.data() + o, tlsbytes);
}

// ------------------------------------------------------------------ Arena
static constexpr size_t RZ = 64;
static constexpr uint8_t RZB = 0xA7, FREEB = 0xDB;
void Arena::init() {
  base = (uint8_t*)mmap((void*)0x200000000000ull, CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (base == MAP_FAILED) throw HarnessError{"arena mmap"};
}
void Arena::reset(uint64_t gs, int gm) {
  pos = 0;
  blks.clear();
  gseed = gs;
  gmode = gm;
  nlib = 0;
  fail_at = -1;
  fail_sticky = false;
  nfail = 0;
  live_lib = 0;
  live_lib_bytes = 0;
}
static void garbage(uint8_t* p, size_t n, uint64_t seed, int mode) {
  switch (mode) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xFF, n); break;               // NaN
    case 2: { size_t i = 0; uint64_t s = seed; for (; i + 8 <= n; i += 8) { s = mix64(s); memcpy(p + i, &s, 8); } for (; i < n; i++) p[i] = 0x5a; } break;
    default: { // plausible finite doubles/floats
      size_t i = 0; uint64_t s = seed;
      for (; i + 8 <= n; i += 8) { s = mix64(s); uint64_t v = 0x3ff0000000000000ull | (s >> 12); if (mode == 4) v = 0x4100000041000000ull ^ (s & 0x000fffff000fffffull); memcpy(p + i, &v, 8); }
      for (; i < n; i++) p[i] = 0x41;
    }
  }
}
void* Arena::alloc(size_t n, bool fromlib, size_t align) {
  if (fromlib) {
    long k = nlib++;
    cnt("heap.lib_allocs");
    if (fail_at >= 0 && (k == fail_at || (fail_sticky && k > fail_at))) {
      nfail++;
      cnt("fault.alloc_failed");
      return nullptr;
    }
  }
  size_t sz = (n + 7) & ~(size_t)7;
  size_t o = (pos + RZ + 63) & ~(size_t)63;
  // only the alignment malloc promises: alternate 16-byte and 32-byte phases; user data down to element alignment
  uint64_t hh = hash2(gseed, blks.size());
  if (align > 16) o = (o + (hh & 3) * 16 + align - 1) & ~(align - 1);
  else if (align == 16) o += (hh & 3) * 16;
  else o += (hh & 7) * align;
  if (o + n + 2 * RZ > CAP) throw HarnessError{"arena exhausted"};
  memset(base + pos, RZB, o - pos);
  garbage(base + o, n, hh, gmode);
  memset(base + o + n, RZB, sz - n + RZ);
  pos = o + sz + RZ;
  if (pos > high) high = pos;
  blks.push_back({o, n, 1, (uint8_t)fromlib});
  if (fromlib) { live_lib++; live_lib_bytes += n; }
  return base + o;
}
Arena::Blk* Arena::find(void* p) {
  size_t o = (uint8_t*)p - base;
  long lo = 0, hi = (long)blks.size() - 1;
  while (lo <= hi) {
    long m = (lo + hi) / 2;
    if (blks[m].off == o) return &blks[m];
    if (blks[m].off < o) lo = m + 1; else hi = m - 1;
  }
  return nullptr;
}
void Arena::dealloc(void* p, bool fromlib) {
  if (!p) return;
  (void)fromlib;
  if ((uint8_t*)p < base || (uint8_t*)p >= base + CAP) violate("heap/bad-free", "free of a pointer the heap never returned");
  Blk* b = find(p);
  if (!b) violate("heap/bad-free", "free of a pointer inside a block");
  if (!b->live) violate("heap/double-free", "block of %zu bytes freed twice", b->size);
  b->live = 0;
  if (b->lib) { live_lib--; live_lib_bytes -= b->size; }
  memset(base + b->off, FREEB, b->size);
}
void Arena::check(const char* where) {
  size_t prev = 0;
  for (size_t i = 0; i < blks.size(); i++) {
    Blk& b = blks[i];
    for (size_t k = prev; k < b.off; k++)
      if (base[k] != RZB) violate("heap/out-of-bounds-write", "%s: byte before block %zu (%zu bytes) overwritten, at offset -%zu", where, i, b.size, b.off - k);
    size_t end = b.off + b.size, lim = i + 1 < blks.size() ? end + ((8 - (b.size & 7)) & 7) + RZ : pos;
    for (size_t k = end; k < lim; k++)
      if (base[k] != RZB) violate("heap/out-of-bounds-write", "%s: byte after block %zu (%zu bytes) overwritten, at offset +%zu", where, i, b.size, k - end);
    prev = lim;
    if (!b.live)
      for (size_t k = 0; k < b.size; k++)
        if (base[b.off + k] != FREEB) violate("heap/use-after-free-write", "%s: freed block %zu (%zu bytes) written at +%zu", where, i, b.size, k);
  }
}

// ------------------------------------------------------------------ Guards
void Guards::init() {
  size_t tot = SLOTS * (SZ + 8192) + 4096;
  base = (uint8_t*)mmap((void*)0x210000000000ull, tot, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (base == MAP_FAILED) throw HarnessError{"guard mmap"};
}
static uint64_t hbytes(const void* p, size_t n) {
  uint64_t h = 1469598103934665603ull;
  const uint8_t* b = (const uint8_t*)p;
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
  return h;
}
void Guards::reset() {
  if (used) mprotect(base, SLOTS * (SZ + 8192) + 4096, PROT_NONE);
  used = 0;
}
void* Guards::fresh(size_t n, bool atend) {
  if (used >= SLOTS || n > SZ) throw HarnessError{"guard slots"};
  uint8_t* s = base + 4096 + used * (SZ + 8192);
  size_t pages = (n + 4095) & ~(size_t)4095;
  if (!pages) pages = 4096;
  uint8_t* a = atend ? s + SZ - pages : s;
  mprotect(a, pages, PROT_READ | PROT_WRITE);
  memset(a, 0xEE, pages);
  uint8_t* p = atend ? s + SZ - n : s;
  u[used++] = {p, n, 0, false};
  return p;
}
void* Guards::place(const void* src, size_t n, bool atend, bool ro) {
  uint8_t* p = (uint8_t*)fresh(n, atend);
  memcpy(p, src, n);
  if (ro && n) {   // an empty array has no page of its own: it points at the guard
    uint8_t* a = (uint8_t*)((uintptr_t)p & ~(uintptr_t)4095);
    size_t pages = ((p + n) - a + 4095) & ~(size_t)4095;
    mprotect(a, pages ? pages : 4096, PROT_READ);
  }
  return p;
}

// ------------------------------------------------------------------ seams called by the library
static thread_local sigjmp_buf* g_fs = nullptr;
static thread_local int g_fs_kind = 0;
extern "C" {
void* __wrap_malloc(size_t n) { if (S.on) S.yield("malloc", nullptr); return A.alloc(n, true); }
void* __wrap_calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) return nullptr;
  void* p = A.alloc(n, true);
  if (p) memset(p, 0, n);
  return p;
}
void __wrap_free(void* p) { if (S.on) S.yield("free", nullptr); A.dealloc(p, true); }
void* __wrap_realloc(void* p, size_t n) {
  if (!p) return A.alloc(n, true);
  Arena::Blk* b = A.find(p);
  if (!b || !b->live) violate("heap/bad-free", "realloc of a pointer that is not live");
  size_t old = b->size;
  void* q = A.alloc(n, true);
  if (!q) return nullptr;
  memcpy(q, p, old < n ? old : n);
  A.dealloc(p, true);
  return q;
}
void* __wrap_aligned_alloc(size_t a, size_t n) { return A.alloc(n, true, a < 16 ? 16 : a); }
int __wrap_posix_memalign(void** o, size_t a, size_t n) { void* p = A.alloc(n, true, a < 16 ? 16 : a); if (!p) return 12; *o = p; return 0; }
void __wrap_abort(void) {
  if (g_fs) { g_fs_kind = 2; siglongjmp(*g_fs, 2); }
  throw Violation{"crash/abort", "library called abort()"};
}
void __wrap_exit(int c) {
  if (g_fs) { g_fs_kind = 2; siglongjmp(*g_fs, 2); }
  throw Violation{"crash/exit", "library called exit(" + std::to_string(c) + ")"};
}
void __wrap___assert_fail(const char* e, const char* f, unsigned l, const char*) {
  if (g_fs) { g_fs_kind = 2; siglongjmp(*g_fs, 2); }
  throw Violation{"crash/assert", std::string("assertion ") + e + " at " + f + ":" + std::to_string(l)};
}

// ---- thread seam. The state of a lock lives in the lock itself, so it is part of the process image.
struct Quiet { Quiet() { S.atomic++; } ~Quiet() { S.atomic--; } };
static void seam_yield(const char* w, const void* o) { if (S.on) S.yield(w, o); }
static void seam_wait(const char* w, const void* o) {
  if (!S.on) throw Violation{"threads/deadlock", std::string("a single thread waits for ever in ") + w};
  S.wait(w, o);
}
static int rdw(const void* p) { Quiet q; return *(const volatile int*)p; }
static void wrw(void* p, int v) { Quiet q; *(volatile int*)p = v; }
static int lockw(void* m, const char* w) { seam_yield(w, m); while (rdw(m)) seam_wait(w, m); wrw(m, S.cur + 1); return 0; }
static int trylockw(void* m, const char* w) { seam_yield(w, m); if (rdw(m)) return 16; wrw(m, S.cur + 1); return 0; }
static int unlockw(void* m, const char* w) { seam_yield(w, m); wrw(m, 0); seam_yield(w, m); return 0; }
int __wrap_pthread_mutex_init(void* m, const void*) { wrw(m, 0); return 0; }
int __wrap_pthread_mutex_destroy(void*) { return 0; }
int __wrap_pthread_mutex_lock(void* m) { return lockw(m, "pthread_mutex_lock"); }
int __wrap_pthread_mutex_trylock(void* m) { return trylockw(m, "pthread_mutex_trylock"); }
int __wrap_pthread_mutex_unlock(void* m) { return unlockw(m, "pthread_mutex_unlock"); }
int __wrap_mtx_init(void* m, int) { wrw(m, 0); return 0; }
int __wrap_mtx_lock(void* m) { return lockw(m, "mtx_lock"); }
int __wrap_mtx_unlock(void* m) { return unlockw(m, "mtx_unlock"); }
int __wrap_pthread_spin_init(void* m, int) { wrw(m, 0); return 0; }
int __wrap_pthread_spin_lock(void* m) { return lockw(m, "pthread_spin_lock"); }
int __wrap_pthread_spin_unlock(void* m) { return unlockw(m, "pthread_spin_unlock"); }
int __wrap_pthread_rwlock_rdlock(void* m) { seam_yield("rdlock", m); while (rdw(m) < 0) seam_wait("rdlock", m); wrw(m, rdw(m) + 1); return 0; }
int __wrap_pthread_rwlock_wrlock(void* m) { seam_yield("wrlock", m); while (rdw(m)) seam_wait("wrlock", m); wrw(m, -1); return 0; }
int __wrap_pthread_rwlock_unlock(void* m) { seam_yield("rwunlock", m); int v = rdw(m); wrw(m, v < 0 ? 0 : v - 1); return 0; }
static int oncew(void* c, void (*fn)(void)) {
  seam_yield("once", c);
  while (rdw(c) == 1) seam_wait("once", c);
  if (rdw(c) == 2) return 0;
  wrw(c, 1);
  fn();
  wrw(c, 2);
  return 0;
}
int __wrap_pthread_once(void* c, void (*fn)(void)) { return oncew(c, fn); }
void __wrap_call_once(void* c, void (*fn)(void)) { oncew(c, fn); }
int __wrap_sched_yield(void) { seam_yield("sched_yield", nullptr); return 0; }

// ---- MPI seam. Opaque handles point at simulator objects.
struct ompi_predefined_datatype_t { SimType t; char pad[512]; };
struct ompi_predefined_communicator_t { char pad[1024]; };
struct ompi_predefined_op_t { char pad[512]; };
#define PT(sym, sz) ompi_predefined_datatype_t sym = {{0x7e7e7e7eu, 1, sz, true, false, -1, sz}, {0}};
PT(ompi_mpi_double, 8) PT(ompi_mpi_float, 4) PT(ompi_mpi_int, 4) PT(ompi_mpi_byte, 1) PT(ompi_mpi_char, 1)
PT(ompi_mpi_datatype_null, 0) PT(ompi_mpi_c_double_complex, 16) PT(ompi_mpi_c_float_complex, 8) PT(ompi_mpi_c_complex, 8)
PT(ompi_mpi_long, 8) PT(ompi_mpi_cplex, 8) PT(ompi_mpi_dblcplex, 16) PT(ompi_mpi_2dblprec, 16) PT(ompi_mpi_2real, 8)
PT(ompi_mpi_dblprec, 8) PT(ompi_mpi_real, 4)
ompi_predefined_communicator_t ompi_mpi_comm_world, ompi_mpi_comm_null, ompi_mpi_comm_self;
ompi_predefined_op_t ompi_mpi_op_null, ompi_mpi_op_sum, ompi_mpi_op_max;
}
void MpiSeam::reset() {
  for (auto* t : types) delete t;
  for (auto* o : ops) delete o;
  types.clear();
  ops.clear();
  calls = ncontig = ncommit = nopcreate = naborts = nfailed = 0;
  fail_call = -1;
  abort_returns = false;
  yield = nullptr;
}
static int mpi_fault(const char* what, std::initializer_list<int> codes) {
  long k = M.calls++;
  if (M.yield) M.yield();
  if (k == M.fail_call) {
    M.nfailed++;
    int idx = M.fail_code % (int)codes.size();
    int c = *(codes.begin() + idx);
    cnt("fault.mpi_call_failed");
    ev("mpi: call %ld %s fails with code %d", k, what, c);
    return c;
  }
  return MPI_SUCCESS;
}
static SimType* as_type(MPI_Datatype t) { return (SimType*)t; }
long sim_type_size(MPI_Datatype t) { return as_type(t)->size; }
extern "C" {
int MPI_Type_contiguous(int count, MPI_Datatype old, MPI_Datatype* nt) {
  int f = mpi_fault("MPI_Type_contiguous", {MPI_ERR_TYPE, MPI_ERR_COUNT, MPI_ERR_INTERN, MPI_ERR_OTHER});
  if (f) { *nt = (MPI_Datatype)(void*)(uintptr_t)0xbadbad00u; return f; }
  M.ncontig++;
  SimType* o = as_type(old);
  if (!o || o->magic != 0x7e7e7e7eu) violate("mpi/bad-handle", "MPI_Type_contiguous on an invalid base datatype");
  if (count < 0) return MPI_ERR_COUNT;
  SimType* t = new SimType{0x7e7e7e7eu, 2, o->size * count, false, false, 0, o->extent * count};
  M.types.push_back(t);
  *nt = (MPI_Datatype)t;
  if (M.yield) M.yield();
  return MPI_SUCCESS;
}
int MPI_Type_vector(int count, int bl, int, MPI_Datatype old, MPI_Datatype* nt) { return MPI_Type_contiguous(count * bl, old, nt); }
int MPI_Type_dup(MPI_Datatype old, MPI_Datatype* nt) { return MPI_Type_contiguous(1, old, nt); }
int MPI_Type_create_struct(int c, const int* bl, const MPI_Aint*, const MPI_Datatype* ty, MPI_Datatype* nt) {
  long s = 0;
  for (int i = 0; i < c; i++) s += bl[i] * as_type(ty[i])->size;
  int f = mpi_fault("MPI_Type_create_struct", {MPI_ERR_TYPE, MPI_ERR_COUNT, MPI_ERR_INTERN, MPI_ERR_OTHER});
  if (f) return f;
  M.ncontig++;
  SimType* t = new SimType{0x7e7e7e7eu, 2, s, false, false, 0, s};
  M.types.push_back(t);
  *nt = (MPI_Datatype)t;
  return MPI_SUCCESS;
}
int MPI_Type_commit(MPI_Datatype* t) {
  int f = mpi_fault("MPI_Type_commit", {MPI_ERR_TYPE, MPI_ERR_INTERN, MPI_ERR_OTHER});
  if (f) return f;
  M.ncommit++;
  SimType* s = as_type(*t);
  if (!s || (uintptr_t)s == 0xbadbad00u || s->magic != 0x7e7e7e7eu || s->freed) violate("mpi/bad-handle", "MPI_Type_commit on an invalid datatype");
  if (M.yield) M.yield();
  s->committed = true;
  return MPI_SUCCESS;
}
int MPI_Type_free(MPI_Datatype* t) {
  SimType* s = as_type(*t);
  if (!s || s->magic != 0x7e7e7e7eu || s->freed) violate("mpi/bad-handle", "MPI_Type_free on an invalid datatype");
  s->freed = true;
  *t = MPI_DATATYPE_NULL;
  return MPI_SUCCESS;
}
int MPI_Type_size(MPI_Datatype t, int* s) { *s = (int)as_type(t)->size; return MPI_SUCCESS; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint* lb, MPI_Aint* ex) { *lb = 0; *ex = as_type(t)->extent; return MPI_SUCCESS; }
int MPI_Op_create(MPI_User_function* fn, int commute, MPI_Op* op) {
  int f = mpi_fault("MPI_Op_create", {MPI_ERR_INTERN, MPI_ERR_OTHER, MPI_ERR_ARG});
  if (f) { *op = (MPI_Op)(void*)(uintptr_t)0xbadbad00u; return f; }
  M.nopcreate++;
  SimOp* o = new SimOp{0x0b0b0b0bu, fn, commute, false, 0};
  M.ops.push_back(o);
  if (M.yield) M.yield();
  *op = (MPI_Op)o;
  if (M.yield) M.yield();
  return MPI_SUCCESS;
}
int MPI_Op_free(MPI_Op* op) {
  SimOp* o = (SimOp*)*op;
  if (!o || o->magic != 0x0b0b0b0bu || o->freed) violate("mpi/bad-handle", "MPI_Op_free on an invalid op");
  o->freed = true;
  return MPI_SUCCESS;
}
int MPI_Op_commutative(MPI_Op op, int* c) { *c = ((SimOp*)op)->commute; return MPI_SUCCESS; }
int MPI_Abort(MPI_Comm, int code) {
  M.naborts++;
  M.last_abort_code = code;
  cnt("mpi.aborts");
  ev("mpi: MPI_Abort(%d)", code);
  if (M.abort_returns) return MPI_SUCCESS;
  throw SimAbort{code};
}
int MPI_Initialized(int* f) { *f = 1; return MPI_SUCCESS; }
int MPI_Finalized(int* f) { *f = 0; return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm, int* r) { *r = 0; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm, int* r) { *r = 1; return MPI_SUCCESS; }
int MPI_Error_string(int, char* s, int* n) { strcpy(s, "sim"); *n = 3; return MPI_SUCCESS; }
int MPI_Error_class(int c, int* k) { *k = c; return MPI_SUCCESS; }
int MPI_Query_thread(int* p) { *p = 3; return MPI_SUCCESS; }
int MPI_Comm_create_keyval(MPI_Comm_copy_attr_function*, MPI_Comm_delete_attr_function*, int* k, void*) { *k = 1; return MPI_SUCCESS; }
int MPI_Comm_set_attr(MPI_Comm, int, void*) { return MPI_SUCCESS; }
}

// ------------------------------------------------------------------ fail-stop guard
extern bool (*g_segv_hook)(siginfo_t*, void*);
bool (*g_segv_hook)(siginfo_t*, void*) = nullptr;
static void on_segv(int sig, siginfo_t* si, void* uc) {
  if (g_segv_hook && g_segv_hook(si, uc)) return;
  uintptr_t a = (uintptr_t)si->si_addr;
  if (g_fs && sig == SIGSEGV && a < (16u << 20)) {  // null-page dereference: fail-stop
    g_fs_kind = 1;
    siglongjmp(*g_fs, 1);
  }
  signal(sig, SIG_DFL);
  raise(sig);
}
int run_failstop(const std::function<void()>& f) {
  sigjmp_buf jb;
  int k = sigsetjmp(jb, 1);
  if (k == 0) {
    g_fs = &jb;
    f();
    g_fs = nullptr;
    return 0;
  }
  g_fs = nullptr;
  return g_fs_kind;
}

// ------------------------------------------------------------------ supervision
struct Shared {
  volatile long cur;   // run index in progress
  volatile long done;  // runs completed
};
struct Opts {
  std::string family, prof, out, replay;
  uint64_t seed = 1;
  long runs = 1000;
  double cap = 60;
  int workers = 8;
  long from = 0;
  bool det = false;
  bool cont = false;
} O;

static std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
static void (*g_family_run)(const std::string&) = nullptr;

struct Outcome {
  std::string cls, detail;  // empty cls: held
  uint64_t thash = 0, stateh = 0;
};
static void begin_run(Run& r) {
  R = &r;
  r.thash = 1;
  r.stateh = 1;
  r.events.clear();
  r.tags.clear();
  r.nontrivial = false;
  r.simtime = 0;
  G.reset();
  M.reset();
  S = Sched{};
  for (auto* l : LIBS) l->reset();
  A.reset(12345, 0);
}
static void set_timer(int s) {
  struct itimerval it = {{0, 0}, {s, 0}};
  setitimer(ITIMER_PROF, &it, nullptr);
}
static Outcome exec_run(Run& r) {
  Outcome o;
  begin_run(r);
  set_timer(40);
  try {
    g_family_run(O.prof);
  } catch (Violation& v) {
    o.cls = v.cls;
    o.detail = v.detail;
  } catch (SimAbort& a) {
    o.cls = "mpi/unexpected-abort";
    o.detail = "MPI_Abort called with no injected failure, code " + std::to_string(a.code);
  }
  set_timer(0);
  o.thash = r.thash;
  o.stateh = r.stateh;
  return o;
}
static uint64_t run_seed(long i) { return hash2(hash2(O.seed, 0x5eed), (uint64_t)i); }

static void child_setup() {
  int fd = open("/dev/null", O_WRONLY);
  dup2(fd, 2);
  static uint8_t alt[1 << 16];
  (void)alt;
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_segv;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGSEGV, &sa, nullptr);
  sigaction(SIGBUS, &sa, nullptr);
}

// worker: result file protocol is line based
static int worker(int w, Shared* sh, const std::string& base) {
  child_setup();
  FILE* f = fopen((base + ".w" + std::to_string(w)).c_str(), "w");
  struct timespec t0, t;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  Run r;
  long done = 0, nontriv = 0;
  double simt = 0;
  int rc = 0;
  std::map<std::string, long> tags;
  try {
    for (long i = O.from + w; i < O.from + O.runs; i += O.workers) {
      sh->cur = i;
      clock_gettime(CLOCK_MONOTONIC, &t);
      if ((t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec) > O.cap) { fprintf(f, "CAPPED 1\n"); break; }
      r.ch.seed(run_seed(i));
      r.trace = (done == 0 && w < 3);
      Outcome o = exec_run(r);
      done++;
      sh->done = done;
      if (g_traces.size() < 3000000) g_traces.insert(o.thash);
      if (r.nontrivial) nontriv++;
      simt += r.simtime;
      for (auto& s : r.tags) tags[s]++;
      if (O.det) fprintf(f, "H %ld %016llx %016llx\n", i, (unsigned long long)o.thash, (unsigned long long)o.stateh);
      if (r.trace) {
        fprintf(f, "SAMPLE {\"run\": %ld, \"events\": [", i);
        size_t n = 0;
        for (auto& e : r.events) { if (n >= 60) break; fprintf(f, "%s\"%s\"", n++ ? ", " : "", jesc(e).c_str()); }
        fprintf(f, "]}\n");
      }
      if (!o.cls.empty()) {
        fprintf(f, "VIOL %ld\t%s\t%s\n", i, jesc(o.cls).c_str(), jesc(o.detail).c_str());
        fflush(f);
        rc = 10;
        if (!O.cont) break;
      }
    }
  } catch (HarnessError& e) {
    fprintf(f, "HARNESS run %ld %s\n", (long)sh->cur, e.what.c_str());
    rc = 11;
  } catch (std::exception& e) {
    fprintf(f, "HARNESS run %ld exception %s\n", (long)sh->cur, e.what());
    rc = 11;
  }
  fprintf(f, "DONE %ld %ld %.17g\n", done, nontriv, simt);
  for (auto& k : ST.c) fprintf(f, "C %s %lld\n", k.first.c_str(), k.second);
  for (auto& k : tags) fprintf(f, "T %s %ld\n", k.first.c_str(), k.second);
  fclose(f);
  FILE* g = fopen((base + ".h" + std::to_string(w)).c_str(), "wb");
  uint64_t n = g_traces.size();
  fwrite(&n, 8, 1, g);
  for (uint64_t h : g_traces) fwrite(&h, 8, 1, g);
  n = g_states.size();
  fwrite(&n, 8, 1, g);
  for (uint64_t h : g_states) fwrite(&h, 8, 1, g);
  fclose(g);
  return rc;
}

// Run one choice list in a forked child. Returns class ("" if it held), effective choices.
struct Probe { std::string cls, detail; std::vector<uint32_t> used; std::vector<std::string> events; uint64_t th = 0, sh = 0; bool harness = false; };
static Probe probe(const std::vector<uint32_t>* choices, uint64_t seed, bool trace) {
  int fd[2];
  if (pipe(fd)) throw HarnessError{"pipe"};
  pid_t p = fork();
  if (p == 0) {
    close(fd[0]);
    child_setup();
    Run* r = new Run;
    r->trace = trace;
    if (choices) r->ch.load(*choices); else r->ch.seed(seed);
    // on a crash the parent needs the choices so far: keep them in a shared page
    Outcome o;
    std::string harness;
    try { o = exec_run(*r); } catch (HarnessError& e) { harness = e.what; } catch (std::exception& e) { harness = e.what(); }
    FILE* f = fdopen(fd[1], "w");
    fprintf(f, "%s\n%s\n%s\n%llx %llx\n", harness.c_str(), jesc(o.cls).c_str(), jesc(o.detail).c_str(), (unsigned long long)o.thash, (unsigned long long)o.stateh);
    size_t n = std::min(r->ch.pos, r->ch.log.size());
    fprintf(f, "%zu", n);
    for (size_t i = 0; i < n; i++) fprintf(f, " %u", r->ch.log[i]);
    fprintf(f, "\n%zu\n", r->events.size());
    for (auto& e : r->events) fprintf(f, "%s\n", jesc(e).c_str());
    fflush(f);
    _exit(0);
  }
  close(fd[1]);
  std::string s;
  char b[65536];
  ssize_t k;
  while ((k = read(fd[0], b, sizeof b)) > 0) s.append(b, k);
  close(fd[0]);
  int st;
  waitpid(p, &st, 0);
  Probe pr;
  if (WIFSIGNALED(st)) {
    int sg = WTERMSIG(st);
    pr.cls = sg == SIGPROF ? "crash/no-progress" : std::string("crash/signal-") + std::to_string(sg);
    pr.detail = sg == SIGPROF ? "run did not finish within its CPU budget" : std::string("library code died: ") + strsignal(sg);
    if (choices) pr.used = *choices;
    return pr;
  }
  size_t at = 0;
  auto line = [&]() { size_t e = s.find('\n', at); std::string l = s.substr(at, e - at); at = e == std::string::npos ? s.size() : e + 1; return l; };
  std::string har = line();
  if (!har.empty()) { pr.harness = true; pr.detail = har; }
  pr.cls = line();
  if (!har.empty()) pr.detail = har, line(); else pr.detail = line();
  { std::string l = line(); unsigned long long a = 0, c = 0; sscanf(l.c_str(), "%llx %llx", &a, &c); pr.th = a; pr.sh = c; }
  { std::string l = line(); char* q = &l[0]; size_t n = strtoul(q, &q, 10); for (size_t i = 0; i < n; i++) pr.used.push_back(strtoul(q, &q, 10)); }
  { std::string l = line(); size_t n = strtoul(l.c_str(), nullptr, 10); for (size_t i = 0; i < n; i++) pr.events.push_back(line()); }
  return pr;
}
// A crashing seed run: recover its choice list by running it with the choices mirrored to a shared page.
static std::vector<uint32_t> choices_of_crashing_seed(uint64_t seed) {
  size_t cap = Ch::MAXLOG * 4 + 16;
  uint32_t* m = (uint32_t*)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  // The seeded picks do not depend on anything but n, so mirror by re-running with a reporting signal handler.
  pid_t p = fork();
  if (p == 0) {
    static Run* r = new Run;
    static uint32_t* mm = m;
    child_setup();
    auto dump = [](int sg) {
      size_t n = std::min(r->ch.log.size(), (size_t)Ch::MAXLOG);
      mm[0] = (uint32_t)n;
      memcpy(mm + 1, r->ch.log.data(), n * 4);
      (void)sg;
      _exit(0);
    };
    for (int sg : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF}) {
      struct sigaction sa;
      memset(&sa, 0, sizeof sa);
      sa.sa_handler = +dump;
      sa.sa_flags = SA_NODEFER;
      if (sg == SIGSEGV || sg == SIGBUS) continue;
      sigaction(sg, &sa, nullptr);
    }
    static bool (*prev)(siginfo_t*, void*) = nullptr;
    (void)prev;
    // crash path of on_segv re-raises with default action; route it through dump instead
    static void (*dumpf)(int) = +dump;
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sa.sa_sigaction = [](int sg, siginfo_t* si, void* uc) {
      if (g_segv_hook && g_segv_hook(si, uc)) return;
      if (g_fs && sg == SIGSEGV && (uintptr_t)si->si_addr < (16u << 20)) { g_fs_kind = 1; siglongjmp(*g_fs, 1); }
      dumpf(sg);
    };
    sigaction(SIGSEGV, &sa, nullptr);
    sigaction(SIGBUS, &sa, nullptr);
    r->ch.seed(seed);
    try { exec_run(*r); } catch (...) {}
    dump(0);
  }
  int st;
  waitpid(p, &st, 0);
  std::vector<uint32_t> v(m + 1, m + 1 + m[0]);
  munmap(m, cap);
  return v;
}

static std::vector<uint32_t> minimise(std::vector<uint32_t> c, const std::string& cls, double budget, long& tries) {
  struct timespec t0, t;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  auto over = [&]() { clock_gettime(CLOCK_MONOTONIC, &t); return (t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec) > budget; };
  auto attempt = [&](const std::vector<uint32_t>& v) -> bool {
    tries++;
    Probe p = probe(&v, 0, false);
    if (p.cls != cls || p.harness) return false;
    std::vector<uint32_t> u = p.used;
    while (!u.empty() && u.back() == 0) u.pop_back();
    // shortlex order
    bool better = u.size() < c.size();
    if (u.size() == c.size()) better = u < c;
    if (!better) return false;
    c = u;
    return true;
  };
  { std::vector<uint32_t> v = c; while (!v.empty() && v.back() == 0) v.pop_back(); c = v; }
  bool progress = true;
  while (progress && !over()) {
    progress = false;
    // truncate
    for (size_t keep = c.size() / 2; keep < c.size() && !over();) {
      std::vector<uint32_t> v(c.begin(), c.begin() + keep);
      if (attempt(v)) { progress = true; keep = c.size() / 2; }
      else keep = keep + std::max<size_t>(1, (c.size() - keep) / 2);
      if (keep >= c.size()) break;
    }
    // delete chunks
    for (size_t len = std::max<size_t>(1, c.size() / 2); len >= 1 && !over(); len /= 2) {
      for (size_t i = 0; i + len <= c.size() && !over();) {
        std::vector<uint32_t> v = c;
        v.erase(v.begin() + i, v.begin() + i + len);
        if (attempt(v)) progress = true;
        else i += len;
      }
      if (len == 1) break;
    }
    // zero chunks
    for (size_t len : {16, 4, 1}) {
      for (size_t i = 0; i + len <= c.size() && !over(); i += len) {
        bool any = false;
        std::vector<uint32_t> v = c;
        for (size_t k = i; k < i + len; k++) { any |= v[k] != 0; v[k] = 0; }
        if (any && attempt(v)) progress = true;
      }
    }
    // lower values
    for (size_t i = 0; i < c.size() && !over(); i++) {
      uint32_t lo = 0;
      while (i < c.size() && lo < c[i] && !over()) {
        uint32_t mid = lo + (c[i] - lo) / 2;
        std::vector<uint32_t> v = c;
        v[i] = mid;
        if (attempt(v)) progress = true;
        else lo = mid + 1;
      }
    }
  }
  return c;
}

static int do_replay(const std::string& file) {
  FILE* f = fopen(file.c_str(), "r");
  if (!f) return 2;
  std::vector<uint32_t> c;
  unsigned x;
  while (fscanf(f, "%u", &x) == 1) c.push_back(x);
  fclose(f);
  Probe p = probe(&c, 0, true);
  printf("{\"class\": \"%s\", \"detail\": \"%s\", \"harness\": %s, \"trace_hash\": \"%016llx\", \"events\": [", p.cls.c_str(), p.detail.c_str(), p.harness ? "true" : "false", (unsigned long long)p.th);
  for (size_t i = 0; i < p.events.size(); i++) printf("%s\"%s\"", i ? ", " : "", p.events[i].c_str());
  printf("]}\n");
  return 0;
}

int main(int argc, char** argv) {
  std::vector<std::pair<std::string, std::string>> libs;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() -> std::string { if (i + 1 >= argc) exit(2); return argv[++i]; };
    if (a == "--family") O.family = nx();
    else if (a == "--profile") O.prof = nx();
    else if (a == "--seed") O.seed = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--runs") O.runs = atol(nx().c_str());
    else if (a == "--from") O.from = atol(nx().c_str());
    else if (a == "--cap") O.cap = atof(nx().c_str());
    else if (a == "--workers") O.workers = atoi(nx().c_str());
    else if (a == "--out") O.out = nx();
    else if (a == "--replay") O.replay = nx();
    else if (a == "--det") O.det = true;
    else if (a == "--continue") O.cont = true;
    else if (a == "--known") g_known.insert(nx());
    else if (a == "--lib") { std::string v = nx(); size_t e = v.find('='); libs.push_back({v.substr(0, e), v.substr(e + 1)}); }
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  try {
    for (auto& f : FAMILIES) if (O.family == f.name) g_family_run = f.run;
    if (!g_family_run) throw HarnessError{"no such family " + O.family};
    A.init();
    G.init();
    for (auto& l : libs) { Lib* L = new Lib; L->open(l.first, l.second); LIBS.push_back(L); }
    if (LIBS.empty()) throw HarnessError{"no library"};
    if (!O.replay.empty()) return do_replay(O.replay);

    Shared* sh = (Shared*)mmap(nullptr, 4096 * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pids(O.workers);
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    for (int w = 0; w < O.workers; w++) {
      sh[w].cur = -1;
      pids[w] = fork();
      if (pids[w] == 0) _exit(worker(w, &sh[w], O.out));
    }
    struct Found { long idx; std::string cls, detail; bool crash; };
    std::vector<Found> found;
    std::string harness;
    bool capped = false;
    for (int w = 0; w < O.workers; w++) {
      int st;
      waitpid(pids[w], &st, 0);
      if (WIFSIGNALED(st)) {
        int sg = WTERMSIG(st);
        if (sg == SIGKILL || sg == SIGTERM || sg == SIGINT) { harness = "worker killed by signal " + std::to_string(sg); continue; }
        found.push_back({sh[w].cur, sg == SIGPROF ? "crash/no-progress" : "crash/signal-" + std::to_string(sg), "", true});
      } else if (WEXITSTATUS(st) == 11) harness = "worker reported a harness error";
    }
    clock_gettime(CLOCK_MONOTONIC, &t1);
    double wall = (t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec);
    long done = 0, nontriv = 0;
    double simt = 0;
    std::map<std::string, long long> C, T;
    std::vector<std::string> samples, hashes;
    for (int w = 0; w < O.workers; w++) {
      FILE* f = fopen((O.out + ".w" + std::to_string(w)).c_str(), "r");
      if (!f) continue;
      static char b[1 << 20];
      while (fgets(b, sizeof b, f)) {
        size_t n = strlen(b);
        if (n && b[n - 1] == '\n') b[--n] = 0;
        if (!strncmp(b, "DONE ", 5)) { long a, c; double s; sscanf(b + 5, "%ld %ld %lf", &a, &c, &s); done += a; nontriv += c; simt += s; }
        else if (!strncmp(b, "C ", 2)) { char k[256]; long long v; if (sscanf(b + 2, "%255s %lld", k, &v) == 2) C[k] += v; }
        else if (!strncmp(b, "T ", 2)) { char k[256]; long long v; if (sscanf(b + 2, "%255s %lld", k, &v) == 2) T[k] += v; }
        else if (!strncmp(b, "SAMPLE ", 7)) samples.push_back(b + 7);
        else if (!strncmp(b, "H ", 2)) hashes.push_back(b + 2);
        else if (!strncmp(b, "CAPPED", 6)) capped = true;
        else if (!strncmp(b, "HARNESS", 7)) harness = b;
        else if (!strncmp(b, "VIOL ", 5)) {
          char* t1 = strchr(b, '\t');
          char* t2 = t1 ? strchr(t1 + 1, '\t') : nullptr;
          if (t2) { *t1 = 0; *t2 = 0; found.push_back({atol(b + 5), t1 + 1, t2 + 1, false}); }
        }
      }
      fclose(f);
      unlink((O.out + ".w" + std::to_string(w)).c_str());
    }
    std::unordered_set<uint64_t> tr, ss;
    for (int w = 0; w < O.workers; w++) {
      FILE* g = fopen((O.out + ".h" + std::to_string(w)).c_str(), "rb");
      if (!g) continue;
      for (auto* S : {&tr, &ss}) {
        uint64_t n = 0, h;
        if (fread(&n, 8, 1, g) != 1) break;
        for (uint64_t i = 0; i < n; i++) { if (fread(&h, 8, 1, g) != 1) break; S->insert(h); }
      }
      fclose(g);
      unlink((O.out + ".h" + std::to_string(w)).c_str());
    }
    FILE* f = fopen(O.out.c_str(), "w");
    fprintf(f, "{\"runs\": %ld, \"nontrivial\": %ld, \"simtime\": %.17g, \"wall\": %.3f, \"distinct_traces\": %zu, \"distinct_states\": %zu, \"capped\": %s,\n", done, nontriv, simt, wall, tr.size(), ss.size(), capped ? "true" : "false");
    fprintf(f, " \"harness\": \"%s\",\n \"counts\": {", jesc(harness).c_str());
    bool first = true;
    for (auto& k : C) { fprintf(f, "%s\"%s\": %lld", first ? "" : ", ", k.first.c_str(), k.second); first = false; }
    fprintf(f, "},\n \"tags\": {");
    first = true;
    for (auto& k : T) { fprintf(f, "%s\"%s\": %lld", first ? "" : ", ", k.first.c_str(), k.second); first = false; }
    fprintf(f, "},\n \"samples\": [");
    for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? ",\n  " : "", samples[i].c_str());
    fprintf(f, "],\n \"hashes\": [");
    for (size_t i = 0; i < hashes.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", hashes[i].c_str());
    fprintf(f, "]");
    if (O.cont) {
      std::map<std::string, std::pair<long, std::string>> byc;
      for (auto& v : found) { auto& e = byc[v.cls]; if (!e.first++) e.second = std::to_string(v.idx) + ": " + v.detail; }
      for (auto& b : byc) printf("%6ld x %s   e.g. run %s\n", b.second.first, b.first.c_str(), b.second.second.c_str());
    }
    int rc = 0;
    if (!found.empty()) {
      std::sort(found.begin(), found.end(), [](const Found& a, const Found& b) { return a.idx < b.idx; });
      Found v = found[0];
      std::vector<uint32_t> c;
      Probe p0;
      if (v.crash) {
        c = choices_of_crashing_seed(run_seed(v.idx));
        p0 = probe(&c, 0, false);
        if (p0.cls.compare(0, 6, "crash/") != 0 || p0.cls.empty()) { p0.detail = "seed run crashed; "; p0.cls = v.cls; }
      } else {
        p0 = probe(nullptr, run_seed(v.idx), false);
        c = p0.used;
      }
      std::string cls = p0.cls.empty() ? v.cls : p0.cls;
      long tries = 0;
      size_t orig = c.size();
      std::vector<uint32_t> mc = minimise(c, cls, 25, tries);
      Probe pm = probe(&mc, 0, true);
      bool rep = pm.cls == cls;
      if (!rep) { mc = c; pm = probe(&mc, 0, true); }
      fprintf(f, ",\n \"violation\": {\"class\": \"%s\", \"detail\": \"%s\", \"run\": %ld, \"run_seed\": \"%016llx\", \"original_choices\": %zu, \"minimised_choices\": %zu, \"probes\": %ld, \"reproduced\": %s, \"choices\": [",
              cls.c_str(), (pm.detail.empty() ? v.detail : pm.detail).c_str(), v.idx, (unsigned long long)run_seed(v.idx), orig, mc.size(), tries, pm.cls == cls ? "true" : "false");
      for (size_t i = 0; i < mc.size(); i++) fprintf(f, "%s%u", i ? "," : "", mc[i]);
      fprintf(f, "], \"events\": [");
      for (size_t i = 0; i < pm.events.size(); i++) fprintf(f, "%s\"%s\"", i ? ", " : "", pm.events[i].c_str());
      fprintf(f, "]}");
      rc = 10;
    }
    fprintf(f, "}\n");
    fclose(f);
    if (rc == 0 && !harness.empty()) { fprintf(stderr, "%s\n", harness.c_str()); return 2; }
    return rc;
  } catch (HarnessError& e) {
    fprintf(stderr, "harness error: %s\n", e.what.c_str());
    return 2;
  }
}
