// Threads sharing one process. One run draws two to four threads, each with its own calls of public routines (first
// calls of the process among them), and runs them under a simulated scheduler: a single baton decides who executes,
// and it can change hands before every single access to the library's shared writable data (its pages are unreadable;
// each access faults, is scheduled, and is then executed alone by single-stepping), at every lock operation, MPI call
// and allocation. Every thread must get, bit for bit, what it gets when it runs alone.
#include "mem.h"
#include "handles.h"
#include <semaphore.h>
#include <signal.h>
#include <pthread.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
extern bool (*g_segv_hook)(siginfo_t*, void*);

namespace {
struct Task {
  std::string name;
  std::function<void(Lib&)> body;          // on this task's own buffers
  std::function<void(std::string&)> out;   // what it left, as bytes
  std::function<void()> reset;
};
struct Thr {
  pthread_t th;
  sem_t go;
  std::vector<int> prog;
  std::vector<std::string> res;
  bool done = false, started = false;
  bool waiting = false;
  std::string vcls, vdet;
};
Lib* TL;                       // build under test
std::vector<Task> tasks;
Thr thr[4];
int NT;
sem_t main_go;
bool guarding = false, stepping = false;
long naccess, since, limit_access;
int policy, den;
std::vector<long> points;      // access numbers at which the baton is passed on
long nswitch, nforced;
bool failed;
int waits;

void prot(int p) {
  for (auto& s : TL->segs) {
    uintptr_t a = (uintptr_t)s.a & ~(uintptr_t)4095, e = ((uintptr_t)s.a + s.n + 4095) & ~(uintptr_t)4095;
    mprotect((void*)a, e - a, p);
  }
}
long off_in(uintptr_t a) {
  long o = 0;
  for (auto& s : TL->segs) {
    uintptr_t b = (uintptr_t)s.a;
    if (a >= (b & ~(uintptr_t)4095) && a < ((b + s.n + 4095) & ~(uintptr_t)4095)) return o + (long)(a - b);
    o += s.n;
  }
  return -1;
}
void semwait(sem_t* s) { while (sem_wait(s)) {} }
// pass the baton to thread j and sleep until it comes back
void give(int j) {
  int me = S.cur;
  if (j == me) return;
  nswitch++;
  since = 0;
  S.cur = j;
  sem_post(&thr[j].go);
  semwait(&thr[me].go);
}
int other() {   // a runnable thread other than the current one
  int c[4], n = 0;
  for (int i = 1; i < NT; i++) { int j = (S.cur + i) % NT; if (!thr[j].done) c[n++] = j; }
  return n ? c[R->ch.pick(n)] : -1;
}
void sched_point(const char* what, long off, bool must) {
  if (!S.on || S.atomic) return;
  long k = naccess++;
  bool sw = must;
  if (!sw) {
    if (policy == 0) sw = R->ch.pick(den) == (uint32_t)den - 1;
    else for (long p : points) if (p == k) sw = true;
    if (NT > 1 && ++since > 3000 && !sw) { since = 0; sw = true; nforced++; }   // nobody spins for ever
  }
  if (naccess > 600000) violate("threads/no-progress", "the threads made %ld accesses to shared data without finishing", naccess);
  if (!sw) return;
  int j = other();
  if (j < 0) {
    if (must) violate("threads/deadlock", "thread %d waits in %s and no other thread can run", S.cur, what);
    return;
  }
  cnt("fault.preemption");
  ev("thread %d preempted before %s%s%s, thread %d runs", S.cur, what, off >= 0 ? " shared data +" : "", off >= 0 ? std::to_string(off).c_str() : "", j);
  give(j);
}
void y_yield(const char* w, const void*) { sched_point(w, -1, false); }
void y_wait(const char* w, const void*) {
  if (++waits > 20000) violate("threads/deadlock", "threads wait for each other in %s", w);
  sched_point(w, -1, true);
}
bool hook(siginfo_t* si, void* vc) {
  if (!guarding || stepping) return false;
  uintptr_t a = (uintptr_t)si->si_addr;
  long o = off_in(a);
  if (o < 0) return false;
  ucontext_t* uc = (ucontext_t*)vc;
  bool wr = uc->uc_mcontext.gregs[REG_ERR] & 2;
  if (!S.atomic) {
    R->thash = hash2(R->thash, (uint64_t)o * 8 + S.cur * 2 + wr);
    sched_point(wr ? "a store to" : "a load from", o, false);
  }
  prot(PROT_READ | PROT_WRITE);
  stepping = true;
  uc->uc_mcontext.gregs[REG_EFL] |= 0x100;
  return true;
}
void on_trap(int, siginfo_t*, void* vc) {
  ucontext_t* uc = (ucontext_t*)vc;
  uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
  stepping = false;
  if (guarding) prot(PROT_NONE);
}
void* entry(void* v) {
  int i = (int)(intptr_t)v;
  Thr& t = thr[i];
  semwait(&t.go);
  try {
    for (int k : t.prog) {
      sched_point("a call", -1, false);
      ev("thread %d: %s", i, tasks[k].name.c_str());
      tasks[k].body(*TL);
      std::string o;
      { S.atomic++; tasks[k].out(o); S.atomic--; }
      t.res.push_back(o);
    }
  } catch (Violation& x) {
    t.vcls = x.cls; t.vdet = x.detail;
    failed = true;
  } catch (SimAbort& a) {
    t.vcls = "threads/unexpected-abort"; t.vdet = "MPI_Abort called with no injected failure";
    failed = true;
  }
  t.done = true;
  int j = failed ? -1 : other();
  if (j >= 0) { S.cur = j; since = 0; sem_post(&thr[j].go); }
  else sem_post(&main_go);
  return nullptr;
}
// run the given threads; which: their programs
void run_threads(int n) {
  NT = n;
  naccess = since = 0;
  waits = 0;
  failed = false;
  stepping = false;
  S.cur = 0;
  S.atomic = 0;
  sem_init(&main_go, 0, 0);
  for (int i = 0; i < n; i++) {
    thr[i].done = false;
    thr[i].vcls.clear();
    thr[i].res.clear();
    sem_init(&thr[i].go, 0, 0);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 4u << 20);
    if (pthread_create(&thr[i].th, &at, entry, (void*)(intptr_t)i)) throw HarnessError{"pthread_create"};
    pthread_attr_destroy(&at);
  }
  S.on = true;
  S.yield = y_yield;
  S.wait = y_wait;
  M.yield = [] { sched_point("an MPI call", -1, false); };
  guarding = true;
  prot(PROT_NONE);
  int f = n > 1 ? (int)R->ch.pick(n) : 0;
  S.cur = f;
  sem_post(&thr[f].go);
  semwait(&main_go);
  guarding = false;
  prot(PROT_READ | PROT_WRITE);
  S.on = false;
  M.yield = nullptr;
  if (failed) {   // the others are parked for good; leave them, this process ends with the violation
    for (int i = 0; i < n; i++) if (!thr[i].done) pthread_detach(thr[i].th); else pthread_join(thr[i].th, nullptr);
    for (int i = 0; i < n; i++) if (!thr[i].vcls.empty()) throw Violation{thr[i].vcls, thr[i].vdet};
  }
  for (int i = 0; i < n; i++) pthread_join(thr[i].th, nullptr);
}

template <class Rr> struct Drawn {   // the calls of this run whose inputs another thread may share
  std::shared_ptr<Mem<Rr>> m;
  std::vector<Rr*> in;               // its input arrays, one copy for everybody; null for what it writes
};
template <class Rr> std::vector<Drawn<Rr>>& drawn() { static std::vector<Drawn<Rr>> d; return d; }
template <class Rr> void add_call(Ch& ch) {
  std::shared_ptr<Mem<Rr>> m;
  std::vector<Rr*> in;
  bool twin = !drawn<Rr>().empty() && ch.pick(3) == 1;
  if (twin) {
    auto& d = drawn<Rr>()[ch.pick(drawn<Rr>().size())];
    m = d.m;
    in = d.in;
  } else {
    m = std::make_shared<Mem<Rr>>(ch);
    m->L0 = TL;
    m->draw(false);
    for (auto& a : m->arr) {
      Rr* q = nullptr;
      if (!a.out) { q = anew<Rr>(a.v.size() + 1); memcpy(q, a.v.data(), a.v.size() * sizeof(Rr)); }
      in.push_back(q);
    }
    drawn<Rr>().push_back({m, in});
  }
  struct Buf { std::vector<Rr*> p; Rr* ret; };
  auto b = std::make_shared<Buf>();
  auto reset = [m, b, in] {
    b->p.clear();
    for (size_t k = 0; k < in.size(); k++) {
      auto& a = m->arr[k];
      Rr* q = in[k];
      if (!q) { q = anew<Rr>(a.v.size() + 1); memcpy(q, a.v.data(), a.v.size() * sizeof(Rr)); }
      b->p.push_back(q);
    }
    b->ret = anew<Rr>(2);
    b->ret[0] = b->ret[1] = 0;
  };
  Task t;
  t.name = std::string(sizeof(Rr) == 8 ? "double " : "float ") + m->name + (twin ? " on inputs shared with another call" : "");
  if (twin) cnt("shared_inputs");
  t.reset = reset;
  t.body = [m, b](Lib& L) { m->fn(L, b->p.data(), b->ret); };
  t.out = [m, b](std::string& o) {
    o.append((char*)b->ret, m->nret * sizeof(Rr));
    for (size_t k = 0; k < m->arr.size(); k++) {
      auto& a = m->arr[k];
      for (size_t i = 0; i < a.v.size(); i++)
        if (a.used[i]) {
          Rr v = b->p[k][i];
          if (std::isnan(v)) v = std::numeric_limits<Rr>::quiet_NaN();   // which NaN is not specified
          o.append((char*)&v, sizeof v);
        }
    }
  };
  tasks.push_back(t);
}
void add_handle(Ch& ch, int forced) {
  int h = forced >= 0 ? forced / 64 : (int)ch.pick(12);
  int fold = forced >= 0 ? forced % 64 : ch.pick(3) ? 3 : 2 + (int)ch.pick(19);
  auto r = std::make_shared<std::string>();
  Task t;
  t.name = std::string(hn[h]) + "(" + std::to_string(fold) + ")";
  t.reset = [r] { r->clear(); };
  t.body = [r, h, fold](Lib& L) {
    void* q = request(L, h, fold);
    S.atomic++;
    if (h < 6) {
      SimOp* o = (SimOp*)q;
      bool ok = false;
      for (auto* x : M.ops) ok |= x == o;
      if (!ok) violate("threads/handle", "%s(%d) returned a handle MPI never created", hn[h], fold);
      char b[64];
      snprintf(b, sizeof b, "op %ld %d %d", (long)((char*)o->fn - (char*)TL->segs[0].a), o->commute, o->freed);
      *r = b;
    } else {
      SimType* o = (SimType*)q;
      bool ok = false;
      for (auto* x : M.types) ok |= x == o;
      if (!ok) violate("threads/handle", "%s(%d) returned a datatype MPI never created", hn[h], fold);
      if (!o->committed) violate("threads/handle", "%s(%d) returned a datatype that is not committed", hn[h], fold);
      char b[64];
      snprintf(b, sizeof b, "type %ld %d", o->size, o->freed);
      *r = b;
    }
    S.atomic--;
  };
  t.out = [r](std::string& o) { o = *r; };
  tasks.push_back(t);
}

void run_thread(const std::string& prof) {
  Ch& ch = R->ch;
  static bool inst = false;
  if (!inst) {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_trap;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGTRAP, &sa, nullptr);
    inst = true;
  }
  g_segv_hook = hook;
  TL = LIBS[ch.pick(LIBS.size())];
  A.reset(ch.bits(), ch.pick(5));
  tasks.clear();
  drawn<double>().clear();
  drawn<float>().clear();
  for (auto& t : thr) t.prog.clear();
  int n = 2 + (int)ch.small(3);
  bool mpi = prof == "mpi";
  int common = mpi ? (int)ch.pick(12) * 64 + 3 : -1;
  for (int i = 0; i < n; i++) {
    int k = 1 + (int)ch.small(4);
    for (int c = 0; c < k; c++) {
      if (mpi && ch.pick(4)) add_handle(ch, ch.pick(3) ? common : -1);
      else if (ch.pick(2) == 0) add_call<double>(ch);
      else add_call<float>(ch);
      thr[i].prog.push_back((int)tasks.size() - 1);
    }
  }
  policy = ch.pick(2);
  static const int dens[] = {2, 4, 12, 40, 150};
  den = dens[ch.pick(5)];
  if (policy == 1) den = 1000000000;
  // alone: each thread by itself in a fresh process
  std::vector<std::vector<std::string>> want(n);
  long total = 0;
  std::vector<std::vector<int>> progs(n);
  for (int i = 0; i < n; i++) progs[i] = thr[i].prog;
  for (int i = 0; i < n; i++) {
    for (int k : progs[i]) tasks[k].reset();
    Proc p;
    p.start(TL);
    thr[0].prog = progs[i];
    points.clear();
    int pol = policy;
    policy = 1;
    { In in(p); run_threads(1); }
    policy = pol & 1;
    want[i] = thr[0].res;
    total += naccess;
  }
  if (policy == 1) {
    points.clear();
    int d = 1 + (int)ch.pick(5);
    for (int i = 0; i < d; i++) points.push_back(ch.pick((uint32_t)std::max<long>(total, 1)));
  }
  for (int i = 0; i < n; i++) thr[i].prog = progs[i];
  for (auto& t : tasks) t.reset();
  Proc p;
  p.start(TL);
  nswitch = 0;
  ev("%d threads start together in a fresh process of build %s", n, TL->name.c_str());
  {
    In in(p);
    run_threads(n);
    for (int i = 0; i < n; i++)
      for (size_t k = 0; k < want[i].size(); k++)
        if (thr[i].res.size() <= k || thr[i].res[k] != want[i][k])
          violate("threads/result", "thread %d, %s: the result differs from the one the thread gets alone (%ld preemptions)", i, tasks[progs[i][k]].name.c_str(), nswitch);
  }
  // the process they leave behind works like a fresh one
  int pick = ch.pick(n);
  for (int k : progs[pick]) tasks[k].reset();
  thr[0].prog = progs[pick];
  points.clear();
  int pol = policy;
  policy = 1;
  { In in(p); run_threads(1); }
  policy = pol;
  for (size_t k = 0; k < want[pick].size(); k++)
    if (thr[0].res[k] != want[pick][k]) violate("threads/state-left", "%s gives another result after the threads ran than in a fresh process", tasks[progs[pick][k]].name.c_str());
  A.check("threads");
  R->nontrivial = nswitch > 0;
  cnt("shared_accesses", naccess);
  if (nforced) cnt("forced_rotations", nforced);
  nforced = 0;
  uint64_t h = n;
  for (auto& w : want) for (auto& s : w) for (unsigned char c : s) h = h * 1099511628211ull + c;
  state_seen(h);
  R->simtime += 0.001;
  R->tags.insert(mpi ? "mpi" : "calls");
  g_segv_hook = nullptr;
}
}  // namespace
static RegFamily reg("thread", run_thread);
