// The floating-point environment as a fault: client code that flushes subnormals to zero (as vendor compilers and
// parallel runtimes set it) for some of the operations of a history. Accumulators for which the library reports that no
// subnormal bits are involved come out the same as in an environment that never changes.
#include <xmmintrin.h>
#include "gen.h"
#include "api.h"

namespace {
struct Mode {   // the client's environment during one library call
  unsigned was;
  explicit Mode(unsigned bits) : was(_mm_getcsr()) { _mm_setcsr((was & ~0x803fu) | bits); }
  ~Mode() { _mm_setcsr(was); }
};
static const unsigned MODES[] = {0, 0x8040, 0x8000, 0x0040};
static const char* MODEN[] = {"gradual", "flushed", "results flushed", "operands flushed"};
static const unsigned BAD = 1 | 4 | 8;  // invalid, divide by zero, overflow

template <class R_> struct Den;
template <> struct Den<double> {
  static int is(Lib& L, bool cx, int k, const double* y) { return cx ? L.binned_zmdenorm(k, y) : L.binned_dmdenorm(k, y); }
};
template <> struct Den<float> {
  static int is(Lib& L, bool cx, int k, const float* y) { return cx ? L.binned_cmdenorm(k, y) : L.binned_smdenorm(k, y); }
};

template <class F> struct Env {
  typedef API<F> P;
  Ch& ch;
  Lib& L;
  bool cx;
  int k, st, n;
  int c;          // numbers per element
  F *x, *z;
  explicit Env(Ch& ch_) : ch(ch_), L(*LIBS[ch_.pick(LIBS.size())]) {}

  bool same(const F* a, const F* b, int m) {
    for (int i = 0; i < m; i++)
      if (!(a[i] == b[i]) && !(std::isnan(a[i]) && std::isnan(b[i]))) return false;
    return true;
  }
  // what the answer has to be where it is clear: subnormal words, or far above them
  void query(const F* y, const char* when) {
    int d = Den<F>::is(L, cx, k, y);
    bool sub = false, far = true;
    for (int j = 0; j < c; j++) {
      for (int i = 0; i < k; i++) {
        F p = y[c * i + j];
        if (p != 0 && std::fabs(p) < std::numeric_limits<F>::min()) sub = true;
      }
      F t = y[j];
      if (t == 0 || std::ilogb(t) - T<F>::W * (k - 1) < T<F>::MINEXP + T<F>::MANT + 4 * T<F>::W) far = false;
    }
    if (sub) { cnt("probe.accumulator_holds_subnormal_words"); if (!d) violate("env/query", "%s: the accumulator holds subnormal words but is reported free of them (fold %d)", when, k); }
    if (far) { cnt("probe.accumulator_far_from_subnormals"); if (d) violate("env/query", "%s: no bin of the accumulator is near the subnormal range but it is reported to have subnormal bits (fold %d, %s)", when, k, hexs(y[0]).c_str()); }
  }
  void flags(const char* what, bool finite) {
    unsigned f = _mm_getcsr() & BAD;
    if (f && finite) violate("env/exception", "%s on finite numbers with a finite result raised the floating-point exception%s%s%s", what, f & 1 ? " invalid" : "", f & 4 ? " divide-by-zero" : "", f & 8 ? " overflow" : "");
  }
  void go() {
    cx = ch.pick(2);
    c = cx ? 2 : 1;
    k = pick_fold(ch, T<F>::MAXFOLD);
    st = P::num(L, cx, k);
    n = ch.chance(1, 4) ? ch.range(1, 300) : ch.range(1, 12);
    bool dot = ch.chance(1, 3);
    x = anew<F>(n * c);
    z = anew<F>(n * c);
    Gen<F> g[2];
    int lim = dot ? T<F>::MAXEXP / 2 - 12 : T<F>::MAXEXP - 12;
    for (int j = 0; j < 2; j++) g[j].configure(ch, n, lim, dot ? T<F>::MINEXP : T<F>::MINEXP - T<F>::MANT);
    bool mixed = !dot && ch.chance(1, 3);      // a flushed factor changes a product: products take normal numbers; subnormals among ordinary numbers
    for (int i = 0; i < n * c; i++) {
      x[i] = g[cx && i % 2].next(ch);
      z[i] = dot ? g[cx && i % 2].next(ch) : 1;
      if (dot) for (F* q : {&x[i], &z[i]}) if (std::fabs(*q) < std::numeric_limits<F>::min()) *q = 0;
      if (mixed && g[0].rnd(ch, 4) == 0) x[i] = std::copysign(std::ldexp((F)(1 + g[0].rnd(ch, 4000)), T<F>::MINEXP - T<F>::MANT), x[i]);
    }
    Proc p;
    p.start(&L);
    In in(p);
    const int NA = 2;
    F *a[NA], *b[NA], *save = anew<F>(st);
    for (int i = 0; i < NA; i++) {
      a[i] = anew<F>(st); b[i] = anew<F>(st);
      P::setzero(L, cx, k, a[i]); P::setzero(L, cx, k, b[i]);
    }
    F ra[2], rb[2];
    int ops = 1 + ch.pick(n > 12 ? 12 : 8), compared = 0;
    long long budget = 0;
    for (int o = 0; o < ops; o++) {
      int op = ch.pick(8), t = ch.pick(NA), m = ch.pick(4);
      int lo = ch.pick(n), len = ch.range(1, n - lo);
      static const char* NM[] = {"sum", "asum", "add", "merge", "negate", "renormalise", "query", "dot"};
      if (op == 3 && (budget *= 2) > 100000) break;
      ev("%s of %d at %d into %d, subnormals %s", NM[op], len, lo, t, MODEN[m]);
      budget += len;
      ::R->simtime += 0.001;
      cnt(MODES[m] ? "fault.environment.subnormals_flushed" : "probe.environment_gradual");
      for (int r = 0; r < 2; r++) {
        F** y = r ? b : a;
        unsigned md = r ? MODES[m] : 0;
        if (op == 6) {
          F q = 0;
          Mode e(md);
          q = (F)Den<F>::is(L, cx, k, y[t]);
          ra[r] = q;
          continue;
        }
        Mode e(md);
        switch (op) {
          case 0: P::sum(L, cx, k, len, x + lo * c, 1, y[t]); break;
          case 1: if (cx) P::sum(L, cx, k, len, x + lo * c, 1, y[t]); else P::asum(L, false, k, len, x + lo, 1, y[t]); break;
          case 2: for (int i = 0; i < len && i < 6; i++) P::add1(L, cx, k, x + (lo + i) * c, y[t]); break;
          case 3: P::badd(L, cx, k, y[1 - t], y[t]); break;
          case 4: P::negate(L, cx, k, y[t]); break;
          case 5: P::renorm(L, cx, k, y[t]); break;
          case 7: P::dot(L, cx ? 1 + (int)(lo & 1) : 0, k, len, x + lo * c, 1, z + lo * c, 1, y[t]); break;
        }
        bool fin = is_fin(y[t][0]) && (!cx || is_fin(y[t][1]));
        flags(NM[op], fin);
      }
      query(a[t], NM[op]);
      bool clear = !Den<F>::is(L, cx, k, a[t]);
      if (!clear) { cnt("probe.subnormal_bits_reported"); continue; }
      compared++;
      if (!same(a[t], b[t], st)) {
        int w = 0;
        while (w < st && (a[t][w] == b[t][w] || (std::isnan(a[t][w]) && std::isnan(b[t][w])))) w++;
        violate("env/state", "%s with subnormals %s: word %d of a fold %d accumulator reported free of subnormal bits is %s, %s in an environment that keeps subnormals", NM[op], MODEN[m], w, k, hexs(b[t][w]).c_str(), hexs(a[t][w]).c_str());
      }
      state_seen(hash2((uint64_t)k, std::hash<double>()((double)a[t][0])));
      { Mode e(0); P::conv(L, cx, k, a[t], ra); }
      int m2 = ch.pick(4);
      bool fin;
      {
        Mode e(MODES[m2]);
        P::conv(L, cx, k, b[t], rb);
        fin = is_fin(rb[0]) && (!cx || is_fin(rb[1]));
        flags("conversion", fin);
      }
      if (!same(ra, rb, c))
        violate("env/result", "conversion with subnormals %s gives %s, with subnormals kept %s (fold %d)", MODEN[m2], hexs(ra[0] == rb[0] ? rb[c - 1] : rb[0]).c_str(), hexs(ra[0] == rb[0] ? ra[c - 1] : ra[0]).c_str(), k);
    }
    // one-shot calls, judged by the accumulator of the same numbers
    for (int w = 0; w < 2; w++) {
      int m = 1 + ch.pick(3);
      F* y = save;
      P::setzero(L, cx, k, y);
      if (w && !dot) break;
      if (w) P::dot(L, cx ? 1 : 0, k, n, x, 1, z, 1, y);
      else P::sum(L, cx, k, n, x, 1, y);
      if (Den<F>::is(L, cx, k, y)) continue;
      int kk = k == 3 && ch.pick(2) ? 0 : k;
      { Mode e(0); if (w) P::rdot(L, cx ? 1 : 0, kk, n, x, 1, z, 1, ra); else P::rsum(L, cx, kk, n, x, 1, ra); }
      {
        Mode e(MODES[m]);
        if (w) P::rdot(L, cx ? 1 : 0, kk, n, x, 1, z, 1, rb);
        else P::rsum(L, cx, kk, n, x, 1, rb);
        flags(w ? "dot product" : "sum", is_fin(rb[0]) && (!cx || is_fin(rb[1])));
      }
      cnt("fault.environment.subnormals_flushed");
      compared++;
      ev("one-shot %s with subnormals %s", w ? "dot product" : "sum", MODEN[m]);
      if (!same(ra, rb, c)) violate("env/result", "the %s with subnormals %s is %s, with subnormals kept %s (fold %d)", w ? "dot product" : "sum", MODEN[m], hexs(ra[0] == rb[0] ? rb[c - 1] : rb[0]).c_str(), hexs(ra[0] == rb[0] ? ra[c - 1] : ra[0]).c_str(), k);
    }
    A.check("after the history");
    ::R->nontrivial = compared > 0;
  }
};
}  // namespace

static void run_env(const std::string&) {
  Ch& ch = ::R->ch;
  A.reset(ch.bits(), ch.pick(5));
  if (ch.pick(2) == 0) { Env<double> e(ch); e.go(); }
  else { Env<float> e(ch); e.go(); }
}
static RegFamily reg("env", run_env);
