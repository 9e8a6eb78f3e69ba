#pragma once
// Draws calls of every public routine; used by the memory and thread families.
// Memory behaviour of every public routine. One run draws a call (routine, sizes, strides, layout, values) and executes
// it in several simulated environments: arrays flush against unreadable pages on either side, inputs read-only, gaps
// between strided elements holding different poison, fresh heap and stack memory holding different garbage, cold and
// warm library state. The outcome may depend on none of that (profile "hygiene"). Under profile "oom" the allocations
// the call makes fail one at a time or from some point on, and the call must stop or be right.
#include "gen.h"
#include "ga.h"
#include <memory>
#include <immintrin.h>

namespace {
template <class R> struct Mem {
  typedef API<R> P;
  Ch& ch;
  std::string cls, name;
  Lib* L0;                                  // the build under test this run
  explicit Mem(Ch& c) : ch(c) { L0 = LIBS[ch.pick(LIBS.size())]; }
  struct Arr { std::vector<R> v; std::vector<char> used; bool out; const char* nm; };
  std::vector<Arr> arr;
  std::function<void(Lib&, R**, R*)> fn;   // the call: pointers to the arrays, returned values
  int nret = 0;
  bool zero = false;                        // a call with zero elements: outputs must not change
  bool value_ok = true;                     // compare outputs by value (false: only bytes outside)
  Gen<R> g;
  int fold = 3;

  int vec(int n, int inc, int e, bool out, const char* nm) {
    Arr a;
    size_t tot = n ? ((size_t)(n - 1) * inc + 1) * e : 0;
    a.v.assign(tot, 0);
    a.used.assign(tot, 0);
    for (int i = 0; i < n; i++) for (int j = 0; j < e; j++) { size_t k = (size_t)i * inc * e + j; a.v[k] = g.next(ch); a.used[k] = 1; }
    a.out = out;
    a.nm = nm;
    arr.push_back(a);
    return (int)arr.size() - 1;
  }
  // rows x cols stored along the minor dimension with leading dimension ld
  int mat(int major, int minor, int ld, int e, bool out, const char* nm) {
    Arr a;
    size_t tot = major && minor ? ((size_t)(major - 1) * ld + minor) * e : 0;
    a.v.assign(tot, 0);
    a.used.assign(tot, 0);
    for (int i = 0; i < major && minor; i++) for (int k = 0; k < minor * e; k++) { a.v[(size_t)i * ld * e + k] = g.next(ch); a.used[(size_t)i * ld * e + k] = 1; }
    a.out = out;
    a.nm = nm;
    arr.push_back(a);
    return (int)arr.size() - 1;
  }
  // an accumulator holding a few numbers, in the given layout (packed: one array; else primary and carry)
  void fill_acc(std::vector<R>& y, bool cx) {
    Proc p;
    p.start(L0);
    In in(p);
    R* t = anew<R>((size_t)(cx ? 4 : 2) * fold);
    P::setzero(*p.lib, cx, fold, t);
    int n = ch.pick(4);
    for (int i = 0; i < n; i++) { R* v = anew<R>(2); v[0] = g.next(ch); v[1] = g.next(ch); P::add1(*p.lib, cx, fold, v, t); }
    y.assign(t, t + (size_t)(cx ? 4 : 2) * fold);
  }
  int acc(bool cx, bool out, const char* nm) {
    Arr a;
    fill_acc(a.v, cx);
    a.used.assign(a.v.size(), 1);
    a.out = out;
    a.nm = nm;
    arr.push_back(a);
    return (int)arr.size() - 1;
  }
  int acc_m(bool cx, int ip, int iq, bool out) {   // two arrays
    std::vector<R> y;
    fill_acc(y, cx);
    int e = cx ? 2 : 1;
    for (int w = 0; w < 2; w++) {
      int inc = w ? iq : ip;
      Arr a;
      size_t tot = ((size_t)(fold - 1) * inc + 1) * e;
      a.v.assign(tot, 0);
      a.used.assign(tot, 0);
      for (int i = 0; i < fold; i++) for (int j = 0; j < e; j++) { a.v[(size_t)i * inc * e + j] = y[(size_t)w * e * fold + (size_t)i * e + j]; a.used[(size_t)i * inc * e + j] = 1; }
      a.out = out;
      a.nm = w ? "carry" : "primary";
      arr.push_back(a);
    }
    return (int)arr.size() - 2;
  }
  int acc_v(bool cx, int n, int inc, bool out, const char* nm) {   // array of packed accumulators
    int num = (cx ? 4 : 2) * fold;
    Arr a;
    size_t tot = n ? ((size_t)(n - 1) * inc + 1) * num : 0;
    a.v.assign(tot, 0);
    a.used.assign(tot, 0);
    for (int i = 0; i < n; i++) {
      std::vector<R> y;
      fill_acc(y, cx);
      for (int k = 0; k < num; k++) { a.v[(size_t)i * inc * num + k] = y[k]; a.used[(size_t)i * inc * num + k] = 1; }
    }
    a.out = out;
    a.nm = nm;
    arr.push_back(a);
    return (int)arr.size() - 1;
  }
  int inc() { return ch.chance(1, 2) ? ch.range(2, 4) : 1; }
  int sinc() { int i = inc(); return ch.chance(1, 8) ? -i : i; }
  // a vector walked backwards is passed by the element used first
  static R* bk(R* p, int n, int ix, int e) { return ix < 0 && n > 0 ? p + (size_t)(n - 1) * -ix * e : p; }
  int len() {
    uint32_t k = ch.pick(10);
    return k < 7 ? ch.pick(40) : k < 9 ? ch.pick(150) : ch.pick(sizeof(R) == 8 ? 3000 : 1500);
  }

  void draw(bool oom) {
    bool cx = ch.pick(2), m = ch.pick(2);
    int e = cx ? 2 : 1;
    fold = pick_fold(ch, T<R>::MAXFOLD);
    int grp = oom ? (ch.pick(3) == 0 ? 1 : 3 + (int)ch.pick(2)) : (int)ch.pick(8);
    if (oom && ch.pick(12) == 11) grp = 6;
    int hi = grp == 1 || grp == 0 || grp == 3 || grp == 4 ? T<R>::MAXEXP / 2 - 2 : T<R>::MAXEXP;
    g.configure(ch, 4000, hi, -(T<R>::MAXEXP / 2), RG_ALL);
    g.explicit_picks = false;
    g.seed = ch.bits();
    int ip = inc(), iq = inc(), iP = inc(), iQ = inc();
    char b[200];
    switch (grp) {
      case 0: {  // vector kernels into an accumulator
        int op = ch.pick(4), n = len(), ix = sinc(), iz = sinc();
        int w = op == 2 ? (cx ? 1 + (int)ch.pick(2) : 0) : 0;
        bool acx = (op == 0 || op == 2) && cx;
        int x = vec(n, std::abs(ix), e, false, "X"), z = op == 2 ? vec(n, std::abs(iz), e, false, "Y") : -1;
        int y = m ? acc_m(acx, iP, iQ, true) : acc(acx, true, "accumulator");
        zero = n == 0;
        static const char* nm[] = {"sum", "asum", "dot", "ssq"};
        name = std::string(m ? "strided " : "") + nm[op];
        R sc = 0;
        if (op == 3) { nret = 1; Proc p; p.start(L0); In in(p); sc = P::scale(*p.lib, std::ldexp((R)1, (int)ch.pick(9) - 4)); }
        int k = fold;
        fn = [=](Lib& L, R** a, R* r) {
          switch (op) {
            case 0: if (m) P::msum(L, cx, k, n, bk(a[x], n, ix, e), ix, a[y], iP, a[y + 1], iQ); else P::sum(L, cx, k, n, bk(a[x], n, ix, e), ix, a[y]); break;
            case 1: if (m) P::masum(L, cx, k, n, bk(a[x], n, ix, e), ix, a[y], iP, a[y + 1], iQ); else P::asum(L, cx, k, n, bk(a[x], n, ix, e), ix, a[y]); break;
            case 2: if (m) P::mdot(L, w, k, n, bk(a[x], n, ix, e), ix, bk(a[z], n, iz, e), iz, a[y], iP, a[y + 1], iQ); else P::dot(L, w, k, n, bk(a[x], n, ix, e), ix, bk(a[z], n, iz, e), iz, a[y]); break;
            default: r[0] = m ? P::mssq(L, cx, k, n, bk(a[x], n, ix, e), ix, sc, a[y], iP, a[y + 1], iQ) : P::ssq(L, cx, k, n, bk(a[x], n, ix, e), ix, sc, a[y]);
          }
        };
        snprintf(b, sizeof b, "%s %s fold %d n %d strides %d %d", name.c_str(), cx ? "complex" : "real", fold, n, ix, iz);
        break;
      }
      case 1: {  // one-shot routines
        int op = ch.pick(4), n = len(), ix = sinc(), iz = sinc();
        int w = op == 2 ? (cx ? 1 + (int)ch.pick(2) : 0) : 0;
        int x = vec(n, std::abs(ix), e, false, "X"), z = op == 2 ? vec(n, std::abs(iz), e, false, "Y") : -1;
        int k = ch.pick(3) == 0 ? 0 : fold;
        static const char* nm[] = {"rsum", "rasum", "rdot", "rnrm2"};
        name = nm[op];
        nret = (op == 0 || op == 2) && cx ? 2 : 1;
        int o = nret == 2 ? vec(1, 1, 2, true, "result") : -1;
        if (o >= 0) nret = 0;
        fn = [=](Lib& L, R** a, R* r) {
          R* q = o >= 0 ? a[o] : r;
          switch (op) {
            case 0: P::rsum(L, cx, k, n, bk(a[x], n, ix, e), ix, q); break;
            case 1: q[0] = P::rasum(L, cx, k, n, bk(a[x], n, ix, e), ix); break;
            case 2: P::rdot(L, w, k, n, bk(a[x], n, ix, e), ix, bk(a[z], n, iz, e), iz, q); break;
            default: q[0] = P::rnrm2(L, cx, k, n, bk(a[x], n, ix, e), ix);
          }
        };
        snprintf(b, sizeof b, "%s %s fold %d n %d strides %d %d", name.c_str(), cx ? "complex" : "real", k, n, ix, iz);
        break;
      }
      case 2: {  // largest magnitude
        int op = ch.pick(2), n = len(), ix = sinc(), iz = sinc();
        int x = vec(n, std::abs(ix), e, false, "X"), z = op ? vec(n, std::abs(iz), e, false, "Y") : -1;
        int o = cx ? vec(1, 1, 2, true, "result") : -1;
        nret = cx ? 0 : 1;
        name = op ? "amaxm" : "amax";
        fn = [=](Lib& L, R** a, R* r) {
          if (op) { if (cx) P::amaxmc(L, n, bk(a[x], n, ix, e), ix, bk(a[z], n, iz, e), iz, a[o]); else r[0] = P::amaxm(L, n, bk(a[x], n, ix, e), ix, bk(a[z], n, iz, e), iz); }
          else { if (cx) P::amaxc(L, n, bk(a[x], n, ix, e), ix, a[o]); else r[0] = P::amax(L, n, bk(a[x], n, ix, e), ix); }
        };
        snprintf(b, sizeof b, "%s %s n %d strides %d %d", name.c_str(), cx ? "complex" : "real", n, ix, iz);
        break;
      }
      case 3: case 4: {  // matrix routines
        bool mm = grp == 4, bin = ch.pick(2);
        bool row = ch.pick(2);
        int ta = ch.pick(3), tb = mm ? (int)ch.pick(3) : 0;
        int M, N, K;
        bool big = ch.pick(12) == 11;
        fold = std::min(fold, 6);
        if (mm) { M = ch.pick(big ? 40 : 7); N = ch.pick(big ? 40 : 7); K = ch.pick(big ? 30 : 9); }
        else { M = ch.pick(big ? 200 : 14); K = ch.pick(big ? 200 : 14); N = 1; }
        // op(A) is M x K
        int ar = ta ? K : M, ac = ta ? M : K, br = tb ? N : K, bc = tb ? K : N;
        auto ldof = [&](int r, int c) { return std::max(1, row ? c : r) + (ch.chance(1, 2) ? ch.range(1, 3) : 0); };
        int lda = ldof(ar, ac), ldb = mm ? ldof(br, bc) : inc(), ldc = mm ? ldof(M, N) : inc();
        int A_ = mat(row ? ar : ac, row ? ac : ar, lda, e, false, "A");
        int B_ = mm ? mat(row ? br : bc, row ? bc : br, ldb, e, false, "B") : vec(K, ldb, e, false, "X");
        static const R sv[] = {1, 0, -1, 2, (R)0.7};
        int al = vec(1, 1, e, false, "alpha"), be = vec(1, 1, e, false, "beta");
        for (int q = 0; q < e; q++) { arr[al].v[q] = q ? sv[(1 + ch.pick(5)) % 5] : sv[ch.pick(5)]; arr[be].v[q] = q ? sv[(1 + ch.pick(5)) % 5] : sv[ch.pick(5)]; }
        int C_;
        if (bin) C_ = mm ? acc_v(cx, 0, 1, true, "C") : acc_v(cx, M, ldc, true, "Y");
        else C_ = mm ? mat(row ? M : N, row ? N : M, ldc, e, true, "C") : vec(M, ldc, e, true, "Y");
        if (bin && mm) {
          int num = (cx ? 4 : 2) * fold, major = row ? M : N, minor = row ? N : M;
          Arr& a = arr[C_];
          size_t tot = major && minor ? ((size_t)(major - 1) * ldc + minor) * num : 0;
          a.v.assign(tot, 0);
          a.used.assign(tot, 0);
          std::vector<R> y;
          fill_acc(y, cx);
          for (int i = 0; i < major && minor; i++) for (int j = 0; j < minor; j++) for (int k = 0; k < num; k++) { size_t o = ((size_t)i * ldc + j) * num + k; a.v[o] = y[k]; a.used[o] = 1; }
        }
        char o = row ? "rR"[ch.pick(2)] : "cC"[ch.pick(2)], t = "ntc"[ta], u = "ntc"[tb];
        int k = !bin && fold == 3 && ch.pick(2) ? 0 : fold;
        int m_ = M, n_ = N, k_ = K;
        name = std::string(bin ? "binned " : "") + (mm ? "gemm" : "gemv");
        fn = [=](Lib& L, R** a, R*) {
          if (mm) {
            if (bin) GA<R>::bgemm(L, cx, k, o, t, u, m_, n_, k_, a[al], a[A_], lda, a[B_], ldb, a[C_], ldc);
            else GA<R>::gemm(L, cx, k, o, t, u, m_, n_, k_, a[al], a[A_], lda, a[B_], ldb, a[be], a[C_], ldc);
          } else {
            int r = ta ? k_ : m_, c = ta ? m_ : k_;
            if (bin) GA<R>::bgemv(L, cx, k, o, t, r, c, a[al], a[A_], lda, a[B_], ldb, a[C_], ldc);
            else GA<R>::gemv(L, cx, k, o, t, r, c, a[al], a[A_], lda, a[B_], ldb, a[be], a[C_], ldc);
          }
        };
        zero = M == 0 || N == 0 || (bin && K == 0);
        snprintf(b, sizeof b, "%s %s fold %d order %c trans %c%c %dx%dx%d ld %d %d %d alpha %g beta %g", name.c_str(), cx ? "complex" : "real", k, o, t, u, M, N, K, lda, ldb, ldc, (double)arr[al].v[0], (double)arr[be].v[0]);
        break;
      }
      case 5: {  // accumulator and number
        int op = ch.pick(7);
        int v = vec(1, 1, e, op == 5 || false, "number");
        int y = m ? acc_m(cx, iP, iQ, op != 5) : acc(cx, op != 5, "accumulator");
        if (op == 5 && !cx) arr[v].out = true;
        int k = fold;
        static const char* nm[] = {"add number", "convert from number", "update", "update+deposit+renormalise", "negate", "convert to number", "set to zero"};
        name = nm[op];
        // negate, renormalise, set-to-zero have no number argument
        fn = [=](Lib& L, R** a, R*) {
          R *p = a[y], *q = m ? a[y + 1] : nullptr, *x = a[v];
          switch (op) {
            case 0: if (m) P::madd1(L, cx, k, x, p, iP, q, iQ); else P::add1(L, cx, k, x, p); break;
            case 1: if (m) P::mconv1(L, cx, k, x, p, iP, q, iQ); else P::conv1(L, cx, k, x, p); break;
            case 2: if (m) P::mupd(L, cx, k, x, p, iP, q, iQ); else P::upd(L, cx, k, x, p); break;
            case 3:
              if (m) { P::mupd(L, cx, k, x, p, iP, q, iQ); P::mdep(L, cx, k, x, p, iP); P::mrenorm(L, cx, k, p, iP, q, iQ); }
              else { P::upd(L, cx, k, x, p); P::dep(L, cx, k, x, p); P::renorm(L, cx, k, p); }
              break;
            case 4: if (m) P::mnegate(L, cx, k, p, iP, q, iQ); else P::negate(L, cx, k, p); break;
            case 5: if (m) P::mconv(L, cx, k, p, iP, q, iQ, x); else P::conv(L, cx, k, p, x); break;
            default: if (m) P::msetzero(L, cx, k, p, iP, q, iQ); else P::setzero(L, cx, k, p);
          }
        };
        snprintf(b, sizeof b, "%s %s fold %d%s", name.c_str(), cx ? "complex" : "real", fold, m ? " strided" : "");
        break;
      }
      case 6: {  // accumulator and accumulator
        int op = ch.pick(5);   // add, set, set from real, vector add, scaled add
        if (op == 2 && !cx) op = 1;
        if (op == 4) cx = false;
        bool xc = op == 2 ? false : cx;
        int n = ch.pick(5), ix = ch.range(1, 3), iy = ch.range(1, 3), x, y;
        if (op == 3) { x = acc_v(cx, n, ix, false, "X"); y = acc_v(cx, n, iy, true, "Y"); zero = n == 0; }
        else if (m) { x = acc_m(xc, ip, iq, false); y = acc_m(cx, iP, iQ, true); }
        else { x = acc(xc, false, "X"); y = acc(cx, true, "Y"); }
        R sx = 0, sy = 0;
        if (op == 4) {
          nret = 1;
          Proc p;
          p.start(L0);
          In in(p);
          sx = P::scale(*p.lib, std::ldexp((R)1, ch.range(-2, 2) * T<R>::W));
          sy = P::scale(*p.lib, std::ldexp((R)1, ch.range(-2, 2) * T<R>::W));
        }
        static const char* nm[] = {"add accumulator", "set", "set from real", "vector add", "add scaled"};
        name = nm[op];
        int k = fold;
        fn = [=](Lib& L, R** a, R* r) {
          switch (op) {
            case 0: if (m) P::madd(L, cx, k, a[x], ip, a[x + 1], iq, a[y], iP, a[y + 1], iQ); else P::badd(L, cx, k, a[x], a[y]); break;
            case 1: if (m) P::mset(L, cx, k, a[x], ip, a[x + 1], iq, a[y], iP, a[y + 1], iQ); else P::set(L, cx, k, a[x], a[y]); break;
            case 2: if (m) P::msetr(L, k, a[x], ip, a[x + 1], iq, a[y], iP, a[y + 1], iQ); else P::setr(L, k, a[x], a[y]); break;
            case 3: P::baddv(L, cx, k, n, a[x], ix, a[y], iy); break;
            default: r[0] = m ? P::maddsq(L, k, sx, a[x], ip, a[x + 1], iq, sy, a[y], iP, a[y + 1], iQ) : P::baddsq(L, k, sx, a[x], sy, a[y]);
          }
        };
        snprintf(b, sizeof b, "%s %s fold %d%s n %d", name.c_str(), cx ? "complex" : "real", fold, m ? " strided" : "", n);
        break;
      }
      default: {  // reduction operators on arrays
        bool sq = ch.pick(3) == 2;
        int n = ch.pick(5), k = fold;
        if (sq) cx = false;
        int num = (cx ? 4 : 2) * fold + (sq ? 1 : 0);
        for (int w = 0; w < 2; w++) {
          Arr a;
          for (int i = 0; i < n; i++) {
            std::vector<R> y;
            fill_acc(y, cx);
            if (sq) { Proc p; p.start(L0); In in(p); a.v.push_back(P::scale(*p.lib, std::ldexp((R)1, ch.range(-1, 1) * T<R>::W))); }
            a.v.insert(a.v.end(), y.begin(), y.end());
          }
          a.used.assign(a.v.size(), 1);
          a.out = w == 1;
          a.nm = w ? "inout" : "in";
          arr.push_back(a);
        }
        (void)num;
        name = sq ? "MPI scaled add" : "MPI add";
        zero = n == 0;
        fn = [=](Lib& L, R** a, R*) {
          int c = n;
          MPI_Op o = sq ? MpiNames<R>::opsq(L, k) : MpiNames<R>::op(L, cx, k);
          MPI_Datatype ty = sq ? MpiNames<R>::tysq(L, k) : MpiNames<R>::ty(L, cx, k);
          ((SimOp*)o)->fn(a[0], a[1], &c, &ty);
        };
        snprintf(b, sizeof b, "%s %s fold %d, %d elements", name.c_str(), cx ? "complex" : "real", fold, n);
      }
    }
    cls = "mem." + name;
    for (char& c : cls) if (c == ' ') c = '-';
    ev("%s %s", sizeof(R) == 8 ? "double" : "float", b);
  }

  struct Env { int poison; bool atend; int gmode; uint64_t gseed; int stack; bool warm; int flags; int shift; };
  R poison(int k, size_t i) const {
    switch (k) { case 0: return 0; case 1: return std::numeric_limits<R>::quiet_NaN(); case 2: return std::numeric_limits<R>::max(); case 3: return (R)INFINITY; default: return (R)(double)(int64_t)(mix64(i + k) >> 20); }
  }
  static __attribute__((noinline)) void dirty_stack(int k) {
    volatile uint8_t b[48 * 1024];
    uint8_t v = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? 0x41 : 0x7f;
    for (size_t i = 0; i < sizeof b; i++) b[i] = v;
  }
  Proc warmp;
  // one execution; returns the values left in outputs. stop: how it ended (0 normal)
  std::vector<R> exec(const Env& e, long fail_at, bool sticky, int& stop, long& nalloc) {
    std::vector<R*> ptr;
    std::vector<std::vector<R>> init;
    G.reset();
    for (auto& a : arr) {
      std::vector<R> b = a.v;
      for (size_t i = 0; i < b.size(); i++) if (!a.used[i]) b[i] = poison(e.poison, i);
      init.push_back(b);
      ptr.push_back((R*)G.place(b.data(), b.size() * sizeof(R), e.atend, !a.out));
    }
    Proc p;
    p.start(L0);
    R ret[2] = {0, 0};
    A.gmode = e.gmode;
    A.gseed = e.gseed;
    long live = A.live_lib, n0 = A.nlib;
    if (fail_at >= 0) { A.fail_at = A.nlib + fail_at; A.fail_sticky = sticky; }
    unsigned csr0 = _mm_getcsr();
    uint16_t cw0, cw1;
    asm volatile("fnstcw %0" : "=m"(cw0));
    if (e.flags) _mm_setcsr(csr0 | 0x3f);
    {
      In in(e.warm ? warmp : p);
      Lib& L = *p.lib;
      dirty_stack(e.stack);
      if (fail_at < 0) { fn(L, ptr.data(), ret); stop = 0; }
      else stop = run_failstop([&] { fn(L, ptr.data(), ret); });
    }
    A.fail_at = -1;
    unsigned csr1 = _mm_getcsr();
    asm volatile("fnstcw %0" : "=m"(cw1));
    _mm_setcsr(csr0);
    if (!stop) {
      if ((csr0 ^ csr1) & 0xffc0) violate(cls + "/fp-control", "%s left the floating-point control register changed (%x to %x)", name.c_str(), csr0, csr1);
      if (cw0 != cw1) violate(cls + "/fp-control", "%s left the x87 control word changed", name.c_str());
    }
    nalloc = A.nlib - n0;
    if (!stop && A.live_lib != live && fail_at < 0) violate(cls + "/leak", "%s kept %ld block(s) it allocated (%ld allocations)", name.c_str(), A.live_lib - live, nalloc);
    std::vector<R> out(ret, ret + nret);
    for (size_t k = 0; k < arr.size(); k++) {
      Arr& a = arr[k];
      if (!a.out) continue;
      for (size_t i = 0; i < a.v.size(); i++) {
        if (a.used[i]) out.push_back(ptr[k][i]);
        else if (memcmp(&ptr[k][i], &init[k][i], sizeof(R))) violate(cls + "/gap-write", "%s changed element %zu of %s, which its strides skip", name.c_str(), i, a.nm);
      }
      // the rest of the pages around the array
      uint8_t *q = (uint8_t*)ptr[k], *qe = q + a.v.size() * sizeof(R);
      uint8_t *lo = (uint8_t*)((uintptr_t)q & ~(uintptr_t)4095), *hi = (uint8_t*)(((uintptr_t)qe + 4095) & ~(uintptr_t)4095);
      if (a.v.empty()) continue;
      for (uint8_t* c = lo; c < q; c++) if (*c != 0xEE) violate(cls + "/out-of-bounds-write", "%s wrote %ld bytes before %s", name.c_str(), (long)(q - c), a.nm);
      for (uint8_t* c = qe; c < hi; c++) if (*c != 0xEE) violate(cls + "/out-of-bounds-write", "%s wrote %ld bytes after the end of %s", name.c_str(), (long)(c - qe), a.nm);
      if (zero && !stop && memcmp(ptr[k], init[k].data(), init[k].size() * sizeof(R))) violate(cls + "/zero-elements", "%s with zero elements changed %s", name.c_str(), a.nm);
    }
    A.check(name.c_str());
    return out;
  }
  static bool same(R a, R b) { return rbits(a) == rbits(b) || (std::isnan(a) && std::isnan(b)) || (a == b && a == 0); }
  void compare(const std::vector<R>& a, const std::vector<R>& b, const char* kind, const char* why) {
    for (size_t i = 0; i < a.size(); i++)
      if (!same(a[i], b[i])) violate(cls + kind, "%s: output word %zu is %s in one environment and %s in another (%s)", name.c_str(), i, hexs(a[i]).c_str(), hexs(b[i]).c_str(), why);
  }
  Env env() {
    Env e;
    e.poison = ch.pick(6);
    e.atend = !ch.pick(2);
    e.gmode = ch.pick(5);
    e.gseed = ch.bits();
    e.stack = ch.pick(4);
    e.warm = ch.pick(2);
    e.flags = ch.pick(2);
    return e;
  }
  void go(bool oom) {
    draw(oom);
    warmp.start(L0);
    {  // warm library state: tables built
      In in(warmp);
      R* t = anew<R>(4 * fold);
      R v = 1;
      P::setzero(*warmp.lib, false, fold, t);
      P::add1(*warmp.lib, false, fold, &v, t);
    }
    int stop;
    long na, nb;
    Env base{0, true, 0, 1, 0, false, 0, 0};
    std::vector<R> ref = exec(base, -1, false, stop, na);
    ::R->stateh = 0;
    if (!oom) {
      int n = 2 + ch.pick(3);
      for (int i = 0; i < n; i++) {
        Env e = env();
        ev("environment: gaps hold poison %d, arrays at the %s of their pages, heap garbage %d, stack garbage %d, %s library state", e.poison, e.atend ? "end" : "start", e.gmode, e.stack, e.warm ? "warm" : "cold");
        cnt("fault.garbage_memory");
        cnt("fault.unreadable_neighbour_pages", (long long)arr.size());
        std::vector<R> o = exec(e, -1, false, stop, nb);
        compare(ref, o, "/environment", "the call is the same; only memory it must not read or rely on differs");
        if (na != nb) cnt("alloc_count_differs");
      }
      ::R->nontrivial = !zero && !arr.empty();
    } else {
      if (na == 0) { ev("no allocation"); return; }
      int n = 1 + ch.pick(2);
      for (int i = 0; i < n; i++) {
        Env e = env();
        long at = ch.pick((uint32_t)std::min<long>(na, 1000));
        bool sticky = ch.pick(2);
        std::vector<R> o = exec(e, at, sticky, stop, nb);
        ev("allocation %ld of %ld fails%s: %s", at, na, sticky ? ", and all later ones" : "", stop == 0 ? "returned" : stop == 1 ? "stopped (null dereference)" : "stopped (abort)");
        cnt(stop == 0 ? "oom.returned" : stop == 1 ? "oom.stopped_null" : "oom.stopped_abort");
        if (!stop) compare(ref, o, "/wrong-result-after-failed-allocation", "an allocation failed inside");
      }
      ::R->nontrivial = true;
    }
    uint64_t h = 7;
    for (R v : ref) h = hash2(h, rbits(v));
    state_seen(h);
    ::R->simtime += 0.001;
    ::R->tags.insert(name);
  }
  void constructors() {
    Proc p;
    p.start(L0);
    In in(p);
    Lib& L = *p.lib;
    for (int k = 0; k < 4; k++) {
      bool cx = ch.pick(2);
      int f = pick_fold(ch, T<R>::MAXFOLD);
      bool fail = ch.pick(2);
      A.fail_at = fail ? A.nlib : -1;
      R* q = nullptr;
      int stop = run_failstop([&] { q = P::alloc(L, cx, f); });
      A.fail_at = -1;
      ev("allocate fold %d %s%s -> %s", f, cx ? "complex" : "real", fail ? ", allocation fails" : "", q ? "accumulator" : "null");
      if (fail) { if (q) violate("mem.alloc/not-null", "a failed allocation returned a pointer"); continue; }
      if (stop || !q) violate("mem.alloc/null", "allocating an accumulator failed although memory is available");
      Arena::Blk* b = A.find(q);
      if (!b || b->size < P::size(L, cx, f)) violate("mem.alloc/short", "fold %d: the allocated accumulator has %zu bytes, its size is %zu", f, b ? b->size : 0, P::size(L, cx, f));
      P::setzero(L, cx, f, q);
      R v[2] = {1, 2};
      P::add1(L, cx, f, v, q);
      A.check("allocated accumulator");
      A.dealloc(q, false);
    }
    ::R->nontrivial = true;
    ::R->tags.insert("constructors");
  }
};
}  // namespace
