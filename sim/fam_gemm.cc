// A simulated cluster computing matrix-vector and matrix-matrix products: the result is cut into tiles and the inner
// dimension into panels; tasks run on simulated processes (each a build of the library with private state) in a drawn order,
// processes crash and their tasks are redone elsewhere, partial accumulators travel over a network that duplicates and
// reorders, and are merged in a drawn tree. Every entry is checked against an exact model of its own sum.
#include "gen.h"
#include "ga.h"

namespace {
template <class R> struct Gm {
  typedef API<R> P;
  Ch& ch;
  explicit Gm(Ch& c) : ch(c) {}
  bool vec, cx, hetero;
  int e, fold, M, N, K;         // result M x N, inner K (N = 1 for gemv)
  char order;
  bool row;
  int ta, tb;                   // 0 n, 1 t, 2 c
  R al[2], be[2];
  std::vector<R> opA, opB, C0;  // op(A): M x K, op(B): K x N, C: M x N, all row-major dense, e reals each
  std::string cls;
  int nn;                       // reals per accumulator
  std::vector<Model<R>> full;

  char tc(int t) { static const char* s[] = {"nN", "tT", "cC"}; return s[t][ch.pick(2)]; }
  // an m x n dense block (rows at r0, cols at c0 of op(X)) stored the way the library is told, with poisoned padding
  const R* store(const std::vector<R>& op, int cols, int r0, int r1, int c0, int c1, int t, int& ld) {
    int m = r1 - r0, n = c1 - c0;
    int rows = t ? n : m, cl = t ? m : n;                 // stored matrix
    int minor = row ? cl : rows, major = row ? rows : cl;
    ld = std::max(1, minor) + (ch.chance(1, 3) ? ch.range(1, 3) : 0);
    size_t tot = major && minor ? (size_t)(major - 1) * ld + minor : 0;
    R* b = anew<R>(tot * e);
    for (size_t i = 0; i < tot * e; i++) b[i] = std::numeric_limits<R>::quiet_NaN();
    for (int i = 0; i < m; i++)
      for (int j = 0; j < n; j++) {
        int a = t ? j : i, c = t ? i : j;                 // position in the stored matrix
        size_t o = row ? (size_t)a * ld + c : (size_t)c * ld + a;
        for (int q = 0; q < e; q++) { R v = op[((size_t)(r0 + i) * cols + c0 + j) * e + q]; b[o * e + q] = (t == 2 && q == 1) ? -v : v; }
      }
    return b;
  }
  void mul(const R* a, const R* b, R* o) const {  // complex or real product as two roundings then one
    if (!cx) { o[0] = a[0] * b[0]; return; }
    R p = a[0] * b[0], q = a[1] * b[1], s = a[0] * b[1], t = a[1] * b[0];
    o[0] = p - q;
    o[1] = s + t;
  }
  bool one(const R* a) const { return a[0] == 1 && (!cx || a[1] == 0); }
  bool zero(const R* a) const { return a[0] == 0 && (!cx || a[1] == 0); }
  void start(Model<R>& m, int i, int j) const {
    if (zero(be)) return;
    R v[2] = {C0[(i * (size_t)N + j) * e], cx ? C0[(i * (size_t)N + j) * e + 1] : 0};
    if (!one(be)) { R o[2] = {0, 0}; mul(v, be, o); v[0] = o[0]; v[1] = o[1]; }
    m.add(v);
  }
  void products(Model<R>& m, int i, int j, int k0, int k1) const {
    if (zero(al)) return;
    for (int k = k0; k < k1; k++) {
      R a[2] = {opA[(i * (size_t)K + k) * e], cx ? opA[(i * (size_t)K + k) * e + 1] : 0};
      R b[2] = {opB[(k * (size_t)N + j) * e], cx ? opB[(k * (size_t)N + j) * e + 1] : 0};
      if (!one(al)) { R* w = vec ? b : a; R o[2] = {0, 0}; mul(w, al, o); w[0] = o[0]; w[1] = o[1]; }
      if (!cx) m.a[0].add(a[0] * b[0]);
      else {
        m.a[0].add(a[0] * b[0]); m.a[0].add(-(a[1] * b[1]));
        m.a[1].add(a[0] * b[1]); m.a[1].add(a[1] * b[0]);
      }
    }
  }
  struct Tile { int r0, r1, c0, c1; };
  std::vector<int> cuts(int n, int maxparts) {
    std::vector<int> c = {0};
    int parts = 1 + ch.small(maxparts);
    for (int i = 1; i < parts && c.back() < n; i++) c.push_back(c.back() + ch.pick(n - c.back() + 1));
    c.push_back(n);
    std::sort(c.begin(), c.end());
    return c;
  }
  Lib* lib() { return LIBS[hetero ? ch.pick(LIBS.size()) : 0]; }
  // run the binned product of one tile and panel into accumulators C (ldc in tile layout)
  void task(Proc& p, const Tile& t, int k0, int k1, R* Cb, int ld) {
    int lda, ldb = 1;
    const R* a = store(opA, K, t.r0, t.r1, k0, k1, ta, lda);
    int m = t.r1 - t.r0, n = t.c1 - t.c0, k = k1 - k0;
    R* alpha = anew<R>(e);
    memcpy(alpha, al, e * sizeof(R));
    if (vec) {
      int ix = ch.chance(1, 3) ? ch.range(2, 3) : 1;
      size_t tot = k ? (size_t)(k - 1) * ix + 1 : 0;
      R* x = anew<R>(tot * e);
      for (size_t i = 0; i < tot * e; i++) x[i] = std::numeric_limits<R>::quiet_NaN();
      if (k && ch.chance(1, 8)) { x += (size_t)(k - 1) * ix * e; ix = -ix; }
      for (int i = 0; i < k; i++) for (int q = 0; q < e; q++) x[(ptrdiff_t)i * ix * e + q] = opB[(size_t)(k0 + i) * e + q];
      In in(p);
      GA<R>::bgemv(*p.lib, cx, fold, order, tc(ta), ta ? k : m, ta ? m : k, alpha, a, lda, x, ix, Cb, ld);
    } else {
      const R* b = store(opB, N, k0, k1, t.c0, t.c1, tb, ldb);
      In in(p);
      GA<R>::bgemm(*p.lib, cx, fold, order, tc(ta), tc(tb), m, n, k, alpha, a, lda, b, ldb, Cb, ld);
    }
  }
  size_t at(const Tile& t, int ld, int i, int j) const {  // accumulator index inside a tile
    (void)t;
    if (vec) return (size_t)i * ld;
    return row ? (size_t)i * ld + j : (size_t)j * ld + i;
  }
  static constexpr int GAP = -321;
  R* blank(Lib& L, const Tile& t, int& ld, size_t& cells) {
    int m = t.r1 - t.r0, n = t.c1 - t.c0;
    int minor = vec ? 1 : row ? n : m, major = vec ? m : row ? m : n;
    ld = std::max(1, minor) + (ch.chance(1, 3) ? ch.range(1, 2) : 0);
    cells = major && minor ? (size_t)(major - 1) * ld + minor : 0;
    R* c = anew<R>(cells * nn);
    for (size_t i = 0; i < cells * nn; i++) c[i] = (R)GAP;
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) P::setzero(L, cx, fold, c + at(t, ld, i, j) * nn);
    return c;
  }
  void gaps(const Tile& t, const R* c, int ld, size_t cells, const char* what) {
    int m = t.r1 - t.r0, n = t.c1 - t.c0;
    std::vector<char> used(cells, 0);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) used[at(t, ld, i, j)] = 1;
    for (size_t q = 0; q < cells; q++) if (!used[q]) for (int w = 0; w < nn; w++) if (c[q * nn + w] != (R)GAP) violate(cls + "/gap", "%s: an accumulator between the result's rows was overwritten", what);
  }
  void go(const std::string& prof) {
    vec = prof.compare(0, 4, "gemv") == 0;
    hetero = prof.find("hetero") != std::string::npos;
    cx = ch.pick(2);
    e = cx ? 2 : 1;
    order = "rcRC"[ch.pick(4)];
    row = order == 'r' || order == 'R';
    ta = ch.pick(3);
    tb = vec ? 0 : ch.pick(3);
    fold = pick_fold(ch, T<R>::MAXFOLD);
    cls = std::string(vec ? "gemv." : "gemm.") + (cx ? "z" : "") ;
    cls += row ? "r" : "c";
    cls += "ntc"[ta];
    if (!vec) cls += "ntc"[tb];
    uint32_t sz = ch.pick(20);
    if (vec) {
      N = 1;
      if (sz < 12) { M = ch.pick(13); K = ch.pick(13); }
      else if (sz < 17) { M = 1 + ch.pick(70); K = 1 + ch.pick(70); }
      else if (sz == 17) { M = 1 + ch.pick(3); K = 500 + ch.pick(9000); if (sizeof(R) == 4 && ch.pick(2)) K += 8000; fold = std::min(fold, 4); }
      else if (sz == 18) { M = 200 + ch.pick(900); K = 1 + ch.pick(4); fold = std::min(fold, 6); }
      else { M = 1 + ch.pick(9); K = 100 + ch.pick(500); }
    } else {
      if (sz < 12) { M = ch.pick(7); N = ch.pick(7); K = ch.pick(9); }
      else if (sz < 16) { M = 1 + ch.pick(24); N = 1 + ch.pick(24); K = 1 + ch.pick(12); }
      else if (sz == 16) { M = 1 + ch.pick(2); N = 1 + ch.pick(2); K = 100 + ch.pick(2000); }
      else if (sz == 17) { M = 30 + ch.pick(60); N = 1 + ch.pick(5); K = 1 + ch.pick(4); }
      else if (sz == 18) { M = 1 + ch.pick(5); N = 30 + ch.pick(110); K = 1 + ch.pick(4); }
      else { M = 20 + ch.pick(50); N = 20 + ch.pick(50); K = 1 + ch.pick(2); }
      if (sz >= 16) fold = std::min(fold, 5);
    }
    nn = (cx ? 4 : 2) * fold;
    int hi = T<R>::MAXEXP / 2 - 12, lo = -(T<R>::MAXEXP / 2 + (ch.pick(4) == 3 ? T<R>::MANT : 0));
    // scalars
    static const double sc[] = {1, 0, -1, 2, 0.5, 3, -0.3, 1.7};
    auto scalar = [&](R* s) {
      int k = ch.pick(10);
      s[0] = (R)(k < 8 ? sc[k] : std::ldexp(1.0 + ch.pick(1000) / 1001.0, (int)ch.pick(9) - 4));
      s[1] = 0;
      if (cx && ch.pick(2)) { int k2 = ch.pick(8); s[1] = (R)sc[k2 == 0 ? 1 : k2 == 1 ? 0 : k2]; }
    };
    scalar(al);
    scalar(be);
    Gen<R> g;
    auto fill = [&](std::vector<R>& v, size_t n) {
      g.hist.clear();
      g.configure(ch, n * e, hi, lo);
      for (size_t i = 0; i < n * e; i++) v.push_back(g.next(ch));
    };
    fill(opA, (size_t)M * K);
    fill(opB, (size_t)K * N);
    fill(C0, (size_t)M * N);
    ev("%s %s%s order %c transA %c%s%c fold %d M=%d N=%d K=%d alpha=(%s,%s) beta=(%s,%s)", vec ? "gemv" : "gemm", cx ? "complex " : "", sizeof(R) == 8 ? "double" : "float", order, "ntc"[ta], vec ? " " : " transB ",
       vec ? ' ' : "ntc"[tb], fold, M, N, K, hexs(al[0]).c_str(), hexs(al[1]).c_str(), hexs(be[0]).c_str(), hexs(be[1]).c_str());
    bool quick_return = vec && (M == 0 || K == 0);
    // ---- one call on one process
    Proc p1;
    p1.start(lib());
    int ld1 = 1;
    R* C1;
    size_t cells1;
    Tile all{0, M, 0, N};
    bool yback = vec && M && ch.chance(1, 8);   // the result vector is walked backwards
    auto at1 = [&](int ld, int i, int j) { return at(all, ld, yback ? M - 1 - i : i, j); };
    {
      int lda, ldb = 1;
      const R* a = store(opA, K, 0, M, 0, K, ta, lda);
      int minor = vec ? 1 : row ? N : M, major = vec ? M : row ? M : N;
      ld1 = std::max(1, minor) + (ch.chance(1, 3) ? ch.range(1, 3) : 0);
      cells1 = major && minor ? (size_t)(major - 1) * ld1 + minor : 0;
      C1 = anew<R>(cells1 * e);
      for (size_t i = 0; i < cells1 * e; i++) C1[i] = (R)GAP;
      bool poison = zero(be) && ch.pick(2);   // with beta = 0 the old contents must not matter
      for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) for (int q = 0; q < e; q++) C1[at1(ld1, i, j) * e + q] = poison && !quick_return ? std::numeric_limits<R>::quiet_NaN() : C0[((size_t)i * N + j) * e + q];
      R *alpha = anew<R>(e), *beta = anew<R>(e);
      memcpy(alpha, al, e * sizeof(R));
      memcpy(beta, be, e * sizeof(R));
      int kk = fold == 3 && ch.pick(2) ? 0 : fold;
      if (vec) {
        int ix = ch.chance(1, 3) ? 2 : 1;
        size_t tot = K ? (size_t)(K - 1) * ix + 1 : 0;
        R* x = anew<R>(tot * e);
        for (size_t i = 0; i < tot * e; i++) x[i] = std::numeric_limits<R>::quiet_NaN();
        if (K && ch.chance(1, 8)) { x += (size_t)(K - 1) * ix * e; ix = -ix; }
        for (int i = 0; i < K; i++) for (int q = 0; q < e; q++) x[(ptrdiff_t)i * ix * e + q] = opB[(size_t)i * e + q];
        In in(p1);
        GA<R>::gemv(*p1.lib, cx, kk, order, tc(ta), ta ? K : M, ta ? M : K, alpha, a, lda, x, ix, beta, yback ? C1 + (size_t)(M - 1) * ld1 * e : C1, yback ? -ld1 : ld1);
      } else {
        const R* b = store(opB, N, 0, K, 0, N, tb, ldb);
        In in(p1);
        GA<R>::gemm(*p1.lib, cx, kk, order, tc(ta), tc(tb), M, N, K, alpha, a, lda, b, ldb, beta, C1, ld1);
      }
    }
    // ---- the model of every entry
    full.assign((size_t)M * N, Model<R>(fold, cx));
    std::vector<R> want((size_t)M * N * e);
    {
      In in(p1);
      R* pk = anew<R>(nn);
      for (int i = 0; i < M; i++)
        for (int j = 0; j < N; j++) {
          Model<R>& m = full[(size_t)i * N + j];
          start(m, i, j);
          products(m, i, j, 0, K);
          m.expect(pk);
          R o[2] = {0, 0};
          P::conv(*LIBS[0], cx, fold, pk, o);
          for (int q = 0; q < e; q++) want[((size_t)i * N + j) * e + q] = quick_return ? C0[((size_t)i * N + j) * e + q] : o[q];
        }
    }
    auto compare = [&](const R* c, int ld, const char* what) {
      for (int i = 0; i < M; i++)
        for (int j = 0; j < N; j++)
          for (int q = 0; q < e; q++) {
            R a = c[at1(ld, i, j) * e + q], b = want[((size_t)i * N + j) * e + q];
            if (!(a == b)) violate(cls + "/entry", "%s: entry (%d,%d) component %d is %s, its reproducible sum is %s", what, i, j, q, hexs(a).c_str(), hexs(b).c_str());
          }
    };
    compare(C1, ld1, "one call");
    {
      std::vector<char> used(cells1, 0);
      for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) used[at1(ld1, i, j)] = 1;
      for (size_t q = 0; q < cells1; q++) if (!used[q]) for (int w = 0; w < e; w++) if (C1[q * e + w] != (R)GAP) violate(cls + "/gap", "one call: memory between the result's rows was overwritten");
    }
    // ---- the distributed execution
    int NPr = 1 + ch.pick(4);
    std::vector<Proc> pr(NPr);
    for (auto& p : pr) p.start(lib());
    double now = 0;
    std::vector<int> rc = cuts(M, 3), cc = vec ? std::vector<int>{0, 1} : cuts(N, 3), kc = cuts(K, 4);
    std::vector<R> got((size_t)M * N * e, (R)0);
    int crashes = ch.pick(3);
    for (size_t ri = 0; ri + 1 < rc.size(); ri++)
      for (size_t ci = 0; ci + 1 < cc.size(); ci++) {
        Tile t{rc[ri], rc[ri + 1], cc[ci], cc[ci + 1]};
        int m = t.r1 - t.r0, n = t.c1 - t.c0;
        if (!m || !n) continue;
        // panels to processes
        int np = kc.size() - 1;
        std::vector<std::vector<int>> mine(NPr);
        for (int k = 0; k < np; k++) mine[ch.pick(NPr)].push_back(k);
        std::vector<R*> part(NPr, nullptr);
        std::vector<int> ld(NPr, 1);
        std::vector<size_t> cells(NPr, 0);
        std::vector<std::vector<Model<R>>> pm(NPr);
        int owner = ch.pick(NPr);       // adds beta times the old entry, at the start or at the end
        bool betafirst = ch.pick(2);
        std::vector<int> order_ = {};
        for (int p = 0; p < NPr; p++) if (!mine[p].empty() || p == owner) order_.push_back(p);
        for (size_t i = order_.size(); i > 1; i--) std::swap(order_[i - 1], order_[ch.pick(i)]);
        auto addbeta = [&](int p) {
          if (zero(be)) return;
          In in(pr[p]);
          for (int i = 0; i < m; i++)
            for (int j = 0; j < n; j++) {
              R v[2] = {C0[((size_t)(t.r0 + i) * N + t.c0 + j) * e], cx ? C0[((size_t)(t.r0 + i) * N + t.c0 + j) * e + 1] : 0};
              if (!one(be)) { R o[2] = {0, 0}; mul(v, be, o); v[0] = o[0]; v[1] = o[1]; }
              P::add1(*pr[p].lib, cx, fold, v, part[p] + at(t, ld[p], i, j) * nn);
              start(pm[p][i * n + j], t.r0 + i, t.c0 + j);
            }
        };
        auto verify = [&](int p, const char* what) {
          for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) check_state(pm[p][i * n + j], part[p] + at(t, ld[p], i, j) * nn, cls, what);
          gaps(t, part[p], ld[p], cells[p], what);
        };
        for (int p : order_) {
          bool retry = true;
          while (retry) {
            retry = false;
            part[p] = blank(*pr[p].lib, t, ld[p], cells[p]);
            pm[p].assign((size_t)m * n, Model<R>(fold, cx));
            if (p == owner && betafirst) addbeta(p);
            std::vector<int> ks = mine[p];
            for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[ch.pick(i)]);
            for (int k : ks) {
              task(pr[p], t, kc[k], kc[k + 1], part[p], ld[p]);
              for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) products(pm[p][i * n + j], t.r0 + i, t.c0 + j, kc[k], kc[k + 1]);
              now += 0.01 * (1 + ch.small(20));
              ev("t=%.3f process %d (%s): rows %d..%d cols %d..%d panel %d..%d", now, p, pr[p].lib->name.c_str(), t.r0, t.r1, t.c0, t.c1, kc[k], kc[k + 1]);
              verify(p, "after a panel");
              if (crashes > 0 && ch.chance(1, 5)) {
                crashes--;
                cnt("fault.crash");
                ev("t=%.3f process %d crashes and its tile is redone", now, p);
                pr[p].start(lib());
                retry = true;
                break;
              }
            }
          }
          if (p == owner && !betafirst) addbeta(p);
        }
        // merge in a drawn order; the source travels as bytes
        while (order_.size() > 1) {
          int si = ch.pick(order_.size());
          int s = order_[si];
          order_.erase(order_.begin() + si);
          int d = order_[ch.pick(order_.size())];
          if (ch.pick(4) == 3) { cnt("fault.msg_duplicated"); cnt("net.duplicate_ignored"); }
          {
            In in(pr[d]);
            Lib& L = *pr[d].lib;
            for (int i = 0; i < m; i++)
              for (int j = 0; j < n; j++) {
                R* x = anew<R>(nn);
                memcpy(x, part[s] + at(t, ld[s], i, j) * nn, nn * sizeof(R));
                P::badd(L, cx, fold, x, part[d] + at(t, ld[d], i, j) * nn);
                pm[d][i * n + j].merge(pm[s][i * n + j]);
              }
          }
          cnt("merges");
          now += 0.01 * (1 + ch.small(20));
          ev("t=%.3f process %d merges the partial tile of %d", now, d, s);
          verify(d, "after a merge");
        }
        int d = order_[0];
        In in(pr[d]);
        for (int i = 0; i < m; i++)
          for (int j = 0; j < n; j++) {
            R o[2] = {0, 0};
            P::conv(*pr[d].lib, cx, fold, part[d] + at(t, ld[d], i, j) * nn, o);
            for (int q = 0; q < e; q++) got[((size_t)(t.r0 + i) * N + t.c0 + j) * e + q] = o[q];
          }
      }
    if (!quick_return)
      for (size_t i = 0; i < got.size(); i++) if (!(got[i] == want[i])) violate(cls + "/distributed", "entry %zu of the distributed product is %s, the one-process result is %s", i / e, hexs(got[i]).c_str(), hexs(want[i]).c_str());
    ::R->simtime += now;
    ::R->nontrivial = M && N && K >= 1 && !zero(al);
    ::R->tags.insert(cls + (sizeof(R) == 8 ? ".double" : ".float"));
    A.check("gemm");
  }
};
void run_gemm(const std::string& prof) {
  Ch& ch = R->ch;
  A.reset(ch.bits(), ch.pick(5));
  if (ch.pick(2) == 0) { Gm<double> s(ch); s.go(prof); }
  else { Gm<float> s(ch); s.go(prof); }
}
RegFamily reg("gemm", run_gemm);
}  // namespace
