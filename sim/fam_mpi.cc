// A simulated MPI world. Ranks are process images that ask the library for operators and datatypes;
// the simulator plays the MPI implementation: it creates the handles, moves buffers of exactly the
// datatype's size, and executes collectives by algorithms, segmentations and arrival orders it draws.
#include "gen.h"
#include "handles.h"

namespace {
enum { K_REAL, K_CPLX, K_SCALED };
static const char* kn[] = {"real", "complex", "scaled"};
enum { AL_LINEAR, AL_BINOMIAL, AL_CHAIN, AL_RDBL, AL_RING, AL_RSCAT, AL_SCAN, AL_SHM, AL_N };
static const char* an[] = {"linear", "tree", "chain", "recursive-doubling", "ring", "reduce-scatter-gather", "scan", "shared-memory"};

template <class R> struct Mpi {
  typedef API<R> P;
  Ch& ch;
  explicit Mpi(Ch& c) : ch(c) {}
  int kind, fold, NP, L;      // L: elements per buffer
  bool cx;
  long esz;                   // bytes per element by the datatype
  int words;                  // reals per element
  double now = 0;
  struct Val { std::vector<int> src; };   // which ranks' contributions a buffer element holds (multiset)
  struct Rank { Proc p; MPI_Op op = 0; MPI_Datatype ty = 0; };
  std::vector<Rank> rk;
  std::vector<std::vector<std::vector<R>>> data;  // [rank][element] inputs (interleaved)
  std::vector<std::vector<Model<R>>> mod;         // [rank][element] (not scaled)
  struct Buf { uint8_t* p; int rank; std::vector<std::vector<int>> holds; };
  std::vector<Buf> bufs;
  std::string cls;

  int newbuf(int rank) {
    Buf b;
    b.p = (uint8_t*)A.alloc((size_t)esz * L, false, sizeof(R));
    b.rank = rank;
    b.holds.resize(L);
    bufs.push_back(b);
    return (int)bufs.size() - 1;
  }
  int copybuf(int from, int rank, int lo, int hi) {  // what arrives at `rank`
    int b = newbuf(rank);
    move(from, b, lo, hi);
    return b;
  }
  void move(int from, int to, int lo, int hi) {
    memcpy(bufs[to].p + lo * esz, bufs[from].p + lo * esz, (size_t)(hi - lo) * esz);
    for (int e = lo; e < hi; e++) bufs[to].holds[e] = bufs[from].holds[e];
  }
  void expect(int b, int e, const char* what) {
    const R* y = (const R*)(bufs[b].p + e * esz);
    const std::vector<int>& src = bufs[b].holds[e];
    if (kind == K_SCALED) {
      R mx = 0;
      bool any = false, sp = false;
      for (int s : src) for (R v : data[s][e]) { any = true; if (is_fin(v)) mx = std::max(mx, (R)std::fabs(v)); else sp = true; }
      if (!any) return;
      R sc = y[0];
      if (!sp) {
        R es = P::scale(*rk[0].p.lib, mx);
        if (sc != es) violate(cls + "/scale", "%s, element %d: scale %s, the contributions imply %s", what, e, hexs(sc).c_str(), hexs(es).c_str());
      } else sc = 1;
      Model<R> m(fold, false);
      for (int s : src) for (R v : data[s][e]) { if (!is_fin(v)) m.a[0].add(std::fabs(v)); else { R q = v / sc; m.a[0].add(q * q); } }
      check_state(m, y + 1, cls, what);
    } else {
      Model<R> m(fold, cx);
      for (int s : src) m.merge(mod[s][e]);
      check_state(m, y, cls, what);
    }
  }
  // inout[lo,hi) = in[lo,hi) + inout[lo,hi), executed by `rank`
  void apply(int rank, int in, int inout, int lo, int hi, const char* what) {
    if (lo >= hi) return;
    Rank& r = rk[rank];
    uint8_t *a = bufs[in].p + lo * esz, *b = bufs[inout].p + lo * esz;
    std::vector<uint8_t> before(a, a + (hi - lo) * esz);
    {
      In g(r.p);
      int n = hi - lo;
      MPI_Datatype t = r.ty;
      ((SimOp*)r.op)->fn(a, b, &n, &t);
      if (n != hi - lo) violate(cls + "/length-changed", "the operator changed the element count it was given");
    }
    if (memcmp(before.data(), a, before.size())) violate(cls + "/source-changed", "%s: rank %d's operator call changed its source operand", what, rank);
    for (int e = lo; e < hi; e++) bufs[inout].holds[e].insert(bufs[inout].holds[e].end(), bufs[in].holds[e].begin(), bufs[in].holds[e].end());
    ev("t=%.3f rank %d combines elements %d..%d of buffer %d into %d", now, rank, lo, hi - 1, in, inout);
    for (int e = lo; e < hi; e++) expect(inout, e, what);
    cnt("mpi.op_calls");
    cnt("mpi.elements_combined", hi - lo);
    now += 0.001 * (1 + ch.small(60));
  }
  std::vector<int> perm(int n) {
    std::vector<int> v(n);
    for (int i = 0; i < n; i++) v[i] = i;
    for (int i = n - 1; i > 0; i--) { int j = i - (int)ch.pick(i + 1); std::swap(v[i], v[j]); }
    return v;
  }
  std::vector<std::pair<int, int>> segments() {
    std::vector<std::pair<int, int>> s;
    int m = ch.pick(3);
    if (m == 0) { s.push_back({0, L}); return s; }
    for (int at = 0; at < L;) { int n = m == 1 ? 1 + ch.pick(L - at) : std::min(L - at, 1 + (int)ch.pick(3)); s.push_back({at, at + n}); at += n; }
    return s;
  }
  void all_equal_full(const std::vector<int>& b, const char* what) {
    for (int x : b) for (int e = 0; e < L; e++) {
      if ((int)bufs[x].holds[e].size() != NP) throw HarnessError{"mpi: algorithm lost contributions"};
      expect(x, e, what);
    }
    if (specials_run) return;   // below the top slot an accumulator holding a special value is unspecified
    for (size_t i = 1; i < b.size(); i++)
      for (long k = 0; k < L * esz / (long)sizeof(R); k++) {
        R u = ((R*)bufs[b[0]].p)[k], v = ((R*)bufs[b[i]].p)[k];
        if (!(u == v) && !(std::isnan(u) && std::isnan(v))) violate(cls + "/ranks-differ", "%s: word %ld differs between two receiving ranks (%s, %s)", what, k, hexs(u).c_str(), hexs(v).c_str());
      }
  }
  // ---- collectives. start: each rank's working buffer
  void run(int alg, std::vector<int> w, int root) {
    auto sg = segments();
    const char* what = an[alg];
    switch (alg) {
      case AL_LINEAR: {  // the root combines in arrival order, each segment on its own
        for (auto& s : sg) {
          std::vector<int> o = perm(NP);
          for (int r : o) if (r != root) apply(root, copybuf(w[r], root, s.first, s.second), w[root], s.first, s.second, what);
        }
        all_equal_full({w[root]}, what);
        break;
      }
      case AL_BINOMIAL: case AL_CHAIN: case AL_SHM: {
        // one drawn tree; per segment tasks become ready when a child's subtree is complete; ready tasks run in drawn order
        std::vector<int> par(NP, -1), o = perm(NP);
        for (int i = 0; i < NP; i++) if (o[i] == root) std::swap(o[0], o[i]);
        for (int i = 1; i < NP; i++) par[o[i]] = alg == AL_CHAIN ? o[i - 1] : alg == AL_BINOMIAL ? o[i & (i - 1)] : o[ch.pick(i)];
        struct Tk { int seg, child; };
        std::vector<Tk> todo;
        std::vector<std::vector<int>> left(sg.size(), std::vector<int>(NP, 0));
        for (size_t s = 0; s < sg.size(); s++) for (int r = 0; r < NP; r++) if (par[r] >= 0) { todo.push_back({(int)s, r}); left[s][par[r]]++; }
        while (!todo.empty()) {
          std::vector<int> ready;
          for (size_t i = 0; i < todo.size(); i++) if (!left[todo[i].seg][todo[i].child]) ready.push_back(i);
          int k = ready[ch.pick(ready.size())];
          Tk t = todo[k];
          todo.erase(todo.begin() + k);
          int p = par[t.child];
          auto s = sg[t.seg];
          if (alg == AL_SHM) apply(p, w[t.child], w[p], s.first, s.second, what);   // straight from the peer's buffer
          else if (ch.pick(3) == 2) {
            // commuted: own value is the source, the received copy becomes the result
            int c = copybuf(w[t.child], p, s.first, s.second);
            apply(p, w[p], c, s.first, s.second, what);
            move(c, w[p], s.first, s.second);
          } else apply(p, copybuf(w[t.child], p, s.first, s.second), w[p], s.first, s.second, what);
          left[t.seg][p]--;
        }
        all_equal_full({w[root]}, what);
        break;
      }
      case AL_RDBL: {
        std::vector<int> o = perm(NP);
        int p2 = 1;
        while (p2 * 2 <= NP) p2 *= 2;
        for (int i = p2; i < NP; i++) apply(o[i - p2], copybuf(w[o[i]], o[i - p2], 0, L), w[o[i - p2]], 0, L, what);
        for (int d = 1; d < p2; d *= 2) {
          // both partners exchange their current values before either combines
          std::vector<int> got(p2);
          for (int i = 0; i < p2; i++) got[i] = copybuf(w[o[i ^ d]], o[i], 0, L);
          for (int i : perm(p2)) for (auto& s : sg) apply(o[i], got[i], w[o[i]], s.first, s.second, what);
        }
        for (int i = p2; i < NP; i++) move(w[o[i - p2]], w[o[i]], 0, L);
        all_equal_full(w, what);
        break;
      }
      case AL_RING: case AL_RSCAT: {
        // blocks: rank i ends up owning block i
        std::vector<int> cut(NP + 1, 0);
        cut[NP] = L;
        for (int i = 1; i < NP; i++) cut[i] = L * i / NP;
        std::vector<int> o = perm(NP);
        if (alg == AL_RING)
          for (int st = 0; st < NP - 1; st++) {
            std::vector<int> got(NP), blk(NP);
            for (int i = 0; i < NP; i++) { int from = (i + NP - 1) % NP; blk[i] = ((from - st - 1) % NP + NP) % NP; got[i] = copybuf(w[o[from]], o[i], cut[blk[i]], cut[blk[i] + 1]); }
            for (int i : perm(NP)) apply(o[i], got[i], w[o[i]], cut[blk[i]], cut[blk[i] + 1], what);
          }
        else
          for (int i : perm(NP)) {  // pairwise
            std::vector<int> q = perm(NP);
            std::vector<int> snap;
            for (int j : q) if (j != i) snap.push_back(copybuf(orig[o[j]], o[i], cut[i], cut[i + 1]));
            for (int b : snap) apply(o[i], b, w[o[i]], cut[i], cut[i + 1], what);
          }
        // allgather
        for (int i = 0; i < NP; i++) {
          int owner = i;
          if (alg == AL_RING) {
            owner = -1;
            for (int j = 0; j < NP; j++) if (cut[i] == cut[i + 1] || (int)bufs[w[o[j]]].holds[cut[i]].size() == NP) { owner = j; break; }
            if (owner < 0) throw HarnessError{"mpi: ring lost a block"};
          }
          for (int j = 0; j < NP; j++) if (j != owner) move(w[o[owner]], w[o[j]], cut[i], cut[i + 1]);
        }
        all_equal_full(w, what);
        break;
      }
      case AL_SCAN: {  // inclusive prefixes travel up the ranks
        for (int i = 1; i < NP; i++) apply(i, copybuf(w[i - 1], i, 0, L), w[i], 0, L, what);
        for (int i = 0; i < NP; i++) for (int e = 0; e < L; e++) expect(w[i], e, what);
        break;
      }
    }
  }
  std::vector<int> orig;

  bool specials_run = false;
  void go(bool specials) {
    specials_run = specials;
    kind = ch.pick(3);
    cx = kind == K_CPLX;
    cls = std::string("mpi.") + kn[kind];
    int fk = ch.pick(4);
    fold = fk == 0 ? 3 : fk < 3 ? ch.range(2, T<R>::MAXFOLD) : pick_fold(ch, T<R>::MAXFOLD);
    NP = 1 + ch.pick(9);
    L = 1 + ch.small(24);
    bool longbuf = ch.chance(1, 40);   // few ranks, long buffers
    if (longbuf) { NP = 1 + NP % 3; L = ch.range(25, 400); fold = 2 + fold % 3; cnt("probe.long_buffers"); }
    words = (cx ? 4 : 2) * fold + (kind == K_SCALED);
    rk.resize(NP);
    Gen<R> g;
    bool deep = kind == K_SCALED && fold > (sizeof(R) == 8 ? 24 : 8);
    int maxn = longbuf ? 2 : 1 + ch.small(12);
    if (deep) g.configure(ch, 64, 4, -4, RG_UNIT | RG_INT | RG_SAME | RG_CANCEL);
    else g.configure(ch, 64, T<R>::MAXEXP, T<R>::MINEXP - T<R>::MANT);
    ev("%s %s accumulators, fold %d, %d per buffer, %d ranks", sizeof(R) == 8 ? "double" : "float", kn[kind], fold, L, NP);
    std::vector<int> w(NP);
    for (int r = 0; r < NP; r++) {
      rk[r].p.start(LIBS[0]);
      In in(rk[r].p);
      Lib& l = *LIBS[0];
      // handles may be asked for in either order and again later
      bool first = ch.pick(2);
      if (first) rk[r].ty = kind == K_SCALED ? MpiNames<R>::tysq(l, fold) : MpiNames<R>::ty(l, cx, fold);
      rk[r].op = kind == K_SCALED ? MpiNames<R>::opsq(l, fold) : MpiNames<R>::op(l, cx, fold);
      if (!first) rk[r].ty = kind == K_SCALED ? MpiNames<R>::tysq(l, fold) : MpiNames<R>::ty(l, cx, fold);
      SimType* t = (SimType*)rk[r].ty;
      SimOp* o = (SimOp*)rk[r].op;
      if (!t || t->magic != 0x7e7e7e7eu || t->freed) violate(cls + "/handle", "rank %d got an invalid datatype for fold %d", r, fold);
      if (!o || o->magic != 0x0b0b0b0bu || o->freed) violate(cls + "/handle", "rank %d got an invalid operator for fold %d", r, fold);
      if (!t->committed) violate(cls + "/handle", "rank %d got an uncommitted datatype for fold %d", r, fold);
      if (t->size != (long)(words * sizeof(R))) violate(cls + "/size", "the datatype for fold %d describes %ld bytes, the value has %zu", fold, t->size, words * sizeof(R));
      esz = t->size;
      data.push_back({});
      mod.push_back({});
    }
    for (int r = 0; r < NP; r++) {
      In in(rk[r].p);
      Lib& l = *LIBS[0];
      w[r] = newbuf(r);
      data[r].resize(L);
      for (int e = 0; e < L; e++) {
        R* y = (R*)(bufs[w[r]].p + e * esz);
        int n = ch.pick(maxn + 1);
        if (kind == K_SCALED) { y[0] = 0; P::setzero(l, false, fold, y + 1); }
        else P::setzero(l, cx, fold, y);
        Model<R> m(fold, cx);
        std::vector<R> v;
        for (int i = 0; i < n; i++) {
          R x[2] = {g.next(ch), cx ? g.next(ch) : 0};
          if (specials && ch.pick(40) == 39) { x[ch.pick(cx ? 2 : 1)] = ch.pick(3) == 0 ? (R)NAN : ch.pick(2) ? (R)INFINITY : -(R)INFINITY; cnt("input.special_value"); }
          v.push_back(x[0]);
          if (cx) v.push_back(x[1]);
          m.add(x);
        }
        data[r][e] = v;
        mod[r].push_back(m);
        R* x = anew<R>(v.size() + 1);
        if (!v.empty()) memcpy(x, v.data(), v.size() * sizeof(R));
        if (kind == K_SCALED) y[0] = P::ssq(l, false, fold, n, x, 1, y[0], y + 1);
        else P::sum(l, cx, fold, n, x, 1, y);
        if (ch.chance(1, 16) && n) {   // a long history in few steps: merge the contribution with itself again and again
          int dbl = 1 + ch.pick(kind == K_SCALED ? 7 : 12);
          for (int k = 0; k < dbl; k++) {
            R* t = anew<R>(words);
            memcpy(t, y, words * sizeof(R));
            if (kind == K_SCALED) y[0] = P::baddsq(l, fold, t[0], t + 1, y[0], y + 1);
            else P::badd(l, cx, fold, t, y);
            Model<R> o = m;
            m.merge(o);
            std::vector<R> v2 = data[r][e];
            if (kind == K_SCALED) data[r][e].insert(data[r][e].end(), v2.begin(), v2.end());
          }
          mod[r].back() = m;
          cnt("workload.doubled");
        }
        bufs[w[r]].holds[e] = {r};
        expect(w[r], e, "local contribution");
      }
    }
    int nc = 1 + ch.pick(2);
    for (int c = 0; c < nc; c++) {
      int alg = ch.pick(AL_N), root = ch.pick(NP);
      bool inplace = ch.pick(2);
      ev("t=%.3f collective %d: %s, root %d, %s", now, c, an[alg], root, inplace && c == nc - 1 ? "in place" : "separate buffers");
      std::vector<int> cur = w;
      if (!(inplace && c == nc - 1) || alg == AL_RSCAT) {   // send buffers must come out untouched
        for (int r = 0; r < NP; r++) cur[r] = copybuf(w[r], r, 0, L);
      }
      orig = w;
      std::vector<std::vector<uint8_t>> snap;
      for (int r = 0; r < NP; r++) snap.push_back({bufs[w[r]].p, bufs[w[r]].p + L * esz});
      run(alg, cur, root);
      if (cur != w) for (int r = 0; r < NP; r++) if (memcmp(snap[r].data(), bufs[w[r]].p, L * esz)) violate(cls + "/source-changed", "rank %d's send buffer changed", r);
      R_->tags.insert(std::string("alg.") + an[alg]);
    }
    // asking again gives the same handles
    for (int r = 0; r < NP; r++) {
      In in(rk[r].p);
      Lib& l = *LIBS[0];
      if ((kind == K_SCALED ? MpiNames<R>::opsq(l, fold) : MpiNames<R>::op(l, cx, fold)) != rk[r].op || (kind == K_SCALED ? MpiNames<R>::tysq(l, fold) : MpiNames<R>::ty(l, cx, fold)) != rk[r].ty)
        violate(cls + "/handle", "asking again for fold %d gave another handle", fold);
    }
    R_->simtime += now;
    R_->nontrivial = NP >= 2;
    R_->tags.insert(std::string("kind.") + kn[kind] + (sizeof(R) == 8 ? ".double" : ".float"));
    R_->tags.insert("fold." + std::to_string(fold));
    A.check("mpi");
  }
  Run* R_ = ::R;
};

// ---- C05: histories of handle requests with failing MPI calls
template <class R> static void try_op(Lib& L, SimOp* o, int h, int fold) {
  typedef API<R> P;
  bool cx = h_cx(h), sc = h_sc(h);
  int w = (cx ? 4 : 2) * fold + sc;
  int n = 2;
  R *a = anew<R>(n * w), *b = anew<R>(n * w);
  Model<R> m[2] = {Model<R>(fold, cx), Model<R>(fold, cx)};
  R scale = sc ? P::scale(L, 1) : 1;
  for (int e = 0; e < n; e++)
    for (R* y : {a, b}) {
      R* z = y + e * w;
      R v[2] = {(R)((1 + e) * (y == a ? 3 : 5)), (R)-2};
      if (sc) { v[0] = (R)1 + (R)e / 4 + (y == a ? (R)0.125 : 0); z[0] = 0; P::setzero(L, false, fold, z + 1); R* x = anew<R>(1); x[0] = v[0]; z[0] = P::ssq(L, false, fold, 1, x, 1, z[0], z + 1); v[0] = (v[0] / scale) * (v[0] / scale); }
      else { P::setzero(L, cx, fold, z); P::add1(L, cx, fold, v, z); }
      m[e].add(v);
    }
  MPI_Datatype ty = sc ? MpiNames<R>::tysq(L, fold) : MpiNames<R>::ty(L, cx, fold);
  o->fn(a, b, &n, &ty);
  for (int e = 0; e < n; e++) {
    if (sc && b[e * w] != scale) violate("handles/operator", "%s for fold %d: wrong scale after combining", hn[h], fold);
    check_state(m[e], b + e * w + sc, std::string("handles/operator.") + hn[h], "combining with the returned operator");
  }
}
static void handles() {
  Ch& ch = R->ch;
  Proc p;
  p.start(LIBS[0]);
  std::map<std::pair<int, int>, void*> have;
  std::set<void*> all;
  int n = 1 + ch.pick(14);
  std::vector<std::pair<int, int>> recent;
  bool stubborn = ch.pick(3) == 2;
  bool faults = ch.pick(4) != 0;
  int nf = 0, lives = 1;
  for (int i = 0; i < n; i++) {
    int h, fold;
    if (!recent.empty() && ch.chance(2, 5)) { auto q = recent[ch.pick(recent.size())]; h = q.first; fold = q.second; if (ch.pick(4) == 3) h = ch.pick(12); if (fold > (h_dbl(h) ? 52 : 21)) fold = 21; }
    else { h = ch.pick(12); int mf = h_dbl(h) ? 52 : 21; int k = ch.pick(4); fold = k == 0 ? 3 : k == 1 ? mf - (int)ch.pick(2) : ch.range(2, mf); }
    recent.push_back({h, fold});
    bool isop = h < 6;
    bool wantfail = faults && ch.chance(1, 3);
    M.fail_call = wantfail ? M.calls + ch.pick(3) : -1;
    M.fail_code = ch.pick(4);
    M.abort_returns = stubborn;
    long f0 = M.nfailed, a0 = M.naborts;
    void* got = nullptr;
    bool died = false;
    {
      In in(p);
      try { got = request(*LIBS[0], h, fold); } catch (SimAbort& a) { died = true; }
    }
    M.fail_call = -1;
    bool failed = M.nfailed > f0;
    ev("request %d: %s(%d)%s%s", i, hn[h], fold, failed ? " [MPI call failed]" : "", died ? " -> job aborted" : "");
    if (failed) {
      nf++;
      if (M.naborts == a0) violate("handles/failure-not-reported", "%s(%d): an MPI call failed and the job was not aborted", hn[h], fold);
      if (M.last_abort_code == 0) violate("handles/abort-code", "%s(%d): aborted the job with the success code", hn[h], fold);
      if (!died) {
        if (got != nullptr && got != (void*)MPI_DATATYPE_NULL && got != (void*)MPI_OP_NULL) violate("handles/invalid-returned", "%s(%d): an MPI call failed and a handle was returned as if it were good", hn[h], fold);
        cnt("handles.failed_and_survived");
      } else {
        // the job is gone; a new one starts
        p.start(LIBS[0]);
        have.clear();
        all.clear();
        lives++;
        cnt("handles.job_restarts");
      }
      continue;
    }
    if (died || M.naborts != a0) violate("handles/unexpected-abort", "%s(%d) aborted the job although no MPI call failed", hn[h], fold);
    if (!got) violate("handles/null", "%s(%d) returned a null handle although no MPI call failed", hn[h], fold);
    auto key = std::make_pair(h, fold);
    auto it = have.find(key);
    if (it != have.end() && it->second != got) violate("handles/not-cached", "%s(%d) returned a different handle than before", hn[h], fold);
    if (it == have.end() && all.count(got)) violate("handles/shared", "%s(%d) returned a handle that belongs to another fold or kind", hn[h], fold);
    have[key] = got;
    all.insert(got);
    if (isop) {
      SimOp* o = (SimOp*)got;
      if (o->magic != 0x0b0b0b0bu || o->freed) violate("handles/invalid", "%s(%d) returned an invalid operator", hn[h], fold);
      if (!o->commute) violate("handles/commute", "%s(%d) is not registered as commutative", hn[h], fold);
      In in(p);
      M.abort_returns = false;
      if (h_dbl(h)) try_op<double>(*LIBS[0], o, h, fold); else try_op<float>(*LIBS[0], o, h, fold);
      auto tk = std::make_pair(h_sc(h) ? (h_dbl(h) ? 10 : 11) : h + 6, fold);   // try_op asked for the datatype
      void* ty = request(*LIBS[0], tk.first, fold);
      auto ti = have.find(tk);
      if (ti != have.end() && ti->second != ty) violate("handles/not-cached", "%s(%d) returned a different handle than before", hn[tk.first], fold);
      have[tk] = ty;
      all.insert(ty);
    } else {
      SimType* t = (SimType*)got;
      if (t->magic != 0x7e7e7e7eu || t->freed) violate("handles/invalid", "%s(%d) returned an invalid datatype", hn[h], fold);
      if (!t->committed) violate("handles/uncommitted", "%s(%d) returned a datatype that was not committed", hn[h], fold);
      long want = ((h_cx(h) ? 4 : 2) * fold + h_sc(h)) * (h_dbl(h) ? 8 : 4);
      if (t->size != want || t->extent != want) violate("handles/size", "%s(%d) describes %ld bytes (extent %ld), a value has %ld", hn[h], fold, t->size, t->extent, want);
    }
    // nothing that was handed out may have been released or altered
    for (auto& k : have) {
      if (k.first.first < 6) { SimOp* o = (SimOp*)k.second; if (o->freed) violate("handles/freed", "%s(%d) was released while in use", hn[k.first.first], k.first.second); }
      else { SimType* t = (SimType*)k.second; if (t->freed || !t->committed) violate("handles/freed", "%s(%d) was released while in use", hn[k.first.first], k.first.second); }
    }
    state_seen(hash2(hash2(h, fold), have.size() * 64 + lives));
  }
  // whatever failed earlier can be obtained now
  M.abort_returns = false;
  for (auto& q : recent) {
    In in(p);
    void* g = request(*LIBS[0], q.first, q.second);
    auto it = have.find(q);
    if (it != have.end() && it->second != g) violate("handles/not-cached", "%s(%d) returned a different handle than before", hn[q.first], q.second);
    have[q] = g;
    if (!g) violate("handles/failure-remembered", "%s(%d) still fails after MPI recovered", hn[q.first], q.second);
    if (q.first >= 6 && (((SimType*)g)->magic != 0x7e7e7e7eu || !((SimType*)g)->committed)) violate("handles/failure-remembered", "%s(%d) returns an unusable datatype after an earlier failure", hn[q.first], q.second);
    if (q.first < 6 && ((SimOp*)g)->magic != 0x0b0b0b0bu) violate("handles/failure-remembered", "%s(%d) returns an unusable operator after an earlier failure", hn[q.first], q.second);
  }
  R->nontrivial = n >= 2;
  R->tags.insert(nf ? "with-failures" : "no-failures");
  if (stubborn) R->tags.insert("abort-returns");
  A.check("handles");
}
static void run_mpi(const std::string& prof) {
  Ch& ch = R->ch;
  A.reset(ch.bits(), ch.pick(5));
  if (prof == "handles") { handles(); return; }
  if (ch.pick(2) == 0) { Mpi<double> s(ch); s.go(prof == "special"); }
  else { Mpi<float> s(ch); s.go(prof == "special"); }
}
RegFamily reg("mpi", run_mpi);
}  // namespace
