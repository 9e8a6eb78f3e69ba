// The largest-magnitude queries (the inputs of the error bound and of blocked sums) computed by a cluster: parts of a
// vector by processes that run different builds, crash, restart and redo work, answers over a network that loses,
// duplicates and reorders them. Taking a maximum is idempotent, so the outcome is the largest magnitude whatever happened.
#include "gen.h"
#include "api.h"

namespace {
template <class F> struct AMax {
  typedef API<F> P;
  Ch& ch;
  bool cx, prod;
  int c, n, ix, iz;
  F *x, *z;   // first element in the direction of the walk
  explicit AMax(Ch& ch_) : ch(ch_) {}

  static F mag(F a) { return std::fabs(a); }
  static F mul(F a, F b) { volatile F v = a * b; return std::fabs(v); }
  void expect(int lo, int hi, F* o) const {
    o[0] = o[1] = 0;
    for (int i = lo; i < hi; i++) {
      const F *p = x + (ptrdiff_t)i * ix * c, *q = z + (ptrdiff_t)i * iz * c;
      if (!prod) { for (int j = 0; j < c; j++) o[j] = std::max(o[j], mag(p[j])); }
      else if (!cx) o[0] = std::max(o[0], mul(p[0], q[0]));
      else {
        o[0] = std::max(o[0], std::max(mul(p[0], q[0]), mul(p[1], q[1])));
        o[1] = std::max(o[1], std::max(mul(p[0], q[1]), mul(p[1], q[0])));
      }
    }
  }
  void call(Lib& L, int lo, int m, F* o) const {
    const F *p = x + (ptrdiff_t)lo * ix * c, *q = z + (ptrdiff_t)lo * iz * c;
    if (prod) { if (cx) P::amaxmc(L, m, p, ix, q, iz, o); else o[0] = P::amaxm(L, m, p, ix, q, iz); }
    else { if (cx) P::amaxc(L, m, p, ix, o); else o[0] = P::amax(L, m, p, ix); }
  }
  F* vec(int s, Gen<F>* g, int special) {
    int a = std::abs(s);
    F* v = anew<F>(((size_t)(n - 1) * a + 1) * c);
    for (size_t i = 0; i < ((size_t)(n - 1) * a + 1) * c; i++) v[i] = (i / c) % a ? std::numeric_limits<F>::infinity() : 0;   // gaps hold what would win
    for (int i = 0; i < n; i++)
      for (int j = 0; j < c; j++) {
        F w = g[j].next(ch);
        if (special && g[j].rnd(ch, 60) == 59) { w = std::copysign(std::numeric_limits<F>::infinity(), w); cnt("input.special_value"); }
        v[(size_t)i * a * c + j] = g[j].rnd(ch, 2) ? w : -w;
      }
    return s < 0 ? v + (size_t)(n - 1) * a * c : v;
  }
  void go() {
    cx = ch.pick(2);
    prod = ch.pick(2);
    c = cx ? 2 : 1;
    n = ch.chance(1, 6) ? ch.range(1, 3000) : ch.chance(1, 3) ? ch.range(1, 200) : ch.range(1, 20);
    auto stride = [&] { int k = ch.pick(5); return k < 3 ? 1 : k == 3 ? (int)ch.range(2, 5) : -(int)ch.range(1, 3); };
    ix = stride();
    iz = stride();
    Gen<F> g[2];
    for (int j = 0; j < 2; j++) g[j].configure(ch, n, T<F>::MAXEXP, T<F>::MINEXP - T<F>::MANT);
    x = vec(ix, g, !prod && ch.chance(1, 6));
    z = prod ? vec(iz, g, 0) : x;
    if (!prod) iz = ix;
    struct Node { Proc p; Lib* L; };
    int NP = 1 + ch.pick(4);
    std::vector<Node> nd(NP);
    for (auto& q : nd) { q.L = LIBS[ch.pick(LIBS.size())]; q.p.start(q.L); }
    // parts: a cover of the vector, overlaps allowed
    std::vector<std::pair<int, int>> part;
    for (int at = 0; at < n;) { int m = ch.pick(3) ? std::min(n - at, 1 + (int)ch.small(n)) : n - at; part.push_back({at, at + m}); at += m; if (part.size() >= 12 && at < n) { part.push_back({at, n}); at = n; } }
    struct Msg { int part; F v[2]; };
    std::vector<Msg> net;
    std::vector<char> got(part.size());
    F root[2] = {0, 0}, full[2];
    expect(0, n, full);
    ev("%s%s of %d, strides %d %d, %d processes, %d parts", cx ? "complex " : "", prod ? "largest product" : "largest magnitude", n, ix, iz, NP, (int)part.size());
    int left = (int)part.size(), faults = 0;
    const char* cls = prod ? "amax/product" : "amax/value";
    for (int step = 0; left; step++) {
      if (step > 4000) violate("amax/harness", "no progress");
      ::R->simtime += 0.001 * (1 + ch.pick(4));
      bool calm = faults >= 12;
      int a = ch.pick(8);
      if (a == 7 && !calm) {  // crash: what it computed and did not send is gone, it comes back maybe on another build
        int w = ch.pick(NP);
        faults++;
        cnt("fault.crash");
        nd[w].L = LIBS[ch.pick(LIBS.size())];
        nd[w].p.start(nd[w].L);
        ev("process %d crashes and restarts on %s", w, nd[w].L->name.c_str());
        continue;
      }
      if (a >= 4 && !net.empty()) {
        int m = ch.pick(net.size()), f = calm ? 0 : (int)ch.pick(6);
        Msg q = net[m];
        if (f == 5) { faults++; cnt("net.lost"); net.erase(net.begin() + m); ev("answer for part %d lost", q.part); continue; }
        if (f == 4) { faults++; cnt("net.duplicated"); } else net.erase(net.begin() + m);
        if (m) cnt("net.reordered");
        for (int j = 0; j < c; j++) root[j] = std::max(root[j], q.v[j]);
        if (!got[q.part]) { got[q.part] = 1; left--; }
        ev("answer for part %d arrives", q.part);
        continue;
      }
      int w = ch.pick(NP), t = ch.pick(part.size());
      if (got[t] && (calm || ch.pick(3))) { for (t = 0; got[t]; t++); bool there = false; for (auto& m : net) there |= m.part == t; if (there && calm) continue; }
      Msg m;
      m.part = t;
      F want[2];
      expect(part[t].first, part[t].second, want);
      m.v[0] = m.v[1] = (F)-7;
      { In in(nd[w].p); call(*nd[w].L, part[t].first, part[t].second - part[t].first, m.v); }
      ev("process %d (%s) answers part %d [%d,%d)", w, nd[w].L->name.c_str(), t, part[t].first, part[t].second);
      for (int j = 0; j < c; j++)
        if (!(m.v[j] == want[j]) || std::signbit(m.v[j]))
          violate(cls, "%s of elements %d to %d (strides %d %d)%s is %s on %s, not %s", prod ? "the largest product" : "the largest magnitude", part[t].first, part[t].second - 1, ix, iz, cx ? j ? ", imaginary" : ", real" : "", hexs(m.v[j]).c_str(), nd[w].L->name.c_str(), hexs(want[j]).c_str());
      if (!cx && m.v[1] != (F)-7) violate(cls, "word beyond the result written");
      net.push_back(m);
      A.check("after an answer");
    }
    for (int j = 0; j < c; j++)
      if (!(root[j] == full[j])) violate(cls, "the combined answer is %s, not %s", hexs(root[j]).c_str(), hexs(full[j]).c_str());
    // empty vectors
    { Lib& L = *nd[0].L; F o[2] = {1, 1}; In in(nd[0].p); call(L, 0, 0, o); if (o[0] != 0 || (cx && o[1] != 0)) violate(cls, "the largest magnitude of nothing is %s", hexs(o[0] != 0 ? o[0] : o[1]).c_str()); }
    state_seen(hash2(std::hash<double>()((double)full[0]), std::hash<double>()((double)full[1])));
    ::R->nontrivial = n > 1 && part.size() > 1;
  }
};
}  // namespace

static void run_amax(const std::string&) {
  Ch& ch = ::R->ch;
  A.reset(ch.bits(), ch.pick(5));
  if (ch.pick(2) == 0) { AMax<double> s(ch); s.go(); }
  else { AMax<float> s(ch); s.go(); }
}
static RegFamily reg("amax", run_amax);
