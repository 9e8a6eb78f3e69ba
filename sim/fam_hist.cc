// Histories over a pool of accumulators: several simulated clients, running different builds of the
// library, take turns in a seeded order operating on shared accumulators that live in one store in
// packed, strided and interleaved layouts. Clients crash (losing all library state, and the values
// they were about to deposit) and restart on another build; the store survives. After every
// operation each accumulator is compared with the abstract one and all other memory with a snapshot.
#include "gen.h"

namespace {
template <class R> struct Hist {
  typedef API<R> P;
  Ch& ch;
  std::string cls = "hist";
  int fold;
  explicit Hist(Ch& c) : ch(c) {}

  struct Ac {
    bool cx, packed;
    R *p, *q;
    int ip, iq;
    Model<R> m;
    bool canon = true;   // known to be in the canonical (renormalised) form
    int dirty = 0;       // deposits since the last renormalisation
    int e() const { return cx ? 2 : 1; }
  };
  std::vector<Ac> ac;
  struct Mem { uint8_t* p; size_t n; };
  std::vector<Mem> mems;            // the store
  std::vector<std::vector<uint8_t>> snap;
  std::vector<uint8_t*> ins;        // inputs of the current call
  std::vector<Proc> cl;
  Gen<R> g;
  bool specials = false;
  // packed arrays of accumulators for the vector routines
  struct Vec { bool cx; int n, inc; R* p; std::vector<Model<R>> m; int num; std::vector<char> canon; };
  std::vector<Vec> vec;

  uint8_t* store(size_t n) {
    uint8_t* p = (uint8_t*)A.alloc(n, false, 16);
    mems.push_back({p, n});
    return p;
  }
  void read(const Ac& a, std::vector<R>& out) const {
    int e = a.e();
    out.assign((size_t)2 * e * fold, 0);
    for (int i = 0; i < fold; i++) for (int j = 0; j < e; j++) {
      out[(size_t)i * e + j] = a.p[(size_t)i * a.ip * e + j];
      out[(size_t)(fold + i) * e + j] = a.q[(size_t)i * a.iq * e + j];
    }
  }
  void write(const Ac& a, const std::vector<R>& in) const {
    int e = a.e();
    for (int i = 0; i < fold; i++) for (int j = 0; j < e; j++) {
      a.p[(size_t)i * a.ip * e + j] = in[(size_t)i * e + j];
      a.q[(size_t)i * a.iq * e + j] = in[(size_t)(fold + i) * e + j];
    }
  }
  // the exact content of each bin, whatever the split between primary and carry
  void check_abstract(const Model<R>& m, const R* y, const char* what) {
    for (int j = 0; j < (m.cx ? 2 : 1); j++) {
      const Acc<R>& a = m.a[j];
      if (a.special() || a.top == Acc<R>::NONE) {   // this component alone, by the canonical rule
        Model<R> one(fold, false);
        one.a[0] = a;
        std::vector<R> t(2 * fold);
        for (int i = 0; i < fold; i++) { t[i] = m.cx ? y[2 * i + j] : y[i]; t[fold + i] = m.cx ? y[2 * fold + 2 * i + j] : y[fold + i]; }
        check_state(one, t.data(), cls, what);
        continue;
      }
      for (int i = 0; i < fold; i++) {
        R p = m.cx ? y[2 * i + j] : y[i], c = m.cx ? y[2 * fold + 2 * i + j] : y[fold + i];
        int b = a.top + i, e = b == 0 ? T<R>::MAXEXP - 1 - (T<R>::MANT - 1) : Bins<R>::qexp(b);
        double u = std::ldexp((double)p, -e);   // (mantissa) in quanta
        double lo = std::ldexp(1.0, T<R>::MANT - 1), hi = std::ldexp(1.0, T<R>::MANT);
        if (!(u >= lo && u < hi)) violate(cls + "/bin", "%s: component %d slot %d of fold %d has primary %s, which is outside bin %d", what, j, i, fold, hexs(p).c_str(), b);
        i128 t = (i128)(int64_t)(double)c * Bins<R>::CARRY + ((i128)(int64_t)u - ((i128)3 << (T<R>::MANT - 2)));
        if (t != a.t[b]) violate(cls + "/content", "%s: component %d slot %d of fold %d (bin %d) holds primary %s, carry %s, which is not the expected content", what, j, i, fold, b, hexs(p).c_str(), hexs(c).c_str());
      }
    }
    state_seen(m.hash());
  }
  void check_one(const Ac& a, const char* what) {
    if (a.dirty) {   // between deposits: renormalise a copy, then look
      Proc p;
      p.start(LIBS[0]);
      In in(p);
      Lib& L = *p.lib;
      std::vector<R> y;
      read(a, y);
      R* t = anew<R>(y.size());
      memcpy(t, y.data(), y.size() * sizeof(R));
      P::renorm(L, a.cx, fold, t);
      check_state(a.m, t, cls, what);
      return;
    }
    std::vector<R> y;
    read(a, y);
    if (a.canon) check_state(a.m, y.data(), cls, what);
    else check_abstract(a.m, y.data(), what);
  }
  void snapshot() {
    snap.resize(mems.size());
    for (size_t i = 0; i < mems.size(); i++) snap[i].assign(mems[i].p, mems[i].p + mems[i].n);
  }
  // everything except the slots of the accumulators in `touched` is as it was
  void check_rest(const std::vector<std::pair<R*, size_t>>& touched, const char* what) {
    for (auto& t : touched)
      for (size_t i = 0; i < mems.size(); i++) {
        uint8_t* b = (uint8_t*)t.first;
        if (b >= mems[i].p && b < mems[i].p + mems[i].n) memcpy(&snap[i][b - mems[i].p], b, t.second * sizeof(R));
      }
    for (size_t i = 0; i < mems.size(); i++)
      if (memcmp(snap[i].data(), mems[i].p, mems[i].n)) {
        size_t k = 0;
        while (snap[i][k] == mems[i].p[k]) k++;
        violate(cls + "/other-memory", "%s changed memory it does not own (store %zu, byte %zu)", what, i, k);
      }
  }
  void slots(const Ac& a, std::vector<std::pair<R*, size_t>>& out) const {
    for (int i = 0; i < fold; i++) { out.push_back({a.p + (size_t)i * a.ip * a.e(), (size_t)a.e()}); out.push_back({a.q + (size_t)i * a.iq * a.e(), (size_t)a.e()}); }
  }
  void make_pool(int na) {
    for (int i = 0; i < na;) {
      Ac a;
      a.cx = ch.pick(2);
      a.m = Model<R>(fold, a.cx);
      int e = a.e();
      int lay = ch.pick(4);
      if (lay <= 1) {  // packed
        a.packed = true;
        R* b = (R*)store((size_t)2 * e * fold * sizeof(R));
        a.p = b; a.q = b + e * fold; a.ip = a.iq = 1;
        ac.push_back(a);
        i++;
      } else if (lay == 2) {  // strided, own memory
        a.packed = false;
        a.ip = ch.range(1, 4); a.iq = ch.range(1, 4);
        a.p = (R*)store(((size_t)(fold - 1) * a.ip + 1) * e * sizeof(R));
        a.q = (R*)store(((size_t)(fold - 1) * a.iq + 1) * e * sizeof(R));
        ac.push_back(a);
        i++;
      } else {  // interleaved: the slots of several accumulators (primary and carry) share one array
        int n = ch.range(1, 3);
        R* b = (R*)store((size_t)2 * n * fold * e * sizeof(R));
        for (int k = 0; k < n; k++, i++) {
          Ac c = a;
          c.packed = false;
          c.ip = c.iq = 2 * n;
          c.p = b + (size_t)(2 * k) * e;
          c.q = b + (size_t)(2 * k + 1) * e;
          ac.push_back(c);
        }
      }
    }
  }
  R* input(const std::vector<R>& v) {
    R* p = (R*)A.alloc(std::max<size_t>(1, v.size()) * sizeof(R), false, sizeof(R));
    memcpy(p, v.data(), v.size() * sizeof(R));
    return p;
  }
  // does some carry need more than this many bits?
  bool crowded(const Model<R>& m, int bits) const {
    for (int j = 0; j < (m.cx ? 2 : 1); j++)
      for (int b = 0; b < Acc<R>::NB; b++) {
        i128 t = m.a[j].t[b];
        if (t < 0) t = -t;
        if (t >> bits >= Bins<R>::CARRY) return true;
      }
    return false;
  }
  R value() {
    if (specials && ch.chance(1, 60)) { cnt("input.special_value"); return ch.pick(3) == 0 ? (R)NAN : ch.pick(2) ? (R)INFINITY : -(R)INFINITY; }
    return g.next(ch);
  }
  static void addv(Model<R>& m, const R* v) { m.add(v); }
  Proc& client() { return cl[ch.pick(cl.size())]; }

  void conv_check(Ac& a, Lib& L) {
    R out[2] = {0, 0}, o2[2] = {0, 0};
    std::vector<R> y;
    read(a, y);
    R* t = input(y);
    if (a.packed) P::conv(L, a.cx, fold, a.p, out); else P::mconv(L, a.cx, fold, a.p, a.ip, a.q, a.iq, out);
    P::conv(L, a.cx, fold, t, o2);
    for (int j = 0; j < a.e(); j++) {
      const Acc<R>& m = a.m.a[j];
      if (!(out[j] == o2[j]) && !(std::isnan(out[j]) && std::isnan(o2[j]))) violate(cls + "/convert", "the same accumulator converts to %s from one layout and %s from another", hexs(out[j]).c_str(), hexs(o2[j]).c_str());
      if (m.special()) {
        bool en = m.nan || (m.pinf && m.ninf);
        if (en ? !std::isnan(out[j]) : !(std::isinf(out[j]) && (out[j] > 0) == m.pinf)) violate(cls + "/convert-special", "converted to %s although the history implies %s", hexs(out[j]).c_str(), en ? "NaN" : m.pinf ? "+Inf" : "-Inf");
        continue;
      }
      if (m.top == Acc<R>::NONE) { if (out[j] != 0) violate(cls + "/convert", "an empty accumulator converts to %s", hexs(out[j]).c_str()); continue; }
      Big s;
      bool any = false;
      for (int b = m.top; b < m.top + fold && b < Acc<R>::NB; b++) {
        if (m.t[b]) any = true;
        i128 t = m.t[b];
        s.add_int(t, Bins<R>::qexp(b));
      }
      if (!any && out[j] != 0) violate(cls + "/convert", "an accumulator of value zero converts to %s", hexs(out[j]).c_str());
      long double mm; int ee;
      s.get(mm, ee);
      Ext S(mm, ee);
      const double eps = std::ldexp(1.0, 1 - T<R>::MANT);
      if (std::isinf(out[j])) {
        Ext lim((long double)std::numeric_limits<R>::max());
        if (ext_le(S.abs(), Ext(lim.m * (1 - 16 * eps), lim.e)) || (out[j] > 0) != (S.m > 0)) violate(cls + "/convert", "converted to %s although the value is %.17Lg*2^%d", hexs(out[j]).c_str(), S.m, S.e);
        continue;
      }
      if (std::isnan(out[j])) violate(cls + "/convert", "finite content converts to NaN");
      Ext d = ext_add(Ext((long double)out[j]), Ext(-S.m, S.e)).abs();
      Ext b = ext_add(Ext(S.abs().m * 8 * eps, S.e), Ext(1.0L, T<R>::MINEXP - T<R>::MANT + 2));
      // cancellation inside the conversion is bounded by the same rounding of its partial sums
      if (!ext_le(d, b)) {
        // the documented term: one unit of the last bin per unit of the largest slot
        Ext last(std::ldexp(1.0L, 0), Bins<R>::qexp(m.top + fold - 1));
        violate(cls + "/convert-accuracy", "fold %d: converted to %s, exact content %.17Lg*2^%d, error %.4Lg*2^%d (allowed %.4Lg*2^%d, last bin 2^%d)", fold, hexs(out[j]).c_str(), S.m, S.e, d.m, d.e, b.m, b.e, Bins<R>::qexp(m.top + fold - 1));
      }
    }
    ev("convert -> %s", hexs(out[0]).c_str());
  }

  void op_on(Ac& y, Proc& pr) {
    In in(pr);
    Lib& L = *pr.lib;
    std::vector<std::pair<R*, size_t>> touched;
    slots(y, touched);
    snapshot();
    int e = y.e();
    size_t yi = &y - &ac[0];
    bool m = !y.packed || ch.chance(1, 3);   // manually specified form
    int k = ch.pick(18);
    if (y.dirty) k = ch.pick(3) == 0 ? 8 : 7;   // only deposit and renormalise are legal now
    const char* what = "";
    char buf[160];
    auto finish_set = [&](bool canon) { y.canon = canon; };
    switch (k) {
      case 0:
        what = "set to zero";
        if (m) P::msetzero(L, y.cx, fold, y.p, y.ip, y.q, y.iq); else P::setzero(L, y.cx, fold, y.p);
        y.m = Model<R>(fold, y.cx);
        y.canon = true;
        break;
      case 1: {
        Ac& x = ac[ch.pick(ac.size())];
        if (&x == &y || x.dirty || (x.cx && !y.cx)) { what = "(nothing)"; break; }
        if (x.cx == y.cx) {
          what = "set";
          if (m || !x.packed) P::mset(L, y.cx, fold, x.p, x.ip, x.q, x.iq, y.p, y.ip, y.q, y.iq); else P::set(L, y.cx, fold, x.p, y.p);
          y.m = x.m;
        } else {
          what = "set complex from real";
          if (m || !x.packed) P::msetr(L, fold, x.p, x.ip, x.q, x.iq, y.p, y.ip, y.q, y.iq); else P::setr(L, fold, x.p, y.p);
          y.m = Model<R>(fold, true);
          y.m.a[0] = x.m.a[0];
        }
        finish_set(x.canon);
        break;
      }
      case 2: {
        what = "convert from number";
        R v[2] = {value(), value()};
        R* x = input({v[0], v[1]});
        if (m) P::mconv1(L, y.cx, fold, x, y.p, y.ip, y.q, y.iq); else P::conv1(L, y.cx, fold, x, y.p);
        y.m = Model<R>(fold, y.cx);
        y.m.add(v);
        y.canon = true;
        break;
      }
      case 3: case 14: {
        what = "add numbers";
        int n = 1 + ch.small(12);
        for (int i = 0; i < n; i++) {
          R v[2] = {value(), value()};
          R* x = input({v[0], v[1]});
          if (m) P::madd1(L, y.cx, fold, x, y.p, y.ip, y.q, y.iq); else P::add1(L, y.cx, fold, x, y.p);
          if (memcmp(x, v, sizeof v)) violate(cls + "/input-changed", "adding a number changed it");
          y.m.add(v);
        }
        y.canon = true;
        break;
      }
      case 4: case 5: case 15: {
        int n = ch.small(80), xe, inc = ch.chance(1, 3) ? ch.range(2, 3) : 1, inc2 = ch.chance(1, 3) ? ch.range(2, 3) : 1;
        if (ch.chance(1, 6)) { if (ch.pick(2)) inc = -inc; if (ch.pick(2)) inc2 = -inc2; }
        int ai = std::abs(inc), ai2 = std::abs(inc2);
        bool prod = k == 15;
        auto at = [&](int i, int inc_, int e_) { return (size_t)(inc_ < 0 ? n - 1 - i : i) * std::abs(inc_) * e_; };   // where element i lies

        bool absv = k == 5 && !y.cx;
        bool xc = absv ? ch.pick(2) : y.cx;
        xe = xc ? 2 : 1;
        Gen<R> h = g;
        h.hist.clear();
        if (prod) { h.emax = std::min(h.emax, T<R>::MAXEXP / 2 - 1); h.emin = std::max(h.emin, -(T<R>::MAXEXP / 2)); if (h.elo >= h.emax) h.elo = h.emax - 1; if (h.ehi >= h.emax) h.ehi = h.emax - 1; if (h.ehi < h.elo) h.ehi = h.elo; }
        std::vector<R> xs((size_t)(n ? (n - 1) * ai + 1 : 0) * xe, std::numeric_limits<R>::quiet_NaN()), ys;
        for (int i = 0; i < n; i++) for (int j = 0; j < xe; j++) xs[at(i, inc, xe) + j] = prod ? h.next(ch) : value();
        if (prod) {
          ys.assign((size_t)(n ? (n - 1) * ai2 + 1 : 0) * xe, std::numeric_limits<R>::quiet_NaN());
          h.hist.clear();
          for (int i = 0; i < n; i++) for (int j = 0; j < xe; j++) ys[at(i, inc2, xe) + j] = h.next(ch);
        }
        R *x0 = input(xs), *z0 = input(ys), *x = n ? x0 + at(0, inc, xe) : x0, *z = n && prod ? z0 + at(0, inc2, xe) : z0;
        int w = !y.cx ? 0 : 1 + (int)ch.pick(2);
        if (prod) { what = "dot kernel"; if (m) P::mdot(L, w, fold, n, x, inc, z, inc2, y.p, y.ip, y.q, y.iq); else P::dot(L, w, fold, n, x, inc, z, inc2, y.p); }
        else if (absv) { what = "asum kernel"; if (m) P::masum(L, xc, fold, n, x, inc, y.p, y.ip, y.q, y.iq); else P::asum(L, xc, fold, n, x, inc, y.p); }
        else { what = "sum kernel"; if (m) P::msum(L, xc, fold, n, x, inc, y.p, y.ip, y.q, y.iq); else P::sum(L, xc, fold, n, x, inc, y.p); }
        if (memcmp(x0, xs.data(), xs.size() * sizeof(R)) || memcmp(z0, ys.data(), ys.size() * sizeof(R))) violate(cls + "/input-changed", "%s changed its input", what);
        for (int i = 0; i < n; i++) {
          const R* v = &xs[at(i, inc, xe)];
          if (prod) {
            const R* u = &ys[at(i, inc2, xe)];
            if (w == 0) y.m.a[0].add(v[0] * u[0]);
            else {
              R s = w == 1 ? 1 : -1;
              y.m.a[0].add(v[0] * u[0]); y.m.a[0].add(-s * (v[1] * u[1]));
              y.m.a[1].add(v[0] * u[1]); y.m.a[1].add(s * (v[1] * u[0]));
            }
          } else if (absv) { for (int j = 0; j < xe; j++) y.m.a[0].add(std::fabs(v[j])); }
          else y.m.add(v);
        }
        if (n) y.canon = true;
        break;
      }
      case 6: {
        what = "update";
        R v[2] = {g.next(ch), g.next(ch)};
        R* x = input({v[0], v[1]});
        if (y.cx && ch.pick(2)) {
          what = "update complex by real";
          if (m) P::mupdr(L, true, fold, v[0], y.p, y.ip, y.q, y.iq); else P::updr(L, true, fold, v[0], y.p);
          y.m.a[0].update(v[0]);
          y.m.a[1].update(v[0]);
        } else {
          if (m) P::mupd(L, y.cx, fold, x, y.p, y.ip, y.q, y.iq); else P::upd(L, y.cx, fold, x, y.p);
          y.m.a[0].update(v[0]);
          if (y.cx) y.m.a[1].update(v[1]);
        }
        break;
      }
      case 7: {
        what = "deposit";
        int left = T<R>::ENDUR - y.dirty;
        int n = std::min(left, ch.chance(1, 12) ? T<R>::ENDUR : 1 + (int)ch.small(24));
        std::vector<R> vs;
        R mx[2] = {0, 0};
        if (n > 40) {  // use up the endurance with values as large as the bins admit
          R v[2] = {value(), value()};
          for (int i = 0; i < n; i++) { vs.push_back(i % 7 == 6 ? v[0] / 2 : v[0]); vs.push_back(v[1]); }
        } else
          for (int i = 0; i < 2 * n; i++) vs.push_back(value());
        if (!y.dirty) {
          for (int i = 0; i < 2 * n; i++) if (is_fin(vs[i])) mx[i & 1] = std::max(mx[i & 1], (R)std::fabs(vs[i]));
          R* x = input({mx[0], mx[1]});
          if (m) P::mupd(L, y.cx, fold, x, y.p, y.ip, y.q, y.iq); else P::upd(L, y.cx, fold, x, y.p);
          y.m.a[0].update(mx[0]);
          if (y.cx) y.m.a[1].update(mx[1]);
        }
        int done = 0;
        for (int i = 0; i < n; i++) {
          R v[2] = {vs[2 * i], vs[2 * i + 1]};
          // only values the accumulator has been updated for
          for (int j = 0; j < e; j++) if (is_fin(v[j]) && !y.m.a[j].special() && Bins<R>::index(v[j]) < y.m.a[j].top) v[j] = 0;
          R* x = input({v[0], v[1]});
          if (m) P::mdep(L, y.cx, fold, x, y.p, y.ip); else P::dep(L, y.cx, fold, x, y.p);
          y.m.a[0].deposit(v[0]);
          if (y.cx) y.m.a[1].deposit(v[1]);
          done++;
        }
        y.dirty += done;
        snprintf(buf, sizeof buf, "deposit %d", done);
        what = buf;
        break;
      }
      case 8: case 16:
        what = "renormalise";
        if (m) P::mrenorm(L, y.cx, fold, y.p, y.ip, y.q, y.iq); else P::renorm(L, y.cx, fold, y.p);
        y.dirty = 0;
        y.canon = true;
        break;
      case 9:
        what = "negate";
        if (m) P::mnegate(L, y.cx, fold, y.p, y.ip, y.q, y.iq); else P::negate(L, y.cx, fold, y.p);
        y.m.negate();
        y.canon = false;
        break;
      case 10: case 11: case 12: {
        Ac& x = ac[ch.pick(ac.size())];
        if (&x == &y || x.dirty || x.cx != y.cx || crowded(x.m, T<R>::MANT - 3) || crowded(y.m, T<R>::MANT - 3)) { what = "(nothing)"; break; }
        what = "add accumulator";
        bool was_empty[2] = {y.m.a[0].top == Acc<R>::NONE && !y.m.a[0].special(), y.m.a[1].top == Acc<R>::NONE && !y.m.a[1].special()};
        if (m || !x.packed) P::madd(L, y.cx, fold, x.p, x.ip, x.q, x.iq, y.p, y.ip, y.q, y.iq); else P::badd(L, y.cx, fold, x.p, y.p);
        bool c = true;
        for (int j = 0; j < e; j++) {
          bool xe_ = x.m.a[j].top == Acc<R>::NONE && !x.m.a[j].special();
          if (xe_) c = c && y.canon;
          else if (was_empty[j]) c = c && x.canon;
        }
        y.m.merge(x.m);
        y.canon = c;
        break;
      }
      case 17: {  // repeated doubling: large carries, and sums that are whole numbers of carries
        int n = 1 + (int)ch.pick(sizeof(R) == 8 ? 14 : 11), done = 0;
        bool was = y.canon, empty = false;
        for (int j = 0; j < e; j++) if (y.m.a[j].top == Acc<R>::NONE && !y.m.a[j].special()) empty = true;
        for (; done < n && !crowded(y.m, T<R>::MANT / 2 - 2); done++) {
          std::vector<R> t;
          read(y, t);
          R* x = input(t);
          if (m) P::madd(L, y.cx, fold, x, 1, x + (size_t)fold * e, 1, y.p, y.ip, y.q, y.iq); else P::badd(L, y.cx, fold, x, y.p);
          if (memcmp(x, t.data(), t.size() * sizeof(R))) violate(cls + "/input-changed", "adding an accumulator changed it");
          Model<R> o = y.m;
          y.m.merge(o);
        }
        if (done && !empty) y.canon = true; else y.canon = was;
        snprintf(buf, sizeof buf, "add itself, %d times", done);
        what = buf;
        break;
      }
      default:
        what = "convert to number";
        conv_check(y, L);
        break;
    }
    ev("client %zu (%s): accumulator %zu (%s%s%s): %s", &pr - &cl[0], L.name.c_str(), yi, y.cx ? "complex " : "", y.packed ? "packed" : "strided", m ? ", by slots" : "", what);
    if (::R->trace) { std::string s = "   now:"; std::vector<R> z; read(y, z); for (size_t i = 0; i < z.size() && i < 24; i++) s += " " + hexs(z[i]); note("%s", s.c_str()); }
    check_rest(touched, what);
    check_one(y, what);
  }
  void op_vec(Proc& pr) {
    if (vec.size() < 2) return;
    In in(pr);
    Lib& L = *pr.lib;
    Vec &x = vec[0], &y = vec[1];
    int n = std::min(x.n, y.n);
    n = ch.pick(n + 1);
    snapshot();
    std::vector<std::pair<R*, size_t>> touched;
    for (int i = 0; i < n; i++) touched.push_back({y.p + (size_t)i * y.inc * y.num, (size_t)y.num});
    // refill a few source entries first
    for (int i = 0; i < x.n; i++)
      if (ch.chance(1, 2)) {
        R v[2] = {value(), value()};
        R* in_ = input({v[0], v[1]});
        P::add1(L, x.cx, fold, in_, x.p + (size_t)i * x.inc * x.num);
        x.m[i].add(v);
      }
    snapshot();
    P::baddv(L, y.cx, fold, n, x.p, x.inc, y.p, y.inc);
    for (int i = 0; i < n; i++) y.m[i].merge(x.m[i]);
    ev("client %zu (%s): vector add of %d accumulators, strides %d and %d", &pr - &cl[0], L.name.c_str(), n, x.inc, y.inc);
    check_rest(touched, "vector add");
    for (int i = 0; i < y.n; i++) check_state(y.m[i], y.p + (size_t)i * y.inc * y.num, cls, "vector add");
  }
  void go(const std::string& prof) {
    specials = ch.pick(4) == 3;
    fold = pick_fold(ch, T<R>::MAXFOLD);
    g.configure(ch, 8, T<R>::MAXEXP, T<R>::MINEXP - T<R>::MANT);
    g.explicit_picks = true;
    g.seed = 0;
    int ncl = ch.range(1, 3);
    for (int i = 0; i < ncl; i++) { cl.emplace_back(); cl.back().start(LIBS[ch.pick(LIBS.size())]); }
    make_pool(ch.range(2, 5));
    if (ch.pick(2)) {
      bool cx = ch.pick(2);
      int n = ch.range(1, 4);
      for (int v = 0; v < 2; v++) {
        Vec u;
        u.cx = cx;
        u.n = n;
        u.inc = ch.range(1, 3);
        u.num = (cx ? 4 : 2) * fold;
        u.p = (R*)store((size_t)((n - 1) * u.inc + 1) * u.num * sizeof(R));
        u.m.assign(n, Model<R>(fold, cx));
        vec.push_back(u);
      }
    }
    // initialise through the library
    {
      In in(cl[0]);
      Lib& L = *cl[0].lib;
      for (auto& a : ac) { if (a.packed) P::setzero(L, a.cx, fold, a.p); else P::msetzero(L, a.cx, fold, a.p, a.ip, a.q, a.iq); }
      for (auto& v : vec) for (int i = 0; i < v.n; i++) P::setzero(L, v.cx, fold, v.p + (size_t)i * v.inc * v.num);
      for (int c = 0; c < 2; c++) {
        int want = (c ? 4 : 2) * fold;
        if (P::num(L, c, fold) != want || P::size(L, c, fold) != want * sizeof(R)) violate(cls + "/size", "fold %d %s: number of words %d, size %zu", fold, c ? "complex" : "real", P::num(L, c, fold), P::size(L, c, fold));
      }
    }
    for (auto& a : ac) check_one(a, "initial");
    int steps = 3 + ch.small(80);
    ev("%s fold %d, %zu accumulators, %d clients, %d steps", sizeof(R) == 8 ? "double" : "float", fold, ac.size(), ncl, steps);
    int crashes = ch.pick(3), real = 0;
    for (int s = 0; s < steps; s++) {
      ::R->simtime += 0.001 * (1 + ch.pick(8));
      int ci = ch.pick(cl.size());
      if (crashes && ch.chance(1, 10)) {
        crashes--;
        cl[ci].start(LIBS[ch.pick(LIBS.size())]);
        cnt("fault.crash");
        ev("client %d crashes and restarts on %s", ci, cl[ci].lib->name.c_str());
        continue;
      }
      if (!vec.empty() && ch.chance(1, 10)) op_vec(cl[ci]);
      else op_on(ac[ch.pick(ac.size())], cl[ci]);
      real++;
      cnt("ops");
    }
    // every accumulator is renormalised and converted at the end
    for (auto& a : ac) {
      In in(cl[0]);
      Lib& L = *cl[0].lib;
      if (a.packed) P::renorm(L, a.cx, fold, a.p); else P::mrenorm(L, a.cx, fold, a.p, a.ip, a.q, a.iq);
      a.dirty = 0;
      a.canon = true;
      check_one(a, "final renormalisation");
      conv_check(a, L);
    }
    A.check("hist");
    ::R->nontrivial = real >= 3;
    ::R->tags.insert(std::string(sizeof(R) == 8 ? "double" : "float"));
    ::R->tags.insert("fold." + std::to_string(fold));
  }
};
}  // namespace
static void run_hist(const std::string& prof) {
  Ch& ch = R->ch;
  A.reset(ch.bits(), ch.pick(5));
  if (ch.pick(2) == 0) { Hist<double> s(ch); s.go(prof); }
  else { Hist<float> s(ch); s.go(prof); }
}
static RegFamily reg("hist", run_hist);
