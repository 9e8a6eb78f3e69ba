// Executable reference model of a binned accumulator, independent of the library's arithmetic:
// every input is split into integer multiples of each bin's quantum and the multiples are summed
// in 128-bit integers. The canonical (renormalised) bytes follow from the integers alone.
#pragma once
#include "api.h"
typedef __int128 i128;

template <class R> static inline bool is_fin(R x) { return std::isfinite(x); }
template <class R> static inline typename T<R>::U rbits(R x) { typename T<R>::U u; memcpy(&u, &x, sizeof u); return u; }
template <class R> static inline R from_bits(typename T<R>::U u) { R x; memcpy(&x, &u, sizeof x); return x; }

template <class R> struct Bins {
  static int clampi(int b) { return b > T<R>::MAXINDEX ? T<R>::MAXINDEX : b; }
  // exponent of the quantum of bin b
  static int qexp(int b) { return T<R>::MAXEXP + 1 - T<R>::W - clampi(b) * T<R>::W; }
  static int index(R x) {
    if (x == 0) return T<R>::MAXINDEX;
    int e;
    std::frexp(x, &e);
    return clampi((T<R>::MAXEXP - e) / T<R>::W);
  }
  static constexpr i128 CARRY = (i128)1 << (T<R>::MANT - 3);  // quanta in one unit of carry
};

// One real component.
template <class R> struct Acc {
  static constexpr int NB = 128;
  static constexpr int NONE = 1 << 20;
  int fold = 3;
  int top = NONE;          // NONE: untouched (all zero bytes)
  bool nan = false, pinf = false, ninf = false;
  i128 t[NB];
  explicit Acc(int k = 3) : fold(k) { memset(t, 0, sizeof t); }
  bool special() const { return nan || pinf || ninf; }
  void raise(int idx) {     // make bin idx the top bin if it is above the current one
    if (top == NONE) { top = idx; return; }
    if (idx < top) {
      int last = idx + fold - 1;
      for (int b = std::max(last + 1, top); b <= top + fold - 1 && b < NB; b++) t[b] = 0;
      top = idx;
    }
  }
  void update(R x) { if (special()) return; if (!is_fin(x)) return; raise(Bins<R>::index(x)); }
  void deposit(R x) {
    if (!is_fin(x)) {
      if (std::isnan(x)) nan = true;
      else if (x > 0) pinf = true;
      else ninf = true;
      return;
    }
    if (special()) return;
    long double r = x;   // 2^MAXEXP is in range
    int b = std::max(top, Bins<R>::index(x));
    for (; b < top + fold && b < NB; b++) {
      int q = Bins<R>::qexp(b);
      long double s = std::round(std::ldexp(r, -q));
      t[b] += (i128)s;
      r -= std::ldexp(s, q);
    }
  }
  void add(R x) { update(x); deposit(x); }
  void merge(const Acc& o) {
    nan |= o.nan; pinf |= o.pinf; ninf |= o.ninf;
    if (o.top == NONE) return;
    raise(o.top);
    for (int b = std::max(top, o.top); b < top + fold && b < o.top + o.fold && b < NB; b++) t[b] += o.t[b];
  }
  void negate() {
    for (int b = 0; b < NB; b++) t[b] = -t[b];
    std::swap(pinf, ninf);
  }
  // expected canonical bytes
  void expect(R* pri, R* car) const {
    for (int i = 0; i < fold; i++) {
      if (top == NONE) { pri[i] = 0; car[i] = 0; continue; }
      int b = top + i;
      i128 c = t[b] >= 0 ? t[b] / Bins<R>::CARRY : -((-t[b] + Bins<R>::CARRY - 1) / Bins<R>::CARRY);
      i128 off = t[b] - c * Bins<R>::CARRY;
      int e = Bins<R>::qexp(b);
      if (b == 0) e = T<R>::MAXEXP - 1 - (T<R>::MANT - 1);
      pri[i] = (R)std::ldexp((double)(((int64_t)3 << (T<R>::MANT - 2)) + (int64_t)off), e);
      car[i] = (R)(double)(int64_t)c;
    }
  }
  uint64_t hash() const {
    uint64_t h = hash2(fold, top);
    h = hash2(h, (nan ? 1 : 0) + (pinf ? 2 : 0) + (ninf ? 4 : 0));
    if (top != NONE) for (int i = 0; i < fold; i++) h = hash2(h, (uint64_t)t[top + i] ^ (uint64_t)(t[top + i] >> 64));
    return h;
  }
};

// Fixed-point exact accumulator (superaccumulator) from 2^LO upward.
struct Big {
  static constexpr int LO = -2400, N = 160;  // 32-bit digits, covers 2^-2400 .. 2^2720
  int64_t d[N];
  Big() { memset(d, 0, sizeof d); }
  void add_int(i128 m, int e) {  // m * 2^e
    if (!m) return;
    bool neg = m < 0;
    unsigned __int128 u = neg ? (unsigned __int128)(-m) : (unsigned __int128)m;
    int p = e - LO, w = p / 32, s = p % 32;
    for (int k = 0; u; k++) {
      uint64_t lo = (uint64_t)(u & 0xffffffffu) << s;  // up to 63 bits
      d[w + k] += neg ? -(int64_t)(lo & 0xffffffffu) : (int64_t)(lo & 0xffffffffu);
      d[w + k + 1] += neg ? -(int64_t)(lo >> 32) : (int64_t)(lo >> 32);
      u >>= 32;
    }
  }
  template <class R> void add(R x) {
    if (x == 0) return;
    int e;
    double f = std::frexp((double)x, &e);
    add_int((i128)(int64_t)std::ldexp(f, 53), e - 53);
  }
  // exact product of two reals
  template <class R> void addprod(R a, R b) {
    if (a == 0 || b == 0) return;
    int ea, eb;
    double fa = std::frexp((double)a, &ea), fb = std::frexp((double)b, &eb);
    add_int((i128)(int64_t)std::ldexp(fa, 53) * (i128)(int64_t)std::ldexp(fb, 53), ea + eb - 106);
  }
  void sub(const Big& o) { for (int i = 0; i < N; i++) d[i] -= o.d[i]; }
  void norm() {
    for (int i = 0; i + 1 < N; i++) {
      int64_t c = d[i] >> 32;
      d[i] -= c << 32;
      d[i + 1] += c;
    }
  }
  // value as mantissa * 2^exp with |mantissa| in [0.5,1) (long double), 0 -> mantissa 0
  void get(long double& m, int& ex) {
    norm();
    bool neg = d[N - 1] < 0;
    Big t = *this;
    if (neg) { for (int i = 0; i < N; i++) t.d[i] = -t.d[i]; t.norm(); }
    int i = N - 1;
    while (i >= 0 && t.d[i] == 0) i--;
    if (i < 0) { m = 0; ex = 0; return; }
    long double v = 0;
    for (int k = i; k >= 0 && k > i - 4; k--) v = v * 4294967296.0L + (long double)t.d[k];
    int base = LO + 32 * std::max(0, i - 3);
    int k = i - 3 < 0 ? 0 : i - 3;
    (void)k;
    int e2;
    m = std::frexp(v, &e2);
    ex = e2 + base;
    if (neg) m = -m;
  }
};
// |v| <= bound in extended exponent range
struct Ext {
  long double m = 0; int e = 0;
  Ext() {}
  Ext(long double x) { m = std::frexp(x, &e); if (x == 0) e = 0; }
  Ext(long double mm, int ee) { int k; m = std::frexp(mm, &k); e = ee + k; if (mm == 0) e = 0; }
  Ext scale(int k) const { Ext r = *this; r.e += k; return r; }
  Ext abs() const { Ext r = *this; r.m = std::fabs(r.m); return r; }
};
static inline Ext ext_add(Ext a, Ext b) {
  if (a.m == 0) return b;
  if (b.m == 0) return a;
  if (a.e < b.e) std::swap(a, b);
  int d = a.e - b.e;
  if (d > 200) return a;
  return Ext(a.m + std::ldexp(b.m, -d), a.e);
}
static inline bool ext_le(Ext a, Ext b) {  // a,b >= 0
  if (a.m == 0) return true;
  if (b.m == 0) return false;
  if (a.e != b.e) return a.e < b.e;
  return a.m <= b.m;
}

// A (possibly complex) accumulator model.
template <class R> struct Model {
  bool cx = false;
  Acc<R> a[2];
  Model(int fold = 3, bool c = false) : cx(c), a{Acc<R>(fold), Acc<R>(fold)} {}
  void add(const R* x) { a[0].add(x[0]); if (cx) a[1].add(x[1]); }
  void merge(const Model& o) { a[0].merge(o.a[0]); if (cx) a[1].merge(o.a[1]); }
  void negate() { a[0].negate(); a[1].negate(); }
  int num() const { return (cx ? 4 : 2) * a[0].fold; }
  uint64_t hash() const { return hash2(a[0].hash(), cx ? a[1].hash() : 0); }
  void expect(R* y) const {
    int k = a[0].fold;
    if (!cx) { a[0].expect(y, y + k); return; }
    std::vector<R> p(k), c(k);
    for (int j = 0; j < 2; j++) {
      a[j].expect(p.data(), c.data());
      for (int i = 0; i < k; i++) { y[2 * i + j] = p[i]; y[2 * k + 2 * i + j] = c[i]; }
    }
  }
};

template <class R> std::string hexs(R x) { char b[64]; snprintf(b, sizeof b, "%a", (double)x); return b; }

// Compare a packed accumulator with the model. zeros of either sign are equal.
template <class R> void check_state(const Model<R>& m, const R* y, const std::string& cls, const char* what) {
  int k = m.a[0].fold, n = m.num();
  std::vector<R> e(n);
  m.expect(e.data());
  for (int j = 0; j < (m.cx ? 2 : 1); j++) {
    const Acc<R>& a = m.a[j];
    if (a.special()) {
      R p = m.cx ? y[j] : y[0];
      bool en = a.nan || (a.pinf && a.ninf);
      bool ok = en ? std::isnan(p) : (std::isinf(p) && (p > 0) == a.pinf);
      if (!ok) violate(cls + "/special", "%s: component %d holds %s, the inputs imply %s", what, j, hexs(p).c_str(), en ? "NaN" : a.pinf ? "+Inf" : "-Inf");
      continue;
    }
    for (int i = 0; i < k; i++) {
      R p = m.cx ? y[2 * i + j] : y[i], c = m.cx ? y[2 * k + 2 * i + j] : y[k + i];
      R ep = m.cx ? e[2 * i + j] : e[i], ec = m.cx ? e[2 * k + 2 * i + j] : e[k + i];
      if (!(p == ep) || !(c == ec))
        violate(cls + "/state", "%s: component %d slot %d of fold %d is (primary %s, carry %s), expected (%s, %s)", what, j, i, k, hexs(p).c_str(), hexs(c).c_str(), hexs(ep).c_str(), hexs(ec).c_str());
    }
  }
  state_seen(m.hash());
}
