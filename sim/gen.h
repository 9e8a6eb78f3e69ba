// Workload data: floating-point inputs drawn from the regimes where reproducible summation is delicate.
#pragma once
#include "model.h"

enum { RG_UNIT = 1, RG_WIDE = 2, RG_CANCEL = 4, RG_EDGE = 8, RG_TIE = 16, RG_HUGE = 32, RG_TINY = 64, RG_ZERO = 128, RG_SAME = 256, RG_INT = 512, RG_RAMP = 1024, RG_TOP = 2048, RG_GRID = 4096, RG_ALL = 8191 };

template <class R> struct Gen {
  unsigned mask = RG_UNIT;
  int elo = -3, ehi = 3;      // exponent window for WIDE
  int emax = T<R>::MAXEXP;    // no value reaches 2^emax
  int emin = T<R>::MINEXP - T<R>::MANT;
  uint64_t seed = 0;
  int topbin = 0, topsign = 0, griddrop = 0;
  bool explicit_picks = false;
  std::vector<R> hist;
  uint64_t ctr = 0;
  // swarm: choose a subset of regimes for this run
  void configure(Ch& ch, int n, int emax_, int emin_, unsigned allowed = RG_ALL) {
    emax = emax_;
    emin = emin_;
    unsigned m = 0;
    int cnt_ = ch.range(1, 3);
    for (int i = 0; i < cnt_; i++) m |= 1u << ch.pick(13);
    mask = m & allowed;
    if (!mask) mask = RG_UNIT;
    int a = ch.range(emin, emax - 1), b = ch.range(0, std::min(emax - emin - 1, ch.chance(1, 3) ? 2000 : 90));
    elo = std::max(emin, a - b);
    ehi = a;
    topbin = ch.pick(T<R>::MAXINDEX + 1);
    topsign = ch.pick(3);
    explicit_picks = n <= 24;
    seed = explicit_picks ? 0 : ch.bits();
  }
  uint32_t rnd(Ch& ch, uint32_t n) {
    if (explicit_picks) return ch.pick(n);
    return (uint32_t)(((hash2(seed, ctr++) >> 32) * (uint64_t)n) >> 32);
  }
  R mant(Ch& ch) {  // [1,2)
    uint32_t k = rnd(ch, 4);
    if (k == 0) return 1;
    if (k == 1) return 1 + std::ldexp((R)rnd(ch, 256), -8);
    uint64_t h = mix64(rnd(ch, 0x7fffffff) + 77);
    if (k == 2) { // few bits at the far end
      return 1 + std::ldexp((R)(int)(h & 7), 1 - T<R>::MANT);
    }
    double m = 1 + std::ldexp((double)(h >> 12), -52);
    R r = (R)m;
    if (r >= 2) r = std::nextafter((R)2, (R)0);
    return r;
  }
  R fit(R v) const {
    if (!is_fin(v)) return 1;
    if (v != 0 && std::ilogb(v) >= emax) v = std::ldexp(v, emax - 1 - std::ilogb(v));
    if (v != 0 && std::ilogb(v) < emin) v = std::ldexp(v, std::max(emin, T<R>::MINEXP - T<R>::MANT) - std::ilogb(v));
    return v;
  }
  R next(Ch& ch) {
    unsigned kinds[14];
    int nk = 0;
    for (int i = 0; i < 13; i++) if (mask >> i & 1) kinds[nk++] = 1u << i;
    unsigned k = kinds[rnd(ch, nk)];
    R v = 0;
    int sg = rnd(ch, 2);
    switch (k) {
      case RG_UNIT: v = std::ldexp(mant(ch), (int)rnd(ch, 7) - 3); break;
      case RG_WIDE: v = std::ldexp(mant(ch), elo + (int)rnd(ch, ehi - elo + 1)); break;
      case RG_CANCEL:
        if (!hist.empty() && rnd(ch, 2)) { v = -hist[rnd(ch, hist.size())]; sg = 0; if (rnd(ch, 4) == 0) v = std::nextafter(v, (R)0); }
        else v = std::ldexp(mant(ch), elo + (int)rnd(ch, ehi - elo + 1));
        break;
      case RG_EDGE: {
        int b = rnd(ch, T<R>::MAXINDEX + 1);
        v = std::ldexp((R)1, std::min(T<R>::MAXEXP - 1, T<R>::MAXEXP - b * T<R>::W));
        int d = rnd(ch, 5);
        if (d == 1) v = std::nextafter(v, (R)0);
        if (d == 2) v = std::nextafter(v, (R)INFINITY);
        if (d == 3) v = v / 2;
        if (d == 4) v = std::nextafter(v / 2, (R)0);
        break;
      }
      case RG_TIE: {
        int b = rnd(ch, T<R>::MAXINDEX + 1);
        v = std::ldexp((R)(2 * (int)rnd(ch, 64) + 1), Bins<R>::qexp(b) - 1);
        break;
      }
      case RG_HUGE: v = std::ldexp(mant(ch), emax - 1 - (int)rnd(ch, 4)); break;
      case RG_TINY: v = std::ldexp(mant(ch), std::max(emin, T<R>::MINEXP - T<R>::MANT) + (int)rnd(ch, T<R>::MANT + 8)); break;
      case RG_ZERO: v = 0; if (sg) v = -v; sg = 0; break;
      case RG_SAME: v = hist.empty() ? std::ldexp(mant(ch), elo) : hist[0]; sg = 0; break;
      case RG_TOP:  // as large as a bin admits, mostly one sign: uses up the headroom between renormalisations
        v = std::nextafter(std::ldexp((R)1, std::min(T<R>::MAXEXP - 1, T<R>::MAXEXP - topbin * T<R>::W)), (R)0);
        if (rnd(ch, 8) == 7) v = std::nextafter(v, (R)0);
        sg = topsign == 2 ? sg : topsign;
        break;
      case RG_GRID: {  // powers of two near the top of one bin: partial sums that are whole numbers of carries
        int e_ = std::min(T<R>::MAXEXP - 1, T<R>::MAXEXP - topbin * T<R>::W) - 1 - griddrop;
        if (topsign == 2) { sg = rnd(ch, 8) == 7; e_ -= rnd(ch, 8) == 7; }
        else sg = topsign;
        v = std::ldexp((R)1, e_);
        break;
      }
      case RG_INT: v = (R)(int)rnd(ch, 1000); break;
      default: v = std::ldexp(mant(ch), std::min(ehi, elo + (int)(hist.size() * 3 % (ehi - elo + 1)))); break;
    }
    v = fit(v);
    if (sg) v = -v;
    if (hist.size() < 64) hist.push_back(v);
    return v;
  }
};

static inline int pick_fold(Ch& ch, int maxfold) {
  // 3 is the default; the specialised kernels stop at 4; deep folds reach past the last bin
  static const int common[] = {3, 2, 4, 5, 6, 8, 3, 2, 4, 7};
  uint32_t k = ch.pick(12);
  int f = k < 10 ? common[k] : k == 10 ? ch.range(2, maxfold) : maxfold - (int)ch.pick(3);
  return std::min(f, maxfold);
}
