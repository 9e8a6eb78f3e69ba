// Type-generic view of the public API (real precision R in {double,float}, complex or not).
#pragma once
#include "core.h"

template <class R> struct T;
template <> struct T<double> {
  static constexpr int W = 40, MANT = 53, MAXEXP = 1024, MINEXP = -1021, MAXINDEX = 51, MAXFOLD = 52, ENDUR = 2048;
  static constexpr const char* nm = "d";
  typedef uint64_t U;
};
template <> struct T<float> {
  static constexpr int W = 13, MANT = 24, MAXEXP = 128, MINEXP = -125, MAXINDEX = 20, MAXFOLD = 21, ENDUR = 512;
  static constexpr const char* nm = "s";
  typedef uint32_t U;
};

template <class R> struct API;
#define DEF_API(REAL, r, c)                                                                                                                     \
  template <> struct API<REAL> {                                                                                                                \
    typedef REAL R_;                                                                                                                            \
    static int num(Lib& L, bool cx, int k) { return cx ? L.binned_##c##bnum(k) : L.binned_##r##bnum(k); }                                        \
    static size_t size(Lib& L, bool cx, int k) { return cx ? L.binned_##c##bsize(k) : szr_##r(L, k); }                                           \
    static size_t szr_d(Lib& L, int k) { return L.binned_dbsize(k); }                                                                            \
    static size_t szr_s(Lib& L, int k) { return L.binned_sbsbze(k); }                                                                            \
    static void msetr(Lib& L, int k, const R_* p, int ip, const R_* q, int iq, R_* P, int iP, R_* Q, int iQ) {                                   \
      L.binned_##c##m##r##mset(k, p, ip, q, iq, P, iP, Q, iQ);                                                                                   \
    }                                                                                                                                           \
    static R_* alloc(Lib& L, bool cx, int k) { return cx ? L.binned_##c##balloc(k) : L.binned_##r##balloc(k); }                                  \
    static void setzero(Lib& L, bool cx, int k, R_* y) { cx ? L.binned_##c##bsetzero(k, y) : L.binned_##r##bsetzero(k, y); }                     \
    static void add1(Lib& L, bool cx, int k, const R_* x, R_* y) { cx ? L.binned_##c##b##c##add(k, x, y) : L.binned_##r##b##r##add(k, *x, y); }  \
    static void conv1(Lib& L, bool cx, int k, const R_* x, R_* y) { cx ? L.binned_##c##b##c##conv(k, x, y) : L.binned_##r##b##r##conv(k, *x, y); } \
    static void upd(Lib& L, bool cx, int k, const R_* x, R_* y) { cx ? L.binned_##c##b##c##update(k, x, y) : L.binned_##r##b##r##update(k, *x, y); } \
    static void updr(Lib& L, bool cx, int k, R_ x, R_* y) { cx ? L.binned_##c##b##r##update(k, x, y) : L.binned_##r##b##r##update(k, x, y); }    \
    static void dep(Lib& L, bool cx, int k, const R_* x, R_* y) { cx ? L.binned_##c##b##c##deposit(k, x, y) : L.binned_##r##b##r##deposit(k, *x, y); } \
    static void renorm(Lib& L, bool cx, int k, R_* y) { cx ? L.binned_##c##brenorm(k, y) : L.binned_##r##brenorm(k, y); }                        \
    static void negate(Lib& L, bool cx, int k, R_* y) { cx ? L.binned_##c##bnegate(k, y) : L.binned_##r##bnegate(k, y); }                        \
    static void set(Lib& L, bool cx, int k, const R_* x, R_* y) { cx ? L.binned_##c##b##c##bset(k, x, y) : L.binned_##r##b##r##bset(k, x, y); }  \
    static void setr(Lib& L, int k, const R_* x, R_* y) { L.binned_##c##b##r##bset(k, x, y); }                                                   \
    static void badd(Lib& L, bool cx, int k, const R_* x, R_* y) { cx ? L.binned_##c##b##c##badd(k, x, y) : L.binned_##r##b##r##badd(k, x, y); } \
    static void baddv(Lib& L, bool cx, int k, int n, const R_* x, int ix, R_* y, int iy) {                                                       \
      cx ? L.binned_##c##b##c##baddv(k, n, x, ix, y, iy) : L.binned_##r##b##r##baddv(k, n, x, ix, y, iy);                                        \
    }                                                                                                                                           \
    static void conv(Lib& L, bool cx, int k, const R_* y, R_* out) { if (cx) L.binned_##c##c##bconv_sub(k, y, out); else out[0] = L.binned_##r##r##bconv(k, y); } \
    static void sum(Lib& L, bool cx, int k, int n, const R_* x, int ix, R_* y) { cx ? L.binnedBLAS_##c##b##c##sum(k, n, x, ix, y) : L.binnedBLAS_##r##b##r##sum(k, n, x, ix, y); } \
    static void asum(Lib& L, bool cx, int k, int n, const R_* x, int ix, R_* y) { cx ? L.binnedBLAS_##r##b##c##asum(k, n, x, ix, y) : L.binnedBLAS_##r##b##r##asum(k, n, x, ix, y); } \
    static R_ ssq(Lib& L, bool cx, int k, int n, const R_* x, int ix, R_ s, R_* y) { return cx ? L.binnedBLAS_##r##b##c##ssq(k, n, x, ix, s, y) : L.binnedBLAS_##r##b##r##ssq(k, n, x, ix, s, y); } \
    static void dot(Lib& L, int w, int k, int n, const R_* x, int ix, const R_* z, int iz, R_* y) {                                              \
      if (w == 0) L.binnedBLAS_##r##b##r##dot(k, n, x, ix, z, iz, y);                                                                            \
      else if (w == 1) L.binnedBLAS_##c##b##c##dotu(k, n, x, ix, z, iz, y);                                                                      \
      else L.binnedBLAS_##c##b##c##dotc(k, n, x, ix, z, iz, y);                                                                                  \
    }                                                                                                                                           \
    /* manually specified (strided) forms */                                                                                                    \
    static void mset(Lib& L, bool cx, int k, const R_* p, int ip, const R_* q, int iq, R_* P, int iP, R_* Q, int iQ) {                           \
      cx ? L.binned_##c##m##c##mset(k, p, ip, q, iq, P, iP, Q, iQ) : L.binned_##r##m##r##mset(k, p, ip, q, iq, P, iP, Q, iQ);                    \
    }                                                                                                                                           \
    static void madd(Lib& L, bool cx, int k, const R_* p, int ip, const R_* q, int iq, R_* P, int iP, R_* Q, int iQ) {                           \
      cx ? L.binned_##c##m##c##madd(k, p, ip, q, iq, P, iP, Q, iQ) : L.binned_##r##m##r##madd(k, p, ip, q, iq, P, iP, Q, iQ);                    \
    }                                                                                                                                           \
    static void madd1(Lib& L, bool cx, int k, const R_* x, R_* P, int iP, R_* Q, int iQ) {                                                       \
      cx ? L.binned_##c##m##c##add(k, x, P, iP, Q, iQ) : L.binned_##r##m##r##add(k, *x, P, iP, Q, iQ);                                           \
    }                                                                                                                                           \
    static void mconv1(Lib& L, bool cx, int k, const R_* x, R_* P, int iP, R_* Q, int iQ) {                                                      \
      cx ? L.binned_##c##m##c##conv(k, x, P, iP, Q, iQ) : L.binned_##r##m##r##conv(k, *x, P, iP, Q, iQ);                                         \
    }                                                                                                                                           \
    static void mupd(Lib& L, bool cx, int k, const R_* x, R_* P, int iP, R_* Q, int iQ) {                                                        \
      cx ? L.binned_##c##m##c##update(k, x, P, iP, Q, iQ) : L.binned_##r##m##r##update(k, *x, P, iP, Q, iQ);                                     \
    }                                                                                                                                           \
    static void mupdr(Lib& L, bool cx, int k, R_ x, R_* P, int iP, R_* Q, int iQ) {                                                              \
      cx ? L.binned_##c##m##r##update(k, x, P, iP, Q, iQ) : L.binned_##r##m##r##update(k, x, P, iP, Q, iQ);                                      \
    }                                                                                                                                           \
    static void mdep(Lib& L, bool cx, int k, const R_* x, R_* P, int iP) { cx ? L.binned_##c##m##c##deposit(k, x, P, iP) : L.binned_##r##m##r##deposit(k, *x, P, iP); } \
    static void mrenorm(Lib& L, bool cx, int k, R_* P, int iP, R_* Q, int iQ) { cx ? L.binned_##c##mrenorm(k, P, iP, Q, iQ) : L.binned_##r##mrenorm(k, P, iP, Q, iQ); } \
    static void mnegate(Lib& L, bool cx, int k, R_* P, int iP, R_* Q, int iQ) { cx ? L.binned_##c##mnegate(k, P, iP, Q, iQ) : L.binned_##r##mnegate(k, P, iP, Q, iQ); } \
    static void msetzero(Lib& L, bool cx, int k, R_* P, int iP, R_* Q, int iQ) { cx ? L.binned_##c##msetzero(k, P, iP, Q, iQ) : L.binned_##r##msetzero(k, P, iP, Q, iQ); } \
    static void mconv(Lib& L, bool cx, int k, const R_* P, int iP, const R_* Q, int iQ, R_* out) {                                              \
      if (cx) L.binned_##c##c##mconv_sub(k, P, iP, Q, iQ, out); else out[0] = L.binned_##r##r##mconv(k, P, iP, Q, iQ);                           \
    }                                                                                                                                           \
    static void msum(Lib& L, bool cx, int k, int n, const R_* x, int ix, R_* P, int iP, R_* Q, int iQ) {                                         \
      cx ? L.binnedBLAS_##c##m##c##sum(k, n, x, ix, P, iP, Q, iQ) : L.binnedBLAS_##r##m##r##sum(k, n, x, ix, P, iP, Q, iQ);                      \
    }                                                                                                                                           \
    static void masum(Lib& L, bool cx, int k, int n, const R_* x, int ix, R_* P, int iP, R_* Q, int iQ) {                                        \
      cx ? L.binnedBLAS_##r##m##c##asum(k, n, x, ix, P, iP, Q, iQ) : L.binnedBLAS_##r##m##r##asum(k, n, x, ix, P, iP, Q, iQ);                    \
    }                                                                                                                                           \
    static R_ mssq(Lib& L, bool cx, int k, int n, const R_* x, int ix, R_ s, R_* P, int iP, R_* Q, int iQ) {                                     \
      return cx ? L.binnedBLAS_##r##m##c##ssq(k, n, x, ix, s, P, iP, Q, iQ) : L.binnedBLAS_##r##m##r##ssq(k, n, x, ix, s, P, iP, Q, iQ);         \
    }                                                                                                                                           \
    static void mdot(Lib& L, int w, int k, int n, const R_* x, int ix, const R_* z, int iz, R_* P, int iP, R_* Q, int iQ) {                      \
      if (w == 0) L.binnedBLAS_##r##m##r##dot(k, n, x, ix, z, iz, P, iP, Q, iQ);                                                                 \
      else if (w == 1) L.binnedBLAS_##c##m##c##dotu(k, n, x, ix, z, iz, P, iP, Q, iQ);                                                           \
      else L.binnedBLAS_##c##m##c##dotc(k, n, x, ix, z, iz, P, iP, Q, iQ);                                                                       \
    }                                                                                                                                           \
    static R_ baddsq(Lib& L, int k, R_ sx, const R_* x, R_ sy, R_* y) { return L.binned_##r##b##r##baddsq(k, sx, x, sy, y); }                     \
    static R_ maddsq(Lib& L, int k, R_ sx, const R_* p, int ip, const R_* q, int iq, R_ sy, R_* P, int iP, R_* Q, int iQ) {                      \
      return L.binned_##r##m##r##maddsq(k, sx, p, ip, q, iq, sy, P, iP, Q, iQ);                                                                  \
    }                                                                                                                                           \
    static R_ scale(Lib& L, R_ x) { return L.binned_##r##scale(x); }                                                                            \
    /* one-shot forms */                                                                                                                        \
    static void rsum(Lib& L, bool cx, int k, int n, const R_* x, int ix, R_* out) {                                                              \
      if (cx) { if (k) L.reproBLAS_r##c##sum_sub(k, n, x, ix, out); else L.reproBLAS_##c##sum_sub(n, x, ix, out); }                              \
      else out[0] = k ? L.reproBLAS_r##r##sum(k, n, x, ix) : L.reproBLAS_##r##sum(n, x, ix);                                                     \
    }                                                                                                                                           \
    static R_ rasum(Lib& L, bool cx, int k, int n, const R_* x, int ix) {                                                                        \
      if (cx) return k ? L.reproBLAS_r##r##c##asum(k, n, x, ix) : L.reproBLAS_##r##c##asum(n, x, ix);                                            \
      return k ? L.reproBLAS_r##r##asum(k, n, x, ix) : L.reproBLAS_##r##asum(n, x, ix);                                                          \
    }                                                                                                                                           \
    static R_ rnrm2(Lib& L, bool cx, int k, int n, const R_* x, int ix) {                                                                        \
      if (cx) return k ? L.reproBLAS_r##r##c##nrm2(k, n, x, ix) : L.reproBLAS_##r##c##nrm2(n, x, ix);                                            \
      return k ? L.reproBLAS_r##r##nrm2(k, n, x, ix) : L.reproBLAS_##r##nrm2(n, x, ix);                                                          \
    }                                                                                                                                           \
    static void rdot(Lib& L, int w, int k, int n, const R_* x, int ix, const R_* z, int iz, R_* out) {                                           \
      if (w == 0) out[0] = k ? L.reproBLAS_r##r##dot(k, n, x, ix, z, iz) : L.reproBLAS_##r##dot(n, x, ix, z, iz);                                \
      else if (w == 1) { if (k) L.reproBLAS_r##c##dotu_sub(k, n, x, ix, z, iz, out); else L.reproBLAS_##c##dotu_sub(n, x, ix, z, iz, out); }     \
      else { if (k) L.reproBLAS_r##c##dotc_sub(k, n, x, ix, z, iz, out); else L.reproBLAS_##c##dotc_sub(n, x, ix, z, iz, out); }                 \
    }                                                                                                                                           \
    static REAL amax(Lib& L, int n, const R_* x, int ix) { return L.binnedBLAS_##r##amax(n, x, ix); }                                            \
    static REAL amaxm(Lib& L, int n, const R_* x, int ix, const R_* z, int iz) { return L.binnedBLAS_##r##amaxm(n, x, ix, z, iz); }               \
    static void amaxmc(Lib& L, int n, const R_* x, int ix, const R_* z, int iz, R_* o) { L.binnedBLAS_##c##amaxm_sub(n, x, ix, z, iz, o); }       \
    static void amaxc(Lib& L, int n, const R_* x, int ix, R_* o) { L.binnedBLAS_##c##amax_sub(n, x, ix, o); }                                    \
  };
DEF_API(double, d, z)
DEF_API(float, s, c)
template <class R> struct MpiNames;
template <> struct MpiNames<double> {
  static MPI_Op op(Lib& L, bool cx, int k) { return cx ? L.binnedMPI_ZBZBADD(k) : L.binnedMPI_DBDBADD(k); }
  static MPI_Op opsq(Lib& L, int k) { return L.binnedMPI_DBDBADDSQ(k); }
  static MPI_Datatype ty(Lib& L, bool cx, int k) { return cx ? L.binnedMPI_DOUBLE_COMPLEX_BINNED(k) : L.binnedMPI_DOUBLE_BINNED(k); }
  static MPI_Datatype tysq(Lib& L, int k) { return L.binnedMPI_DOUBLE_BINNED_SCALED(k); }
};
template <> struct MpiNames<float> {
  static MPI_Op op(Lib& L, bool cx, int k) { return cx ? L.binnedMPI_CBCBADD(k) : L.binnedMPI_SBSBADD(k); }
  static MPI_Op opsq(Lib& L, int k) { return L.binnedMPI_SBSBADDSQ(k); }
  static MPI_Datatype ty(Lib& L, bool cx, int k) { return cx ? L.binnedMPI_FLOAT_COMPLEX_BINNED(k) : L.binnedMPI_FLOAT_BINNED(k); }
  static MPI_Datatype tysq(Lib& L, int k) { return L.binnedMPI_FLOAT_BINNED_SCALED(k); }
};
