// Matrix routines of the public API, generic over the type.
#pragma once
#include "api.h"

template <class R> struct GA;
#define DEF_GA(REAL, r, c)                                                                                                                              \
  template <> struct GA<REAL> {                                                                                                                         \
    static void bgemv(Lib& L, bool cx, int k, char o, char t, int M, int N, const REAL* al, const REAL* A, int lda, const REAL* X, int ix, REAL* Y, int iy) { \
      cx ? L.binnedBLAS_##c##b##c##gemv(k, o, t, M, N, al, A, lda, X, ix, Y, iy) : L.binnedBLAS_##r##b##r##gemv(k, o, t, M, N, *al, A, lda, X, ix, Y, iy);    \
    }                                                                                                                                                   \
    static void bgemm(Lib& L, bool cx, int k, char o, char t, char u, int M, int N, int K, const REAL* al, const REAL* A, int lda, const REAL* B, int ldb, REAL* C, int ldc) { \
      cx ? L.binnedBLAS_##c##b##c##gemm(k, o, t, u, M, N, K, al, A, lda, B, ldb, C, ldc) : L.binnedBLAS_##r##b##r##gemm(k, o, t, u, M, N, K, *al, A, lda, B, ldb, C, ldc); \
    }                                                                                                                                                   \
    static void gemv(Lib& L, bool cx, int k, char o, char t, int M, int N, const REAL* al, const REAL* A, int lda, const REAL* X, int ix, const REAL* be, REAL* Y, int iy) { \
      if (cx) { if (k) L.reproBLAS_r##c##gemv(k, o, t, M, N, al, A, lda, X, ix, be, Y, iy); else L.reproBLAS_##c##gemv(o, t, M, N, al, A, lda, X, ix, be, Y, iy); }  \
      else { if (k) L.reproBLAS_r##r##gemv(k, o, t, M, N, *al, A, lda, X, ix, *be, Y, iy); else L.reproBLAS_##r##gemv(o, t, M, N, *al, A, lda, X, ix, *be, Y, iy); } \
    }                                                                                                                                                   \
    static void gemm(Lib& L, bool cx, int k, char o, char t, char u, int M, int N, int K, const REAL* al, const REAL* A, int lda, const REAL* B, int ldb, const REAL* be, REAL* C, int ldc) { \
      if (cx) { if (k) L.reproBLAS_r##c##gemm(k, o, t, u, M, N, K, al, A, lda, B, ldb, be, C, ldc); else L.reproBLAS_##c##gemm(o, t, u, M, N, K, al, A, lda, B, ldb, be, C, ldc); } \
      else { if (k) L.reproBLAS_r##r##gemm(k, o, t, u, M, N, K, *al, A, lda, B, ldb, *be, C, ldc); else L.reproBLAS_##r##gemm(o, t, u, M, N, K, *al, A, lda, B, ldb, *be, C, ldc); } \
    }                                                                                                                                                   \
  };
DEF_GA(double, d, z)
DEF_GA(float, s, c)

