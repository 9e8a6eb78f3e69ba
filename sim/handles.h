#pragma once
// Requests for MPI handles by number.
#include "api.h"
static const char* hn[12] = {"DBDBADD", "ZBZBADD", "SBSBADD", "CBCBADD", "DBDBADDSQ", "SBSBADDSQ",
                             "DOUBLE_BINNED", "DOUBLE_COMPLEX_BINNED", "FLOAT_BINNED", "FLOAT_COMPLEX_BINNED", "DOUBLE_BINNED_SCALED", "FLOAT_BINNED_SCALED"};
static void* request(Lib& L, int h, int fold) {
  switch (h) {
    case 0: return (void*)L.binnedMPI_DBDBADD(fold);
    case 1: return (void*)L.binnedMPI_ZBZBADD(fold);
    case 2: return (void*)L.binnedMPI_SBSBADD(fold);
    case 3: return (void*)L.binnedMPI_CBCBADD(fold);
    case 4: return (void*)L.binnedMPI_DBDBADDSQ(fold);
    case 5: return (void*)L.binnedMPI_SBSBADDSQ(fold);
    case 6: return (void*)L.binnedMPI_DOUBLE_BINNED(fold);
    case 7: return (void*)L.binnedMPI_DOUBLE_COMPLEX_BINNED(fold);
    case 8: return (void*)L.binnedMPI_FLOAT_BINNED(fold);
    case 9: return (void*)L.binnedMPI_FLOAT_COMPLEX_BINNED(fold);
    case 10: return (void*)L.binnedMPI_DOUBLE_BINNED_SCALED(fold);
    default: return (void*)L.binnedMPI_FLOAT_BINNED_SCALED(fold);
  }
}
static bool h_dbl(int h) { return h == 0 || h == 1 || h == 4 || h == 6 || h == 7 || h == 10; }
static bool h_cx(int h) { return h == 1 || h == 3 || h == 7 || h == 9; }
static bool h_sc(int h) { return h == 4 || h == 5 || h == 10 || h == 11; }
