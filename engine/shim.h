/* Force-included into every translation unit: bridges the installed libsc 2.3.6 to what this t8code expects. */
#ifndef VP_SC_SHIM_H
#define VP_SC_SHIM_H
#include <sc.h>
#include <sc_mpi.h>
#include <mpi.h>
#ifndef sc_MPI_PACKED
#define sc_MPI_PACKED MPI_PACKED
#define sc_MPI_Pack MPI_Pack
#define sc_MPI_Unpack MPI_Unpack
#define sc_MPI_Pack_size MPI_Pack_size
#endif
#ifndef sc_MPI_INT8_T
#define sc_MPI_INT8_T MPI_INT8_T
#endif
#endif
