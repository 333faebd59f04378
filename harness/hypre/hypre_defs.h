// Stand-in for the parts of hypre 2.10 (built without global partitions) that parlinalgcpp uses.
#pragma once
#include "mpi.h"
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <cassert>
#include <vector>
#include <iostream>
#include <algorithm>
#include <numeric>
#define HYPRE_NO_GLOBAL_PARTITION 1
typedef int HYPRE_Int;
typedef double HYPRE_Real;
typedef double HYPRE_Complex;

#define hypre_CTAlloc(type, n) ((type*)hypre_alloc((size_t)(n) * sizeof(type)))
#define hypre_TAlloc(type, n) ((type*)hypre_alloc((size_t)(n) * sizeof(type)))
#define hypre_TFree(p) (free((void*)(p)), (p) = nullptr)
void* hypre_alloc(size_t bytes);                       // zeroed; nullptr for 0 bytes

extern thread_local HYPRE_Int hypre_error_flag;
#define hypre_error_in_arg(n) (hypre_error_flag |= (4 | ((n) << 3)))
HYPRE_Int hypre_NumThreads();
HYPRE_Int hypre_NumActiveThreads();
HYPRE_Int hypre_GetThreadNum();
HYPRE_Int HYPRE_AssumedPartitionCheck();
HYPRE_Int hypre_MPI_Comm_size(MPI_Comm, HYPRE_Int*);
HYPRE_Int hypre_MPI_Comm_rank(MPI_Comm, HYPRE_Int*);
HYPRE_Int hypre_BinarySearch(HYPRE_Int* list, HYPRE_Int value, HYPRE_Int n);

// ------------------------------------------------------------------ sequential objects
struct hypre_Vector { HYPRE_Complex* data; HYPRE_Int size; HYPRE_Int owns_data; };
#define hypre_VectorData(v) ((v)->data)
#define hypre_VectorSize(v) ((v)->size)
HYPRE_Int hypre_SeqVectorSetDataOwner(hypre_Vector*, HYPRE_Int);

struct hypre_CSRMatrix
{
    HYPRE_Int* i; HYPRE_Int* j; HYPRE_Int num_rows, num_cols, num_nonzeros;
    HYPRE_Int* rownnz; HYPRE_Int num_rownnz; HYPRE_Complex* data; HYPRE_Int owns_data;
};
#define hypre_CSRMatrixData(m) ((m)->data)
#define hypre_CSRMatrixI(m) ((m)->i)
#define hypre_CSRMatrixJ(m) ((m)->j)
#define hypre_CSRMatrixNumRows(m) ((m)->num_rows)
#define hypre_CSRMatrixNumCols(m) ((m)->num_cols)
#define hypre_CSRMatrixNumNonzeros(m) ((m)->num_nonzeros)
#define hypre_CSRMatrixOwnsData(m) ((m)->owns_data)
HYPRE_Int hypre_CSRMatrixDestroy(hypre_CSRMatrix*);
HYPRE_Int hypre_CSRMatrixSetRownnz(hypre_CSRMatrix*);
HYPRE_Int hypre_CSRMatrixReorder(hypre_CSRMatrix*);

// ------------------------------------------------------------------ distributed objects
struct hypre_ParVector_struct
{
    MPI_Comm comm; HYPRE_Int global_size, first_index, last_index; HYPRE_Int* partitioning;
    hypre_Vector* local_vector; HYPRE_Int owns_data, owns_partitioning;
};
typedef hypre_ParVector_struct hypre_ParVector;
typedef hypre_ParVector_struct* HYPRE_ParVector;
#define hypre_ParVectorLocalVector(v) ((v)->local_vector)
#define hypre_ParVectorGlobalSize(v) ((v)->global_size)
hypre_ParVector* hypre_ParVectorCreate(MPI_Comm, HYPRE_Int, HYPRE_Int*);
HYPRE_Int hypre_ParVectorDestroy(hypre_ParVector*);
HYPRE_Int hypre_ParVectorInitialize(hypre_ParVector*);
HYPRE_Int hypre_ParVectorSetDataOwner(hypre_ParVector*, HYPRE_Int);
HYPRE_Int hypre_ParVectorSetPartitioningOwner(hypre_ParVector*, HYPRE_Int);

struct hypre_ParCSRCommPkg
{
    MPI_Comm comm; HYPRE_Int num_sends; HYPRE_Int* send_procs; HYPRE_Int* send_map_starts; HYPRE_Int* send_map_elmts;
    HYPRE_Int num_recvs; HYPRE_Int* recv_procs; HYPRE_Int* recv_vec_starts;
};
#define hypre_ParCSRCommPkgComm(p) ((p)->comm)
#define hypre_ParCSRCommPkgNumSends(p) ((p)->num_sends)
#define hypre_ParCSRCommPkgSendProcs(p) ((p)->send_procs)
#define hypre_ParCSRCommPkgSendMapStarts(p) ((p)->send_map_starts)
#define hypre_ParCSRCommPkgSendMapElmts(p) ((p)->send_map_elmts)
#define hypre_ParCSRCommPkgNumRecvs(p) ((p)->num_recvs)
#define hypre_ParCSRCommPkgRecvProcs(p) ((p)->recv_procs)
#define hypre_ParCSRCommPkgRecvVecStarts(p) ((p)->recv_vec_starts)
struct hypre_ParCSRCommHandle { HYPRE_Int job; hypre_ParCSRCommPkg* pkg; void* recv; };
hypre_ParCSRCommHandle* hypre_ParCSRCommHandleCreate(HYPRE_Int job, hypre_ParCSRCommPkg*, void* send, void* recv);
HYPRE_Int hypre_ParCSRCommHandleDestroy(hypre_ParCSRCommHandle*);

struct hypre_ParCSRMatrix_struct
{
    MPI_Comm comm; HYPRE_Int global_num_rows, global_num_cols, first_row_index, first_col_diag, last_row_index, last_col_diag;
    hypre_CSRMatrix* diag; hypre_CSRMatrix* offd; HYPRE_Int* col_map_offd; HYPRE_Int* row_starts; HYPRE_Int* col_starts;
    hypre_ParCSRCommPkg* comm_pkg; HYPRE_Int owns_data, owns_row_starts, owns_col_starts, num_nonzeros;
};
typedef hypre_ParCSRMatrix_struct hypre_ParCSRMatrix;
typedef hypre_ParCSRMatrix_struct* HYPRE_ParCSRMatrix;
#define hypre_ParCSRMatrixComm(m) ((m)->comm)
#define hypre_ParCSRMatrixGlobalNumRows(m) ((m)->global_num_rows)
#define hypre_ParCSRMatrixGlobalNumCols(m) ((m)->global_num_cols)
#define hypre_ParCSRMatrixFirstRowIndex(m) ((m)->first_row_index)
#define hypre_ParCSRMatrixFirstColDiag(m) ((m)->first_col_diag)
#define hypre_ParCSRMatrixDiag(m) ((m)->diag)
#define hypre_ParCSRMatrixOffd(m) ((m)->offd)
#define hypre_ParCSRMatrixColMapOffd(m) ((m)->col_map_offd)
#define hypre_ParCSRMatrixRowStarts(m) ((m)->row_starts)
#define hypre_ParCSRMatrixColStarts(m) ((m)->col_starts)
#define hypre_ParCSRMatrixCommPkg(m) ((m)->comm_pkg)
#define hypre_ParCSRMatrixOwnsData(m) ((m)->owns_data)
#define hypre_ParCSRMatrixOwnsRowStarts(m) ((m)->owns_row_starts)
#define hypre_ParCSRMatrixOwnsColStarts(m) ((m)->owns_col_starts)
#define hypre_ParCSRMatrixNumRows(m) ((m)->diag->num_rows)
#define hypre_ParCSRMatrixNumCols(m) ((m)->diag->num_cols)
#define hypre_ParCSRMatrixNumNonzeros(m) ((m)->num_nonzeros)
hypre_ParCSRMatrix* hypre_ParCSRMatrixCreate(MPI_Comm, HYPRE_Int, HYPRE_Int, HYPRE_Int*, HYPRE_Int*, HYPRE_Int, HYPRE_Int, HYPRE_Int);
HYPRE_Int hypre_ParCSRMatrixDestroy(hypre_ParCSRMatrix*);
HYPRE_Int hypre_ParCSRMatrixSetNumNonzeros(hypre_ParCSRMatrix*);
HYPRE_Int hypre_MatvecCommPkgCreate(hypre_ParCSRMatrix*);
HYPRE_Int hypre_MatvecCommPkgDestroy(hypre_ParCSRCommPkg*);
HYPRE_Int hypre_ParCSRMatrixMatvec(HYPRE_Complex alpha, hypre_ParCSRMatrix*, hypre_ParVector* x, HYPRE_Complex beta, hypre_ParVector* y);
HYPRE_Int hypre_ParCSRMatrixMatvecT(HYPRE_Complex alpha, hypre_ParCSRMatrix*, hypre_ParVector* x, HYPRE_Complex beta, hypre_ParVector* y);
hypre_CSRMatrix* hypre_ParCSRMatrixExtractBExt(hypre_ParCSRMatrix* B, hypre_ParCSRMatrix* A, HYPRE_Int data);

// ------------------------------------------------------------------ solvers
struct hypre_Solver_struct;
typedef hypre_Solver_struct* HYPRE_Solver;
struct hypre_Matrix_struct;
typedef hypre_Matrix_struct* HYPRE_Matrix;
struct hypre_Vector_struct;
typedef hypre_Vector_struct* HYPRE_Vector;
typedef HYPRE_Int (*HYPRE_PtrToSolverFcn)(HYPRE_Solver, HYPRE_Matrix, HYPRE_Vector, HYPRE_Vector);
typedef HYPRE_Int (*HYPRE_PtrToParSolverFcn)(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector);
#define PAR_FCN(name) HYPRE_Int name(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector)
HYPRE_Int HYPRE_ParCSRPCGCreate(MPI_Comm, HYPRE_Solver*);
HYPRE_Int HYPRE_ParCSRPCGDestroy(HYPRE_Solver);
PAR_FCN(HYPRE_ParCSRPCGSetup);
PAR_FCN(HYPRE_ParCSRPCGSolve);
HYPRE_Int HYPRE_ParCSRPCGSetPrintLevel(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_ParCSRPCGSetPrecond(HYPRE_Solver, HYPRE_PtrToParSolverFcn precond, HYPRE_PtrToParSolverFcn setup, HYPRE_Solver);
HYPRE_Int HYPRE_PCGSetTol(HYPRE_Solver, HYPRE_Real);
HYPRE_Int HYPRE_PCGSetMaxIter(HYPRE_Solver, HYPRE_Int);
PAR_FCN(HYPRE_ParCSRDiagScale);
PAR_FCN(HYPRE_ParCSRDiagScaleSetup);
HYPRE_Int HYPRE_BoomerAMGCreate(HYPRE_Solver*);
HYPRE_Int HYPRE_BoomerAMGDestroy(HYPRE_Solver);
PAR_FCN(HYPRE_BoomerAMGSetup);
PAR_FCN(HYPRE_BoomerAMGSolve);
HYPRE_Int HYPRE_BoomerAMGSetCoarsenType(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetAggNumLevels(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetRelaxType(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetNumSweeps(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetStrongThreshold(HYPRE_Solver, HYPRE_Real);
HYPRE_Int HYPRE_BoomerAMGSetInterpType(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetPMaxElmts(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetMaxLevels(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetPrintLevel(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetMaxIter(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetTol(HYPRE_Solver, HYPRE_Real);
HYPRE_Int HYPRE_ParaSailsCreate(MPI_Comm, HYPRE_Solver*);
HYPRE_Int HYPRE_ParaSailsDestroy(HYPRE_Solver);
PAR_FCN(HYPRE_ParaSailsSetup);
PAR_FCN(HYPRE_ParaSailsSolve);
HYPRE_Int HYPRE_ParaSailsSetParams(HYPRE_Solver, HYPRE_Real, HYPRE_Int);
HYPRE_Int HYPRE_ParaSailsSetFilter(HYPRE_Solver, HYPRE_Real);
HYPRE_Int HYPRE_ParaSailsSetSym(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_ParaSailsSetLoadbal(HYPRE_Solver, HYPRE_Real);
HYPRE_Int HYPRE_ParaSailsSetReuse(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_ParaSailsSetLogging(HYPRE_Solver, HYPRE_Int);
HYPRE_Int hypre_ParCSRRelax(hypre_ParCSRMatrix* A, hypre_ParVector* f, HYPRE_Int relax_type, HYPRE_Int relax_times, HYPRE_Real* l1_norms,
                            HYPRE_Real relax_weight, HYPRE_Real omega, HYPRE_Real max_eig_est, HYPRE_Real min_eig_est,
                            HYPRE_Int cheby_order, HYPRE_Real cheby_fraction, hypre_ParVector* u, hypre_ParVector* v, hypre_ParVector* z);

// ------------------------------------------------------------------ LOBPCG
struct mv_InterfaceInterpreter { int unused; };
struct HYPRE_MatvecFunctions
{
    void* (*MatvecCreate)(void* A, void* x);
    HYPRE_Int (*Matvec)(void* data, HYPRE_Complex alpha, void* A, void* x, HYPRE_Complex beta, void* y);
    HYPRE_Int (*MatvecDestroy)(void*);
};
struct mv_TempMultiVector { int numVectors; void** vector; };
struct mv_MultiVector;
typedef mv_MultiVector* mv_MultiVectorPtr;
mv_MultiVectorPtr mv_MultiVectorCreateFromSampleVector(void* interp, HYPRE_Int n, void* sample);
void* mv_MultiVectorGetData(mv_MultiVectorPtr);
void mv_MultiVectorDestroy(mv_MultiVectorPtr);
HYPRE_Int HYPRE_ParCSRSetupInterpreter(mv_InterfaceInterpreter*);
HYPRE_Int HYPRE_ParCSRSetupMatvec(HYPRE_MatvecFunctions*);
HYPRE_Int HYPRE_LOBPCGCreate(mv_InterfaceInterpreter*, HYPRE_MatvecFunctions*, HYPRE_Solver*);
HYPRE_Int HYPRE_LOBPCGDestroy(HYPRE_Solver);
HYPRE_Int HYPRE_LOBPCGSetup(HYPRE_Solver, HYPRE_Matrix, HYPRE_Vector, HYPRE_Vector);
HYPRE_Int HYPRE_LOBPCGSetPrintLevel(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_LOBPCGSetPrecond(HYPRE_Solver, HYPRE_PtrToSolverFcn precond, HYPRE_PtrToSolverFcn setup, HYPRE_Solver);
HYPRE_Int HYPRE_LOBPCGSolve(HYPRE_Solver, mv_MultiVectorPtr constraints, mv_MultiVectorPtr vecs, HYPRE_Real* vals);
