// Stand-in for MPI: the ranks of a program are threads of one process (see ranks.hpp).
#pragma once
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
enum { MPI_COMM_WORLD = 91, MPI_COMM_NULL = 0 };
enum { MPI_INT = 1, MPI_DOUBLE = 2 };
enum { MPI_SUM = 1, MPI_MAX = 2, MPI_MIN = 3, MPI_PROD = 4, MPI_LAND = 5, MPI_LOR = 6 };
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; } MPI_Status;
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
enum { MPI_SUCCESS = 0 };
#define MPI_IN_PLACE ((void*)-1)
namespace MPI { static const MPI_Datatype INT = MPI_INT, DOUBLE = MPI_DOUBLE; static const MPI_Op SUM = MPI_SUM, MAX = MPI_MAX, MIN = MPI_MIN; }
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int root, MPI_Comm);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int root, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int* counts, const int* displs, MPI_Datatype, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int root, MPI_Comm);
int MPI_Send(const void*, int, MPI_Datatype, int dest, int tag, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int source, int tag, MPI_Comm, MPI_Status*);
int MPI_Barrier(MPI_Comm);
