// Message-passing interface of the simulator (replaces the system's mpi.h when the engines are built for simulation).
#pragma once
#include <stddef.h>
#include <stdint.h>
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Request; typedef int MPI_Errhandler; typedef int MPI_Info; typedef int MPI_Group; typedef ptrdiff_t MPI_Aint; typedef long long MPI_Offset;
typedef struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; long count_; } MPI_Status;
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#define MPICH_NAME 3
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_DATATYPE_NULL 0
#define MPI_CHAR 1
#define MPI_SIGNED_CHAR 2
#define MPI_UNSIGNED_CHAR 3
#define MPI_BYTE 4
#define MPI_SHORT 5
#define MPI_UNSIGNED_SHORT 6
#define MPI_INT 7
#define MPI_UNSIGNED 8
#define MPI_LONG 9
#define MPI_UNSIGNED_LONG 10
#define MPI_LONG_LONG_INT 11
#define MPI_LONG_LONG 11
#define MPI_UNSIGNED_LONG_LONG 12
#define MPI_FLOAT 13
#define MPI_DOUBLE 14
#define MPI_LONG_DOUBLE 15
#define MPI_INT8_T 16
#define MPI_UINT8_T 17
#define MPI_INT32_T 18
#define MPI_UINT32_T 19
#define MPI_INT64_T 20
#define MPI_UINT64_T 21
#define MPI_C_BOOL 22
#define MPI_CXX_BOOL 23
#define MPI_DOUBLE_INT 24
#define MPI_2INT 25
#define MPI_OP_NULL 0
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_PROD 4
#define MPI_LAND 5
#define MPI_LOR 6
#define MPI_BAND 7
#define MPI_BOR 8
#define MPI_BXOR 9
#define MPI_LXOR 10
#define MPI_MAXLOC 11
#define MPI_MINLOC 12
#define MPI_SUCCESS 0
#define MPI_ERR_COUNT 2
#define MPI_ERR_COMM 5
#define MPI_ERR_RANK 6
#define MPI_ERR_TRUNCATE 14
#define MPI_ERR_OTHER 15
#define MPI_ERR_INTERN 16
#define MPI_ANY_SOURCE (-2)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-1)
#define MPI_REQUEST_NULL 0
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_ERRORS_ARE_FATAL 1
#define MPI_ERRORS_RETURN 2
#define MPI_INFO_NULL 0
#define MPI_MAX_PROCESSOR_NAME 128
#define MPI_MAX_ERROR_STRING 512
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_UNDEFINED (-32766)
#ifdef __cplusplus
extern "C" {
#endif
int MPI_Init(int*, char***); int MPI_Init_thread(int*, char***, int, int*); int MPI_Initialized(int*); int MPI_Finalize(void); int MPI_Finalized(int*); int MPI_Abort(MPI_Comm, int);
int MPI_Comm_size(MPI_Comm, int*); int MPI_Comm_rank(MPI_Comm, int*); int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler); int MPI_Comm_dup(MPI_Comm, MPI_Comm*); int MPI_Comm_free(MPI_Comm*);
int MPI_Get_processor_name(char*, int*); int MPI_Error_string(int, char*, int*); int MPI_Type_size(MPI_Datatype, int*); double MPI_Wtime(void);
int MPI_Barrier(MPI_Comm); int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm); int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce_scatter_block(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm); int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm); int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm); int MPI_Scatterv(const void*, const int*, const int*, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Bsend(const void*, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Rsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*); int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*); int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*); int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Wait(MPI_Request*, MPI_Status*); int MPI_Waitall(int, MPI_Request*, MPI_Status*); int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*); int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Waitsome(int, MPI_Request*, int*, int*, MPI_Status*); int MPI_Testall(int, MPI_Request*, int*, MPI_Status*); int MPI_Testany(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Ibarrier(MPI_Comm, MPI_Request*); int MPI_Ibcast(void*, int, MPI_Datatype, int, MPI_Comm, MPI_Request*); int MPI_Iallreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request*); int MPI_Ireduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm, MPI_Request*); int MPI_Iallgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm, MPI_Request*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*); int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*); int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
#ifdef __cplusplus
}
namespace MPI {
typedef int Datatype;
static const Datatype CHAR = MPI_CHAR, SIGNED_CHAR = MPI_SIGNED_CHAR, UNSIGNED_CHAR = MPI_UNSIGNED_CHAR, BYTE = MPI_BYTE, SHORT = MPI_SHORT, UNSIGNED_SHORT = MPI_UNSIGNED_SHORT, INT = MPI_INT, UNSIGNED = MPI_UNSIGNED,
  LONG = MPI_LONG, UNSIGNED_LONG = MPI_UNSIGNED_LONG, LONG_LONG = MPI_LONG_LONG, UNSIGNED_LONG_LONG = MPI_UNSIGNED_LONG_LONG, FLOAT = MPI_FLOAT, DOUBLE = MPI_DOUBLE, LONG_DOUBLE = MPI_LONG_DOUBLE, BOOL = MPI_CXX_BOOL;
}
#endif
