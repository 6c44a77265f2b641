/* MPI subset whose ranks are fibers of one process; see harness/rt_mpi.cpp */
#ifndef FAKE_MPI_H
#define FAKE_MPI_H
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Request; typedef int MPI_Info; typedef long MPI_Aint; typedef int MPI_Errhandler; typedef int MPI_Group;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; long bytes_; } MPI_Status;
enum { MPI_SUCCESS = 0, MPI_ERR_TRUNCATE = 15, MPI_ERR_OTHER = 16 };
enum { MPI_COMM_NULL = 0, MPI_COMM_WORLD = 1, MPI_COMM_SELF = 2 };
enum { MPI_DATATYPE_NULL = 0, MPI_CHAR, MPI_SIGNED_CHAR, MPI_UNSIGNED_CHAR, MPI_BYTE, MPI_SHORT, MPI_UNSIGNED_SHORT, MPI_INT, MPI_UNSIGNED, MPI_LONG, MPI_UNSIGNED_LONG,
       MPI_LONG_LONG, MPI_UNSIGNED_LONG_LONG, MPI_FLOAT, MPI_DOUBLE, MPI_C_BOOL, MPI_INT32_T, MPI_INT64_T, MPI_UINT32_T, MPI_UINT64_T, MPI_UINT8_T, MPI_INT8_T, MPI_CXX_BOOL, MPI_DT_END };
#define MPI_LONG_LONG_INT MPI_LONG_LONG
enum { MPI_OP_NULL = 0, MPI_SUM, MPI_MAX, MPI_MIN, MPI_PROD, MPI_LAND, MPI_LOR, MPI_BAND, MPI_BOR, MPI_BXOR, MPI_LXOR };
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_ROOT (-3)
#define MPI_UNDEFINED (-32766)
#define MPI_IN_PLACE ((void*)1)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_REQUEST_NULL 0
#define MPI_INFO_NULL 0
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_MAX_ERROR_STRING 256
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_ERRORS_RETURN 1
#define MPI_ERRORS_ARE_FATAL 2
int MPI_Init(int*, char***); int MPI_Init_thread(int*, char***, int, int*); int MPI_Finalize(void); int MPI_Initialized(int*); int MPI_Finalized(int*);
int MPI_Abort(MPI_Comm, int); double MPI_Wtime(void); int MPI_Get_processor_name(char*, int*); int MPI_Query_thread(int*);
int MPI_Comm_rank(MPI_Comm, int*); int MPI_Comm_size(MPI_Comm, int*); int MPI_Comm_dup(MPI_Comm, MPI_Comm*); int MPI_Comm_free(MPI_Comm*); int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Type_size(MPI_Datatype, int*); int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*); int MPI_Error_string(int, char*, int*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Bsend(const void*, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Rsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*); int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*); int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Wait(MPI_Request*, MPI_Status*); int MPI_Waitall(int, MPI_Request*, MPI_Status*); int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*); int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Barrier(MPI_Comm); int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm); int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm); int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm); int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm); int MPI_Scatterv(const void*, const int*, const int*, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
#ifdef __cplusplus
}
#endif
#endif
