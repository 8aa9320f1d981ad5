/* Minimal MPI interface for symbolic execution: the engine implements these functions (sx/mpi.hpp). Native builds use the real MPI. */
#ifndef SX_MPI_H
#define SX_MPI_H
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Request; typedef int MPI_Op; typedef long MPI_Aint; typedef int MPI_Fint;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR, count_; } MPI_Status;
#define MPI_COMM_NULL (-1)
#define MPI_COMM_WORLD 0
#define MPI_COMM_SELF 1
#define MPI_REQUEST_NULL (-1)
#define MPI_DATATYPE_NULL (-1)
#define MPI_CHAR 1
#define MPI_BYTE 2
#define MPI_INT 3
#define MPI_LONG 4
#define MPI_FLOAT 5
#define MPI_DOUBLE 6
#define MPI_C_FLOAT_COMPLEX 7
#define MPI_C_DOUBLE_COMPLEX 8
#define MPI_SUM 1
#define MPI_MIN 2
#define MPI_MAX 3
#define MPI_SUCCESS 0
#define MPI_ERR_BUFFER 1
#define MPI_ERR_COUNT 2
#define MPI_IN_PLACE ((void *) -1)
#define MPI_BOTTOM ((void *) 0)
#define MPI_STATUS_IGNORE ((MPI_Status *) 0)
#define MPI_STATUSES_IGNORE ((MPI_Status *) 0)
#define MPI_PROC_NULL (-2)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_UNDEFINED (-32766)
int MPI_Init(int *, char ***); int MPI_Finalize(void); int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int *); int MPI_Comm_size(MPI_Comm, int *); int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm *); int MPI_Comm_free(MPI_Comm *); int MPI_Comm_dup(MPI_Comm, MPI_Comm *);
MPI_Comm MPI_Comm_f2c(MPI_Fint); MPI_Fint MPI_Comm_c2f(MPI_Comm);
int MPI_Cart_create(MPI_Comm, int, const int *, const int *, int, MPI_Comm *); int MPI_Cart_coords(MPI_Comm, int, int, int *); int MPI_Cart_shift(MPI_Comm, int, int, int *, int *); int MPI_Cart_rank(MPI_Comm, const int *, int *);
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Ssend(const void *, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *); int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Wait(MPI_Request *, MPI_Status *); int MPI_Waitall(int, MPI_Request *, MPI_Status *); int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *);
int MPI_Barrier(MPI_Comm); int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Get_address(const void *, MPI_Aint *); int MPI_Type_create_struct(int, const int *, const MPI_Aint *, const MPI_Datatype *, MPI_Datatype *); int MPI_Type_commit(MPI_Datatype *); int MPI_Type_free(MPI_Datatype *);
double MPI_Wtime(void);
#endif
