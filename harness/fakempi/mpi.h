/* A small MPI for conformance checking: ranks are processes created by
 * fork, messages live in shared memory, and a baton decides who runs, so
 * that schedules are chosen by a seed, buffering is under control and a
 * deadlock is noticed. */
#ifndef FAKE_MPI_H
#define FAKE_MPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Request;
typedef long MPI_Aint;
typedef int MPI_Info;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; size_t count_bytes; } MPI_Status;
#define MPI_COMM_NULL (-1)
#define MPI_COMM_WORLD 0
#define MPI_COMM_SELF 15
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_ERR_TRUNCATE 14
#define MPI_PROC_NULL (-2)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_UNDEFINED (-32766)
#define MPI_REQUEST_NULL (-1)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_MAX_PROCESSOR_NAME 128
#define MPI_MAX_ERROR_STRING 128
#define MPI_INFO_NULL 0
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_MULTIPLE 3
/* datatypes: low byte is the size */
#define MPI_BYTE 0x101
#define MPI_CHAR 0x201
#define MPI_SIGNED_CHAR 0x301
#define MPI_UNSIGNED_CHAR 0x401
#define MPI_SHORT 0x502
#define MPI_UNSIGNED_SHORT 0x602
#define MPI_INT 0x704
#define MPI_UNSIGNED 0x804
#define MPI_LONG 0x908
#define MPI_UNSIGNED_LONG 0xa08
#define MPI_LONG_LONG 0xb08
#define MPI_LONG_LONG_INT 0xb08
#define MPI_UNSIGNED_LONG_LONG 0xc08
#define MPI_FLOAT 0xd04
#define MPI_DOUBLE 0xe08
#define MPI_INT32_T 0x704
#define MPI_UINT32_T 0x804
#define MPI_INT64_T 0x908
#define MPI_UINT64_T 0xa08
#define MPI_INT8_T 0x301
#define MPI_UINT8_T 0x401
#define MPI_INT16_T 0x502
#define MPI_UINT16_T 0x602
#define MPI_C_BOOL 0x401
#define MPI_AINT 0x908
#define MPI_OFFSET 0x908
#define MPI_2INT 0xf08
enum { MPI_OP_NULL_=0, MPI_SUM, MPI_MAX, MPI_MIN, MPI_PROD, MPI_LAND, MPI_LOR, MPI_BAND, MPI_BOR, MPI_LXOR, MPI_BXOR, MPI_MAXLOC, MPI_MINLOC };
int MPI_Init(int*,char***); int MPI_Init_thread(int*,char***,int,int*); int MPI_Finalize(void); int MPI_Initialized(int*); int MPI_Finalized(int*);
int MPI_Abort(MPI_Comm,int); double MPI_Wtime(void); int MPI_Get_processor_name(char*,int*); int MPI_Error_string(int,char*,int*);
int MPI_Comm_rank(MPI_Comm,int*); int MPI_Comm_size(MPI_Comm,int*); int MPI_Comm_dup(MPI_Comm,MPI_Comm*); int MPI_Comm_free(MPI_Comm*);
int MPI_Type_size(MPI_Datatype,int*); int MPI_Get_count(const MPI_Status*,MPI_Datatype,int*);
int MPI_Send(const void*,int,MPI_Datatype,int,int,MPI_Comm); int MPI_Ssend(const void*,int,MPI_Datatype,int,int,MPI_Comm); int MPI_Bsend(const void*,int,MPI_Datatype,int,int,MPI_Comm); int MPI_Rsend(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Recv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
int MPI_Sendrecv(const void*,int,MPI_Datatype,int,int,void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
int MPI_Sendrecv_replace(void*,int,MPI_Datatype,int,int,int,int,MPI_Comm,MPI_Status*);
int MPI_Isend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*); int MPI_Issend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Irecv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Wait(MPI_Request*,MPI_Status*); int MPI_Waitall(int,MPI_Request[],MPI_Status[]); int MPI_Waitany(int,MPI_Request[],int*,MPI_Status*); int MPI_Waitsome(int,MPI_Request[],int*,int[],MPI_Status[]);
int MPI_Test(MPI_Request*,int*,MPI_Status*); int MPI_Testall(int,MPI_Request[],int*,MPI_Status[]);
int MPI_Request_free(MPI_Request*);
int MPI_Probe(int,int,MPI_Comm,MPI_Status*); int MPI_Iprobe(int,int,MPI_Comm,int*,MPI_Status*);
int MPI_Barrier(MPI_Comm); int MPI_Bcast(void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Reduce(const void*,void*,int,MPI_Datatype,MPI_Op,int,MPI_Comm); int MPI_Allreduce(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Scan(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm); int MPI_Exscan(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Gather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm); int MPI_Gatherv(const void*,int,MPI_Datatype,void*,const int[],const int[],MPI_Datatype,int,MPI_Comm);
int MPI_Allgather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm); int MPI_Allgatherv(const void*,int,MPI_Datatype,void*,const int[],const int[],MPI_Datatype,MPI_Comm);
int MPI_Scatter(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm); int MPI_Scatterv(const void*,const int[],const int[],MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Alltoall(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm); int MPI_Alltoallv(const void*,const int[],const int[],MPI_Datatype,void*,const int[],const int[],MPI_Datatype,MPI_Comm);
int MPI_Ibarrier(MPI_Comm,MPI_Request*); 

/* ---- control by the driver ---- */
#define FM_MAXR 64
#define FM_EXIT_DEADLOCK 77
#define FM_EXIT_MISMATCH 78
#define FM_EXIT_TRUNC 79
#define FM_EXIT_USAGE 80
void fm_setup(int nranks, unsigned long seed, int mode);     /* parent, before fork */
void fm_set_comm(int id, int n, const int* world_ranks);     /* parent, before fork */
void fm_start(int rank);                                     /* in each rank */
void fm_done(void);                                          /* rank has finished its program */
int fm_all_done(void);
int fm_leftover(void);                                       /* user messages sent but never received */
int fm_status(void);                                         /* 0, or FM_EXIT_* noticed by some rank */
int fm_rank_done(int rank);
void fm_yield(void);
void fm_block(const char* why);                              /* until some other rank makes progress */
void fm_bump(void);                                          /* progress that may release a blocked rank */
long fm_clock(void);
void fm_sched(const int* choices,int n,int systematic);      /* parent: fixed first choices; then 0 (systematic) or random */
int fm_choices(const int** chosen,const int** of,const int** preempt); /* parent, after a run */
const char* fm_where(int rank);                              /* what the rank was doing last */
#ifdef __cplusplus
}
#endif
#endif
