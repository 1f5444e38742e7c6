#ifndef FAKE_MPI
#define FAKE_MPI
typedef int MPI_Comm; typedef int MPI_Request; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Group; typedef long MPI_Aint; typedef int MPI_File; typedef int MPI_Info; typedef long MPI_Offset;
typedef struct { int MPI_SOURCE; int MPI_TAG; int MPI_ERROR; } MPI_Status;
extern MPI_Comm MPI_COMM_WORLD; extern MPI_Comm MPI_COMM_NULL;
extern MPI_Datatype MPI_DOUBLE, MPI_FLOAT, MPI_INT, MPI_LONG, MPI_CHAR, MPI_BYTE, MPI_DATATYPE_NULL, MPI_UNSIGNED, MPI_SHORT;
extern MPI_Op MPI_SUM, MPI_MAX, MPI_MIN, MPI_LAND, MPI_LOR; extern MPI_Request MPI_REQUEST_NULL; extern MPI_Group MPI_GROUP_NULL;
#define MPI_SUCCESS 0
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_UNDEFINED (-32766)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_MAX_PROCESSOR_NAME 256
int MPI_Init(int *a, char ***b); int MPI_Finalize(void); int MPI_Abort(MPI_Comm c, int e); int MPI_Barrier(MPI_Comm c);
int MPI_Comm_rank(MPI_Comm c, int *r); int MPI_Comm_size(MPI_Comm c, int *r);
int MPI_Send(void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c); int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st);
int MPI_Isend(void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r); int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r);
int MPI_Wait(MPI_Request *r, MPI_Status *s); int MPI_Waitall(int n, MPI_Request *r, MPI_Status *s); int MPI_Waitany(int n, MPI_Request *r, int *i, MPI_Status *s); int MPI_Test(MPI_Request *r, int *f, MPI_Status *s);
int MPI_Bcast(void *b, int n, MPI_Datatype t, int r, MPI_Comm c); int MPI_Reduce(void *a, void *b, int n, MPI_Datatype t, MPI_Op o, int r, MPI_Comm c); int MPI_Allreduce(void *a, void *b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c);
int MPI_Comm_group(MPI_Comm c, MPI_Group *g); int MPI_Group_incl(MPI_Group g, int n, int *r, MPI_Group *h); int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *d); int MPI_Group_free(MPI_Group *g);
int MPI_Comm_split(MPI_Comm c, int a, int b, MPI_Comm *d); int MPI_Comm_dup(MPI_Comm c, MPI_Comm *d); int MPI_Comm_free(MPI_Comm *d);
int MPI_Group_translate_ranks(MPI_Group a, int n, int *r, MPI_Group b, int *s); int MPI_Get_count(MPI_Status *s, MPI_Datatype t, int *n);
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *u); int MPI_Type_commit(MPI_Datatype *u); int MPI_Type_free(MPI_Datatype *u); double MPI_Wtime(void);
int MPI_Sendrecv(void *a, int n, MPI_Datatype t, int d, int tag, void *b, int m, MPI_Datatype u, int s, int tag2, MPI_Comm c, MPI_Status *st);
int MPI_Gather(void *a, int n, MPI_Datatype t, void *b, int m, MPI_Datatype u, int r, MPI_Comm c); int MPI_Allgather(void *a, int n, MPI_Datatype t, void *b, int m, MPI_Datatype u, MPI_Comm c);
int MPI_Get_processor_name(char *s, int *n);
#endif
