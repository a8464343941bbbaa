#define _GNU_SOURCE
#include "mpi.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <limits.h>

#define MAXMSG 65536
#define MAXRCV 65536
#define MAXCOMM 64
#define HEAP ((size_t)3<<30)
#define HDR ((size_t)64<<20)
enum { M_FREE=0, M_POSTED, M_MATCHED, M_READY, M_TAKEN };
typedef struct { int state, ctx, src, dst, tag, rcv, eager, user, released; unsigned sig; size_t size, off; } msg;
typedef struct { int state, ctx, src, dst, tag, m; } rcv;   /* state: 1 posted, 2 matched, 0 free */
enum { R_READY=0, R_BLOCKED, R_DONE };
typedef struct {
  int n, mode, status, turn; unsigned long prng, progress; size_t heap; long clock;
  int systematic, nsched, nlog, policy, npick, prio[FM_MAXR], low, cp[4]; int sched[8192], chosen[8192], of[8192], preempt[8192];
  int st[FM_MAXR]; unsigned long blk[FM_MAXR]; int go[FM_MAXR]; char where[FM_MAXR][80];
  int csize[MAXCOMM]; int crank[MAXCOMM][FM_MAXR];
  int nm, nr; msg m[MAXMSG]; rcv r[MAXRCV];
} shm;
static shm* G; static char* H; static int me=-1;
/* local requests */
typedef struct { int kind, idx; void* buf; size_t size; int ctx; const void* sbuf; } req;   /* kind 0 free,1 send,2 recv,3 null */
static req rq[4096]; static unsigned cseq[MAXCOMM]; static int dups[MAXCOMM];

static int fwait(int* p,int v){ return syscall(SYS_futex,p,FUTEX_WAIT,v,NULL,NULL,0); }
static void fwake(int* p){ syscall(SYS_futex,p,FUTEX_WAKE,1,NULL,NULL,0); }
static unsigned long rnd(void){ unsigned long x=G->prng; x^=x<<13; x^=x>>7; x^=x<<17; G->prng=x; return x>>11; }
static void die(int code,const char* why){ if(!G->status) G->status=code; snprintf(G->where[me],80,"%s",why); _exit(code); }
/* how a seed's schedule chooses: evenly, in bursts, or by priorities that change at a few points */
static int choose(const int*c,int k,int mine){ G->npick++;
  if(G->policy==1) return mine&&rnd()%12?0:(int)(rnd()%k);
  if(G->policy==2){ for(int i=0;i<4;i++) if(G->npick==G->cp[i]&&mine) G->prio[c[0]]=--G->low; int b=0; for(int i=1;i<k;i++) if(G->prio[c[i]]>G->prio[c[b]]) b=i; return b; }
  return (int)(rnd()%k); }
static int pick(void){ int c[FM_MAXR],k=0; if(me>=0&&(G->st[me]==R_READY||(G->st[me]==R_BLOCKED&&G->blk[me]!=G->progress))) c[k++]=me; int mine=k;
  for(int i=0;i<G->n;i++) if(i!=me&&(G->st[i]==R_READY||(G->st[i]==R_BLOCKED&&G->blk[i]!=G->progress))) c[k++]=i;
  if(!k) return -1; if(k==1) return c[0];
  int x; if(G->nlog<G->nsched) x=G->sched[G->nlog]%k; else x=G->systematic?0:choose(c,k,mine);
  if(G->nlog<8192){ G->chosen[G->nlog]=x; G->of[G->nlog]=k; G->preempt[G->nlog]=mine; G->nlog++; }
  return c[x]; }
static void handto(int r){ G->turn=r; if(r==me) return; __atomic_store_n(&G->go[r],1,__ATOMIC_SEQ_CST); fwake(&G->go[r]); }
static void waitgo(void){ while(!__atomic_load_n(&G->go[me],__ATOMIC_SEQ_CST)) fwait(&G->go[me],0); __atomic_store_n(&G->go[me],0,__ATOMIC_SEQ_CST); }
static void yield_(void){ int r=pick(); if(r==me||r<0) return; handto(r); waitgo(); }
static void block_(const char* why){ snprintf(G->where[me],80,"%s",why); G->st[me]=R_BLOCKED; G->blk[me]=G->progress; int r=pick();
  if(r<0) die(FM_EXIT_DEADLOCK,why);
  if(r!=me){ handto(r); waitgo(); } G->st[me]=R_READY; }
static void bump(void){ G->progress++; }
void fm_yield(void){ yield_(); } void fm_block(const char*w){ block_(w); } void fm_bump(void){ bump(); } long fm_clock(void){ return ++G->clock; }
void fm_sched(const int*c,int n,int sys){ G->systematic=sys; G->nsched=n; for(int i=0;i<n&&i<8192;i++)G->sched[i]=c[i]; if(sys){ for(int i=0;i<G->n;i++)G->go[i]=0; G->go[0]=1; } }
int fm_choices(const int**c,const int**o,const int**p){ *c=G->chosen; *o=G->of; *p=G->preempt; return G->nlog; }

void fm_setup(int n,unsigned long seed,int mode){
  if(!G){ char*p=mmap(NULL,HDR+HEAP,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(p==MAP_FAILED){perror("fm mmap");_exit(97);} G=(shm*)p; H=p+HDR; if(sizeof(shm)>HDR)_exit(97); }
  else if(G->heap) madvise(H,(G->heap+4095)&~(size_t)4095,MADV_REMOVE);
  size_t used=(size_t)((char*)&G->m[0]-(char*)G); int nm=G->nm,nr=G->nr; memset(G,0,used); memset(G->m,0,sizeof(msg)*nm); memset(G->r,0,sizeof(rcv)*nr); G->nm=G->nr=0;
  G->n=n; G->mode=mode; G->prng=seed*2654435761UL+88172645463325252UL; for(int i=0;i<5;i++)rnd();
  { int x=rnd()%4; G->policy=x<2?0:x-1; for(int i=0;i<n;i++) G->prio[i]=rnd()%10000; for(int i=0;i<4;i++) G->cp[i]=1+rnd()%(40*n); }
  for(int c=0;c<MAXCOMM;c++)G->csize[c]=-1;
  G->csize[MPI_COMM_WORLD]=n; for(int i=0;i<n;i++)G->crank[0][i]=i; G->csize[MPI_COMM_SELF]=1; memset(cseq,0,sizeof cseq); memset(dups,0,sizeof dups); memset(rq,0,sizeof rq);
  G->go[rnd()%n]=1; }
void fm_set_comm(int id,int n,const int* w){ G->csize[id]=n; for(int i=0;i<n;i++)G->crank[id][i]=w[i]; }
void fm_start(int rank){ me=rank; G->crank[MPI_COMM_SELF][0]=rank; waitgo(); G->turn=me; }
void fm_done(void){ G->st[me]=R_DONE; bump(); int r=pick(); if(r<0){ int all=1; for(int i=0;i<G->n;i++) if(G->st[i]!=R_DONE) all=0; if(!all) { G->status=FM_EXIT_DEADLOCK; } return; } handto(r); }
int fm_all_done(void){ for(int i=0;i<G->n;i++) if(G->st[i]!=R_DONE) return 0; return 1; }
int fm_rank_done(int r){ return G->st[r]==R_DONE; }
int fm_status(void){ return G->status; }
const char* fm_where(int r){ return G->where[r]; }
int fm_leftover(void){ int k=0; for(int i=0;i<G->nm;i++) if(G->m[i].state!=M_FREE&&G->m[i].state!=M_TAKEN) k++; for(int i=0;i<G->nr;i++) if(G->r[i].state==1) k++; return k; }

static size_t tsz(MPI_Datatype t){ return t&0xff; }
static int world(MPI_Comm c,int r){ if(c<0||c>=MAXCOMM||G->csize[c]<0) die(FM_EXIT_USAGE,"bad communicator"); if(c==MPI_COMM_SELF){ if(r!=0)die(FM_EXIT_USAGE,"bad rank"); return me; } if(r<0||r>=G->csize[c]) die(FM_EXIT_USAGE,"rank out of range"); return G->crank[c][r]; }
static int crank(MPI_Comm c,int w){ if(c==MPI_COMM_SELF) return w==me?0:MPI_UNDEFINED; for(int i=0;i<G->csize[c];i++) if(G->crank[c][i]==w) return i; return MPI_UNDEFINED; }
static int fits(msg*m,rcv*r){ return m->ctx==r->ctx&&m->dst==r->dst&&(r->src==MPI_ANY_SOURCE||r->src==m->src)&&(r->tag==MPI_ANY_TAG||r->tag==m->tag); }
static size_t halloc(size_t n){ n=(n+63)&~(size_t)63; if(G->heap+n>HEAP) die(FM_EXIT_USAGE,"message heap exhausted"); size_t o=G->heap; G->heap+=n; return o; }
/* ctx: user traffic 2*comm, internal 2*comm+1; ranks are world ranks inside */
static int post_send(const void* buf,size_t n,int dst,int tag,int ctx,int eager,unsigned sig){
  if(G->nm==MAXMSG) die(FM_EXIT_USAGE,"too many messages"); int i=G->nm++; msg*m=&G->m[i]; m->ctx=ctx;m->src=me;m->dst=dst;m->tag=tag;m->size=n;m->sig=sig;m->eager=eager;m->rcv=-1;m->user=!(ctx&1);m->released=0;
  m->off=halloc(n?n:1); if(eager&&n) memcpy(H+m->off,buf,n);
  m->state=M_POSTED;
  for(int k=0;k<G->nr;k++) if(G->r[k].state==1&&fits(m,&G->r[k])){ G->r[k].state=2; G->r[k].m=i; m->rcv=k; m->state=eager?M_READY:M_MATCHED; break; }
  bump(); return i; }
static int post_recv(int src,int tag,int ctx){
  if(G->nr==MAXRCV) die(FM_EXIT_USAGE,"too many receives"); int k=G->nr++; rcv*r=&G->r[k]; r->ctx=ctx;r->src=src;r->dst=me;r->tag=tag;r->state=1;r->m=-1;
  for(int i=0;i<G->nm;i++) if(G->m[i].state==M_POSTED&&fits(&G->m[i],r)){ r->state=2; r->m=i; G->m[i].rcv=k; G->m[i].state=G->m[i].eager?M_READY:M_MATCHED; break; }
  bump(); return k; }
/* try to complete; 1 when complete */
static int adv_send(int i,const void* buf){ msg*m=&G->m[i]; if(m->eager) return 1; if(m->state==M_MATCHED){ if(m->size) memcpy(H+m->off,buf,m->size); m->state=M_READY; bump(); return 1; } return m->state==M_READY||m->state==M_TAKEN; }
static int adv_recv(int k,void* buf,size_t n,MPI_Status* s,int ctx){ rcv*r=&G->r[k]; if(r->state!=2) return 0; msg*m=&G->m[r->m]; if(m->state!=M_READY) return 0;
  if(m->size>n) die(FM_EXIT_TRUNC,"message longer than receive buffer");
  if(m->size) memcpy(buf,H+m->off,m->size); m->state=M_TAKEN; r->state=0;
  if(s){ s->MPI_SOURCE=crank(ctx/2,m->src); s->MPI_TAG=m->tag; s->MPI_ERROR=0; s->count_bytes=m->size; } bump(); return 1; }
static int eager_now(size_t n){ switch(G->mode){ case 0: return 0; case 1: return 1; case 2: return rnd()&1; default: return n<=64; } }
static int newreq(void){ for(int i=0;i<4096;i++) if(!rq[i].kind) return i; die(FM_EXIT_USAGE,"too many requests"); return 0; }

int MPI_Init(int*a,char***b){return 0;} int MPI_Init_thread(int*a,char***b,int c,int*d){ if(d)*d=c; return 0;} int MPI_Finalize(void){return 0;} int MPI_Initialized(int*f){*f=1;return 0;} int MPI_Finalized(int*f){*f=0;return 0;}
int MPI_Abort(MPI_Comm c,int code){ die(FM_EXIT_USAGE,"MPI_Abort"); return 0; } double MPI_Wtime(void){ static double t; return t+=0.001; }
int MPI_Get_processor_name(char*n,int*l){ strcpy(n,"host"); *l=4; return 0; } int MPI_Error_string(int e,char*s,int*l){ *l=sprintf(s,"error %d",e); return 0; }
int MPI_Comm_rank(MPI_Comm c,int*r){ world(c,0); *r=crank(c,me); return 0; } int MPI_Comm_size(MPI_Comm c,int*n){ world(c,0); *n=G->csize[c]; return 0; }
int MPI_Comm_dup(MPI_Comm c,MPI_Comm*d){ MPI_Barrier(c); int id=16+c*3+dups[c]%3; dups[c]++; if(id>=MAXCOMM) die(FM_EXIT_USAGE,"too many communicators"); G->csize[id]=G->csize[c]; memcpy(G->crank[id],G->crank[c],sizeof G->crank[c]); *d=id; MPI_Barrier(c); return 0; }
int MPI_Comm_free(MPI_Comm*c){ *c=MPI_COMM_NULL; return 0; }
int MPI_Type_size(MPI_Datatype t,int*s){ *s=tsz(t); return 0; } int MPI_Get_count(const MPI_Status*s,MPI_Datatype t,int*n){ *n=s->count_bytes/tsz(t); return 0; }

static void chktag(int tag){ if(tag<0) die(FM_EXIT_USAGE,"negative tag"); }
static int send_(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,int eager,const char* w){ if(d==MPI_PROC_NULL) return 0; chktag(tag); size_t sz=n*tsz(t); int i=post_send(b,sz,world(c,d),tag,2*c,eager<0?eager_now(sz):eager,0); yield_(); while(!adv_send(i,b)) block_(w); return 0; }
int MPI_Send(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ return send_(b,n,t,d,tag,c,-1,"MPI_Send"); }
int MPI_Ssend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ return send_(b,n,t,d,tag,c,0,"MPI_Ssend"); }
int MPI_Rsend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ return send_(b,n,t,d,tag,c,-1,"MPI_Rsend"); }
int MPI_Bsend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ return send_(b,n,t,d,tag,c,1,"MPI_Bsend"); }
static void nullstatus(MPI_Status*s){ if(s){ s->MPI_SOURCE=MPI_PROC_NULL; s->MPI_TAG=MPI_ANY_TAG; s->MPI_ERROR=0; s->count_bytes=0; } }
int MPI_Recv(void*b,int n,MPI_Datatype t,int s,int tag,MPI_Comm c,MPI_Status*st){ if(s==MPI_PROC_NULL){ nullstatus(st); return 0; } int k=post_recv(s==MPI_ANY_SOURCE?s:world(c,s),tag,2*c); yield_(); while(!adv_recv(k,b,n*tsz(t),st,2*c)) block_("MPI_Recv"); return 0; }
static int isend_(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,MPI_Request*r,int eager){ int q=newreq(); rq[q].kind=3; *r=q; if(d==MPI_PROC_NULL) return 0; chktag(tag); size_t sz=n*tsz(t); rq[q].idx=post_send(b,sz,world(c,d),tag,2*c,eager<0?eager_now(sz):eager,0); rq[q].kind=1; rq[q].sbuf=b; rq[q].size=sz; yield_(); return 0; }
int MPI_Isend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,MPI_Request*r){ return isend_(b,n,t,d,tag,c,r,-1); }
int MPI_Issend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,MPI_Request*r){ return isend_(b,n,t,d,tag,c,r,0); }
int MPI_Irecv(void*b,int n,MPI_Datatype t,int s,int tag,MPI_Comm c,MPI_Request*r){ int q=newreq(); rq[q].kind=3; *r=q; if(s==MPI_PROC_NULL) return 0; rq[q].idx=post_recv(s==MPI_ANY_SOURCE?s:world(c,s),tag,2*c); rq[q].kind=2; rq[q].buf=b; rq[q].size=n*tsz(t); rq[q].ctx=2*c; yield_(); return 0; }
static int adv(MPI_Request*r,MPI_Status*s){ if(*r==MPI_REQUEST_NULL){ nullstatus(s); return 1; } if(*r<0||*r>=4096||!rq[*r].kind) die(FM_EXIT_USAGE,"invalid request"); req*q=&rq[*r];
  int ok=1; if(q->kind==3) nullstatus(s); else if(q->kind==1) ok=adv_send(q->idx,q->sbuf); else ok=adv_recv(q->idx,q->buf,q->size,s,q->ctx);
  if(ok){ q->kind=0; *r=MPI_REQUEST_NULL; } return ok; }
int MPI_Wait(MPI_Request*r,MPI_Status*s){ yield_(); while(!adv(r,s)) block_("MPI_Wait"); return 0; }
int MPI_Waitall(int n,MPI_Request r[],MPI_Status s[]){ yield_(); char done[4096]; if(n>4096)die(FM_EXIT_USAGE,"waitall"); memset(done,0,n); while(1){ unsigned long p0=G->progress; int all=1; for(int i=0;i<n;i++) if(!done[i]){ if(adv(&r[i],s?&s[i]:NULL)) done[i]=1; else all=0; } if(all) return 0; if(G->progress==p0) block_("MPI_Waitall"); } }
int MPI_Waitany(int n,MPI_Request r[],int*ix,MPI_Status*s){ yield_(); while(1){ unsigned long p0=G->progress; int any=0; for(int i=0;i<n;i++) if(r[i]!=MPI_REQUEST_NULL){ any=1; if(adv(&r[i],s)){ *ix=i; return 0; } } if(!any){ *ix=MPI_UNDEFINED; nullstatus(s); return 0; } if(G->progress==p0) block_("MPI_Waitany"); } }
int MPI_Waitsome(int n,MPI_Request r[],int*oc,int ix[],MPI_Status s[]){ int i; MPI_Waitany(n,r,&i,s); if(i==MPI_UNDEFINED)*oc=MPI_UNDEFINED; else { *oc=1; ix[0]=i; } return 0; }
int MPI_Test(MPI_Request*r,int*f,MPI_Status*s){ yield_(); *f=adv(r,s); return 0; }
int MPI_Testall(int n,MPI_Request r[],int*f,MPI_Status s[]){ yield_(); *f=1; for(int i=0;i<n;i++) if(r[i]!=MPI_REQUEST_NULL&&!adv(&r[i],s?&s[i]:NULL)) *f=0; return 0; }
int MPI_Request_free(MPI_Request*r){ *r=MPI_REQUEST_NULL; return 0; }
int MPI_Iprobe(int s,int tag,MPI_Comm c,int*f,MPI_Status*st){ yield_(); rcv r={1,2*c,s==MPI_ANY_SOURCE?s:world(c,s),me,tag,-1}; *f=0; for(int i=0;i<G->nm;i++) if(G->m[i].state==M_POSTED&&fits(&G->m[i],&r)){ *f=1; if(st){ st->MPI_SOURCE=crank(c,G->m[i].src); st->MPI_TAG=G->m[i].tag; st->count_bytes=G->m[i].size; } break; } return 0; }
int MPI_Probe(int s,int tag,MPI_Comm c,MPI_Status*st){ int f; if(s==MPI_PROC_NULL){ nullstatus(st); return 0; } while(1){ MPI_Iprobe(s,tag,c,&f,st); if(f) return 0; block_("MPI_Probe"); } }
int MPI_Sendrecv(const void*sb,int sn,MPI_Datatype stt,int d,int stag,void*rb,int rn,MPI_Datatype rt,int s,int rtag,MPI_Comm c,MPI_Status*st){ MPI_Request r[2]; MPI_Status ss[2]; MPI_Irecv(rb,rn,rt,s,rtag,c,&r[0]); MPI_Isend(sb,sn,stt,d,stag,c,&r[1]); MPI_Waitall(2,r,ss); if(st)*st=ss[0]; return 0; }
int MPI_Sendrecv_replace(void*b,int n,MPI_Datatype t,int d,int stag,int s,int rtag,MPI_Comm c,MPI_Status*st){ size_t z=n*tsz(t); void*x=malloc(z?z:1); memcpy(x,b,z); int rc=MPI_Sendrecv(x,n,t,d,stag,b,n,t,s,rtag,c,st); free(x); return rc; }

/* ---- collectives over the internal context; signatures must agree ---- */
static unsigned sig_(int op,int root,size_t n,int extra){ return (unsigned)(op*1000003u+root*10007u+(unsigned)n*31u+extra); }
static unsigned cs(MPI_Comm c){ return cseq[c]++; }
static void csend(const void*b,size_t n,int r,unsigned seq,MPI_Comm c,unsigned sig){ post_send(b,n,world(c,r),(int)seq,2*c+1,1,sig); }
static size_t crecv(void*b,size_t n,int r,unsigned seq,MPI_Comm c,unsigned sig,const char*w){ int k=post_recv(world(c,r),(int)seq,2*c+1); while(G->r[k].state!=2) block_(w); msg*m=&G->m[G->r[k].m]; if(m->sig!=sig) die(FM_EXIT_MISMATCH,w); if(m->size>n) die(FM_EXIT_TRUNC,w); size_t z=m->size; adv_recv(k,b,n,NULL,2*c+1); return z; }
static int cr(MPI_Comm c){ int r; MPI_Comm_rank(c,&r); if(r==MPI_UNDEFINED) die(FM_EXIT_USAGE,"not in communicator"); return r; }
static int cz(MPI_Comm c){ int n; MPI_Comm_size(c,&n); return n; }
#define RED(T) { T*x=(T*)a; const T*y=(const T*)b; for(int i=0;i<n;i++) switch(op){ case MPI_SUM:x[i]+=y[i];break; case MPI_MAX:if(y[i]>x[i])x[i]=y[i];break; case MPI_MIN:if(y[i]<x[i])x[i]=y[i];break; case MPI_PROD:x[i]*=y[i];break; case MPI_LAND:x[i]=x[i]&&y[i];break; case MPI_LOR:x[i]=x[i]||y[i];break; case MPI_LXOR:x[i]=!x[i]!=!y[i];break; default: REDB(T) } break; }
#define REDB(T) switch(op){ case MPI_BAND:x[i]&=y[i];break; case MPI_BOR:x[i]|=y[i];break; case MPI_BXOR:x[i]^=y[i];break; default: die(FM_EXIT_USAGE,"unsupported reduction"); }
static void red(void*a,const void*b,int n,MPI_Datatype t,MPI_Op op){ switch(t){ case MPI_INT: RED(int) case MPI_UNSIGNED: RED(unsigned) case MPI_LONG: case MPI_LONG_LONG: RED(long) case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: RED(unsigned long) case MPI_CHAR: case MPI_SIGNED_CHAR: RED(signed char) case MPI_BYTE: case MPI_UNSIGNED_CHAR: RED(unsigned char) case MPI_SHORT: RED(short) case MPI_UNSIGNED_SHORT: RED(unsigned short)
#undef REDB
#define REDB(T) die(FM_EXIT_USAGE,"unsupported reduction");
  case MPI_DOUBLE: RED(double) case MPI_FLOAT: RED(float) default: die(FM_EXIT_USAGE,"unsupported datatype"); } }
int MPI_Bcast(void*b,int n,MPI_Datatype t,int root,MPI_Comm c){ yield_(); world(c,root); unsigned q=cs(c); size_t z=n*tsz(t); unsigned g=sig_(1,root,z,0); if(cr(c)==root){ for(int r=0;r<cz(c);r++) if(r!=root) csend(b,z,r,q,c,g); } else crecv(b,z,root,q,c,g,"MPI_Bcast"); yield_(); return 0; }
int MPI_Barrier(MPI_Comm c){ yield_(); unsigned q=cs(c); unsigned g=sig_(2,0,0,0); char x=0; int m=cr(c),n=cz(c); if(m==0){ for(int r=1;r<n;r++) crecv(&x,1,r,q,c,g,"MPI_Barrier"); for(int r=1;r<n;r++) csend(&x,1,r,q,c,g); } else { csend(&x,1,0,q,c,g); crecv(&x,1,0,q,c,g,"MPI_Barrier"); } yield_(); return 0; }
int MPI_Ibarrier(MPI_Comm c,MPI_Request*r){ MPI_Barrier(c); int q=newreq(); rq[q].kind=3; *r=q; return 0; }
static void reduce_(const void*s,void*r,int n,MPI_Datatype t,MPI_Op op,int root,MPI_Comm c,int code,unsigned q){ size_t z=n*tsz(t); unsigned g=sig_(code,root,z,op*7+t); int m=cr(c),k=cz(c); const void*src=s==MPI_IN_PLACE?r:s;
  if(m!=root){ csend(src,z,root,q,c,g); return; }
  char*acc=malloc(z?z:1),*x=malloc(z?z:1); int first=1; for(int i=0;i<k;i++){ const void*v; if(i==root) v=src; else { crecv(x,z,i,q,c,g,"reduction"); v=x; } if(first){ memcpy(acc,v,z); first=0; } else red(acc,v,n,t,op); } 
  if(op==MPI_LAND||op==MPI_LOR){ /* normalise */ if(k==1){ char*zero=calloc(1,z?z:1); if(op==MPI_LAND){ red(acc,acc,n,t,MPI_LAND);} else red(acc,zero,n,t,MPI_LOR); free(zero);} }
  memcpy(r,acc,z); free(acc); free(x); }
int MPI_Reduce(const void*s,void*r,int n,MPI_Datatype t,MPI_Op op,int root,MPI_Comm c){ yield_(); reduce_(s,r,n,t,op,root,c,3,cs(c)); yield_(); return 0; }
int MPI_Allreduce(const void*s,void*r,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c){ yield_(); unsigned q=cs(c); reduce_(s,r,n,t,op,0,c,4,q); unsigned q2=cs(c); size_t z=n*tsz(t); unsigned g=sig_(5,0,z,op); if(cr(c)==0) for(int i=1;i<cz(c);i++) csend(r,z,i,q2,c,g); else crecv(r,z,0,q2,c,g,"MPI_Allreduce"); yield_(); return 0; }
static void scan_(const void*s,void*r,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c,int ex){ size_t z=n*tsz(t); unsigned q=cs(c),g=sig_(6+ex,0,z,op*7+t); int m=cr(c),k=cz(c); char*own=malloc(z?z:1),*in=malloc(z?z:1); memcpy(own,s==MPI_IN_PLACE?r:s,z);
  if(m>0){ crecv(in,z,m-1,q,c,g,"MPI_Scan"); if(ex) memcpy(r,in,z); red(in,own,n,t,op); memcpy(own,in,z); } if(!ex) memcpy(r,own,z); if(m+1<k) csend(own,z,m+1,q,c,g); free(own); free(in); }
int MPI_Scan(const void*s,void*r,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c){ yield_(); scan_(s,r,n,t,op,c,0); yield_(); return 0; }
int MPI_Exscan(const void*s,void*r,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c){ yield_(); scan_(s,r,n,t,op,c,1); yield_(); return 0; }
int MPI_Gatherv(const void*s,int sn,MPI_Datatype st,void*r,const int rc[],const int dp[],MPI_Datatype rt,int root,MPI_Comm c){ yield_(); unsigned q=cs(c),g=sig_(8,root,0,0); int m=cr(c); if(m==root){ for(int i=0;i<cz(c);i++){ char*d=(char*)r+dp[i]*tsz(rt); if(i==root){ if(s!=MPI_IN_PLACE) memcpy(d,s,sn*tsz(st)); } else crecv(d,rc[i]*tsz(rt),i,q,c,g,"MPI_Gather"); } } else csend(s,sn*tsz(st),root,q,c,g); yield_(); return 0; }
int MPI_Gather(const void*s,int sn,MPI_Datatype st,void*r,int rn,MPI_Datatype rt,int root,MPI_Comm c){ int n=cz(c); int rc[FM_MAXR],dp[FM_MAXR]; for(int i=0;i<n;i++){ rc[i]=rn; dp[i]=i*rn; } return MPI_Gatherv(s,sn,st,r,rc,dp,rt,root,c); }
int MPI_Scatterv(const void*s,const int sc[],const int dp[],MPI_Datatype st,void*r,int rn,MPI_Datatype rt,int root,MPI_Comm c){ yield_(); unsigned q=cs(c),g=sig_(9,root,0,0); int m=cr(c); if(m==root){ for(int i=0;i<cz(c);i++){ const char*d=(const char*)s+dp[i]*tsz(st); if(i==root){ if(r!=MPI_IN_PLACE) memcpy(r,d,sc[i]*tsz(st)); } else csend(d,sc[i]*tsz(st),i,q,c,g); } } else crecv(r,rn*tsz(rt),root,q,c,g,"MPI_Scatter"); yield_(); return 0; }
int MPI_Scatter(const void*s,int sn,MPI_Datatype st,void*r,int rn,MPI_Datatype rt,int root,MPI_Comm c){ int n=cz(c); int sc[FM_MAXR],dp[FM_MAXR]; for(int i=0;i<n;i++){ sc[i]=sn; dp[i]=i*sn; } return MPI_Scatterv(s,sc,dp,st,r,rn,rt,root,c); }
int MPI_Allgatherv(const void*s,int sn,MPI_Datatype st,void*r,const int rc[],const int dp[],MPI_Datatype rt,MPI_Comm c){ int m=cr(c); const void*src=s==MPI_IN_PLACE?(char*)r+dp[m]*tsz(rt):s; size_t z=s==MPI_IN_PLACE?rc[m]*tsz(rt):sn*tsz(st); for(int root=0;root<cz(c);root++){ size_t k=rc[root]*tsz(rt); char*d=(char*)r+dp[root]*tsz(rt); if(root==m) memmove(d,src,z); MPI_Bcast(d,(int)k,MPI_BYTE,root,c); } return 0; }
int MPI_Allgather(const void*s,int sn,MPI_Datatype st,void*r,int rn,MPI_Datatype rt,MPI_Comm c){ int n=cz(c); int rc[FM_MAXR],dp[FM_MAXR]; for(int i=0;i<n;i++){ rc[i]=rn; dp[i]=i*rn; } return MPI_Allgatherv(s,sn,st,r,rc,dp,rt,c); }
int MPI_Alltoallv(const void*s,const int sc[],const int sd[],MPI_Datatype st,void*r,const int rc[],const int rd[],MPI_Datatype rt,MPI_Comm c){ yield_(); unsigned q=cs(c),g=sig_(10,0,0,0); int m=cr(c),n=cz(c); for(int i=0;i<n;i++) if(i!=m) csend((const char*)s+sd[i]*tsz(st),sc[i]*tsz(st),i,q,c,g); memcpy((char*)r+rd[m]*tsz(rt),(const char*)s+sd[m]*tsz(st),sc[m]*tsz(st)); for(int i=0;i<n;i++) if(i!=m) crecv((char*)r+rd[i]*tsz(rt),rc[i]*tsz(rt),i,q,c,g,"MPI_Alltoall"); yield_(); return 0; }
int MPI_Alltoall(const void*s,int sn,MPI_Datatype st,void*r,int rn,MPI_Datatype rt,MPI_Comm c){ int n=cz(c); int sc[FM_MAXR],sd[FM_MAXR],rc[FM_MAXR],rd[FM_MAXR]; for(int i=0;i<n;i++){ sc[i]=sn; sd[i]=i*sn; rc[i]=rn; rd[i]=i*rn; } return MPI_Alltoallv(s,sc,sd,st,r,rc,rd,rt,c); }
