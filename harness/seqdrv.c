/* Sequential conformance driver: executes a script of API calls on the real
 * library and logs, per call, its arguments, its result and every tree that
 * changed.  Usage: seqdrv SCRIPT OUT SCRATCHDIR */
#include "common.h"
#include <errno.h>
#include <dirent.h>
#include <regex.h>
#include <zlib.h>
#include <inttypes.h>
#include <libgen.h>
#include <sys/wait.h>
#include "kvtree_io.h"
#include "kvtree_helpers.h"
#include "iowrap.h"
#include <sys/file.h>
size_t __sanitizer_get_current_allocated_bytes(void);

#define NS 4
static kvtree* S[NS];
static obuf out, prev[NS], cur, cap;
static int outfd, capfd;
static char* scratch;
static size_t hist_base;
static long lv;
static int slow=20;

static size_t live(void){ return __sanitizer_get_current_allocated_bytes(); }
static void flush_out(void){ size_t o=0; while(o<out.n){ ssize_t k=write(outfd,out.p+o,out.n-o); if(k<=0) _exit(96); o+=k;} out.n=0; }

/* ---- tokens of the current line ---- */
static char* T[512]; static int NT;
static int split(char* l){ NT=0; char*s=l; while(*s){ while(*s==' ')s++; if(!*s||*s=='\n')break; T[NT++]=s; while(*s&&*s!=' '&&*s!='\n')s++; if(*s)*s++=0; if(NT==512)break;} return NT; }

/* ---- targets ---- */
static kvtree* child_raw(kvtree* h, const char* k, kvtree_elem** pe){
  if(pe)*pe=NULL; if(!h) return NULL;
  for(kvtree_elem*e=h->lh_first;e;e=e->pointers.le_next) if(e->key&&!strcmp(e->key,k)){ if(pe)*pe=e; return e->hash; }
  return NULL; }
/* parse "slot:path" and log it; path keys are comma separated, "@" is the root */
static kvtree* target(const char* name, char* t){
  int slot=atoi(t); char*p=strchr(t,':'); p=p?p+1:"@";
  ob_f(&out,",\"%s\":[%d,[",name,slot);
  kvtree* h = slot>=0? S[slot]:NULL;
  if(strcmp(p,"@")){ int first=1; while(1){ char*e=strchr(p,','); size_t n=e?(size_t)(e-p):strlen(p);
      char*k=tok_key(p,n,NULL); if(!first)ob_c(&out,','); first=0; ob_key(&out,k); h=child_raw(h,k,NULL); if(!e)break; p=e+1; } }
  ob_s(&out,"]]"); return h; }
static char* key(const char* name, char* t){ char*k=tok_key(t,strlen(t),NULL); ob_f(&out,",\"%s\":",name);
  if(!k) ob_s(&out,"[]"); else { ob_c(&out,'['); ob_key(&out,k); ob_c(&out,']'); } return k; }
static void jtext(const char* name,const char* fmt,...){ char*b=aalloc(512); va_list a; va_start(a,fmt); vsnprintf(b,512,fmt,a); va_end(a);
  ob_f(&out,",\"%s\":",name); ob_str(&out,b); }

/* ---- locate a pointer in the slots ---- */
static const char* lp[100000]; static int ln;
static int findh(kvtree*h,const void*p){ if(!h)return 0; if((void*)h==p)return 1;
  for(kvtree_elem*e=h->lh_first;e;e=e->pointers.le_next){ lp[ln++]=e->key; if(ln<99999&&findh(e->hash,p))return 1; ln--; } return 0; }
static int finde(kvtree*h,const void*p){ if(!h)return 0;
  for(kvtree_elem*e=h->lh_first;e;e=e->pointers.le_next){ lp[ln++]=e->key; if((void*)e==p)return 1; if(ln<99999&&finde(e->hash,p))return 1; ln--; } return 0; }
static void jloc(const char* name,const void*p,int elem){
  ob_f(&out,",\"%s\":",name);
  if(!p){ ob_s(&out,"[]"); return; }
  for(int s=0;s<NS;s++){ ln=0; if(elem?finde(S[s],p):findh(S[s],p)){ ob_f(&out,"[%d,[",s);
      for(int i=0;i<ln;i++){ if(i)ob_c(&out,','); ob_key(&out,lp[i]);} ob_s(&out,"]]"); return; } }
  ob_s(&out,"[-2,[]]"); }

static long (*stamp)(void); static long stamp0;
static void begin(const char* op){ out.n=0; if(stamp)stamp0=stamp(); ob_f(&out,"{\"op\":\"%s\"",op); }
static void finish(void){
  if(stamp) ob_f(&out,",\"b\":%ld,\"e\":%ld",stamp0,stamp());
  ob_f(&out,",\"lv\":%ld,\"d\":[",lv); int first=1;
  for(int s=0;s<NS;s++){ cur.n=0; ob_slot(&cur,S[s]);
    if(cur.n!=prev[s].n||memcmp(cur.p,prev[s].p,cur.n)){ if(!first)ob_c(&out,','); first=0;
      ob_f(&out,"[%d,",s); ob_need(&out,cur.n); memcpy(out.p+out.n,cur.p,cur.n); out.n+=cur.n; ob_c(&out,']');
      obuf t=prev[s]; prev[s]=cur; cur=t; } }
  ob_s(&out,"]}\n"); flush_out(); arena_n=0; lv=0; }
#define LIVE(stmt) do{ size_t _a=live(); iow_on=1; stmt; iow_on=0; lv=(long)live()-(long)_a; }while(0)
/* is some lock held on the file?  0 no, 1 shared, 2 exclusive; asked through a descriptor of its own,
 * for POSIX locks by another process (closing any descriptor of a file drops this process's locks) */
static int lockstate(const char*p){ int r=0;
#ifdef VERIF_FCNTL
  fflush(stdout); pid_t c=fork(); if(c==0){
#endif
  int fd=open(p,O_RDWR); if(fd<0)fd=open(p,O_RDONLY);
  if(fd>=0){ if(flock(fd,LOCK_EX|LOCK_NB)==0) flock(fd,LOCK_UN); else r=flock(fd,LOCK_SH|LOCK_NB)==0?(flock(fd,LOCK_UN),1):2; }
#ifdef VERIF_FCNTL
  struct flock l; memset(&l,0,sizeof l); l.l_type=F_WRLCK; l.l_whence=SEEK_SET; if(fd>=0&&fcntl(fd,F_GETLK,&l)==0&&l.l_type!=F_UNLCK){ int q=l.l_type==F_RDLCK?1:2; if(q>r)r=q; } _exit(r); }
  int ws; while(waitpid(c,&ws,0)<0); r=WEXITSTATUS(ws);
#else
  if(fd>=0) close(fd);
#endif
  return r; }
/* another process that holds a lock on the file until somebody waits for it */
static int hold_kind,hold_waits,hold_fd=-1; static pid_t hold_pid;
static void hold_off(void){ if(hold_pid){ if(write(hold_fd,"x",1)){} int ws; while(waitpid(hold_pid,&ws,0)<0&&errno==EINTR); hold_pid=0; } }
static void hold_end(void){ hold_off(); if(hold_fd>=0) close(hold_fd); hold_fd=-1; hold_kind=hold_waits=0; iow_lockwait=NULL; iow_fcntlwait=NULL; iow_nolock=NULL; }
static void hold_nolock(void){ hold_waits++; hold_off(); }
static int hold_wait(int fd,int op){ int o=iow_on; iow_on=0; int r=flock(fd,op|LOCK_NB); if(r<0&&errno==EWOULDBLOCK){ hold_nolock(); r=flock(fd,op); } iow_on=o; return r; }
static int hold_fwait(int fd,struct flock*l){ int o=iow_on; iow_on=0; int r=fcntl(fd,F_SETLK,l); if(r<0&&(errno==EAGAIN||errno==EACCES)){ hold_nolock(); r=fcntl(fd,F_SETLKW,l); } iow_on=o; return r; }
static void hold_start(const char*p,int kind){ hold_end(); int a[2],b[2]; if(pipe(a)||pipe(b)) _exit(95); fflush(stdout); hold_pid=fork(); if(hold_pid<0)_exit(97);
  if(hold_pid==0){ alarm(60); close(a[1]); close(b[0]); int fd=open(p,O_RDWR); if(fd<0)_exit(1);
#ifdef VERIF_FCNTL
    struct flock l; memset(&l,0,sizeof l); l.l_type=kind==1?F_RDLCK:F_WRLCK; l.l_whence=SEEK_SET; if(fcntl(fd,F_SETLK,&l))_exit(1);
#else
    if(flock(fd,(kind==1?LOCK_SH:LOCK_EX)|LOCK_NB))_exit(1);
#endif
    char c; if(write(b[1],"r",1)!=1)_exit(1); if(read(a[0],&c,1)){} _exit(0); }
  close(a[0]); close(b[1]); char c; if(read(b[0],&c,1)!=1)_exit(95); close(b[0]); hold_fd=a[1]; hold_kind=kind; iow_lockwait=hold_wait; iow_fcntlwait=hold_fwait; iow_nolock=hold_nolock; }
/* what the interposition layer saw of the call: faults injected, strange descriptors, data not flushed, lock state */
static void jio(const char*p){ hold_off(); mode_t um=umask(0); umask(um); ob_f(&out,",\"um\":%d",(int)um); ob_f(&out,",\"hk\":%d,\"wt\":%d",hold_kind,hold_waits); ob_f(&out,",\"al\":%d,\"dirty\":%d,\"lk\":%d,\"nc\":%ld,\"pl\":[",iow_alien,iow_dirty(),p?lockstate(p):0,iow_calls); int f=1;
  for(int i=0;i<iow_np;i++){ ob_f(&out,"%s[\"%c\",%d,%d,%d]",f?"":",",iow_pl[i].cls,iow_pl[i].err,iow_pl[i].count,iow_pl[i].hits); f=0; iow_pl[i].seen=iow_pl[i].hits=0; } ob_c(&out,']'); }

static void capstart(void){ fflush(stdout); if(ftruncate(capfd,0)){} lseek(capfd,0,SEEK_SET); }
static void capend(const char* name){ fflush(stdout); off_t n=lseek(capfd,0,SEEK_END); char*b=aalloc(n+1);
  lseek(capfd,0,SEEK_SET); size_t o=0; while(o<(size_t)n){ ssize_t k=read(capfd,b+o,n-o); if(k<=0)break; o+=k; }
  ob_f(&out,",\"%s\":",name); ob_bytes(&out,b,o); if(ftruncate(capfd,0)){} lseek(capfd,0,SEEK_SET); }

/* the captured lines of a log call without their "KVTree <version>: <host>: " prefix; blank lines dropped */
static void loglines(void){ fflush(stdout); off_t n=lseek(capfd,0,SEEK_END); char*b=aalloc(n+1),*r=aalloc(n+1); size_t m=0;
  lseek(capfd,0,SEEK_SET); size_t o=0; while(o<(size_t)n){ ssize_t k=read(capfd,b+o,n-o); if(k<=0)break; o+=k; } b[o]=0;
  for(char*p=b;*p;){ char*e=strchr(p,'\n'); if(!e)e=p+strlen(p); char*q=p; size_t L=e-p;
    if(L==0){ p=*e?e+1:e; continue; }
    if(!strncmp(p,"KVTree ",7)){ char*c=memmem(p,L,": ",2); if(c)c=memmem(c+2,e-c-2,": ",2); if(c)q=c+2; }
    memcpy(r+m,q,e-q); m+=e-q; r[m++]='\n'; p=*e?e+1:e; }
  ob_s(&out,",\"lines\":"); ob_bytes(&out,r,m); }
/* name token: "=HEX" spells a name in hex, a leading "~" makes the path relative (the working directory is the scratch directory) */
static char* fname(char* t){ if(*t=='~')t++; return *t=='='?tok_key(t+1,strlen(t+1),NULL):t; }
static char* fpath(char* t){ char*n=fname(t); if(*t=='~') return n; char*p=aalloc(strlen(scratch)+strlen(n)+2); sprintf(p,"%s/%s",scratch,n); return p; }
static void jname(char* t){ ob_s(&out,",\"fb\":"); ob_str(&out,fname(t)); }
static unsigned char* readall(const char* p,size_t* n){ int fd=open(p,O_RDONLY); if(fd<0){*n=0;return NULL;} struct stat st; fstat(fd,&st);
  unsigned char*b=aalloc(st.st_size+1); size_t o=0; while(o<(size_t)st.st_size){ ssize_t k=read(fd,b+o,st.st_size-o); if(k<=0)break; o+=k; } close(fd); *n=o; return b; }
/* large contents (only when keys are logged as tokens): [512,size,digest,first 20 bytes,checksum state,tree,tree], see KVFormat */
static size_t pk_check(const unsigned char*b,size_t n,int*dp,int d){ if(n<4) return 0; if(d>*dp)*dp=d; uint32_t c=(uint32_t)b[0]<<24|b[1]<<16|b[2]<<8|b[3]; size_t o=4;
  for(uint32_t i=0;i<c;i++){ const unsigned char*z=memchr(b+o,0,n-o); if(!z||d>3000) return 0; o=z-b+1; size_t k=pk_check(b+o,n-o,dp,d+1); if(!k) return 0; o+=k; } return o; }
static size_t pk_list(const unsigned char*b,int flat,int d,int*first){ uint32_t c=(uint32_t)b[0]<<24|b[1]<<16|b[2]<<8|b[3]; size_t o=4; if(!flat)ob_c(&out,'[');
  for(uint32_t i=0;i<c;i++){ const char*k=(const char*)b+o;
    if(flat){ if(!*first)ob_c(&out,','); *first=0; ob_f(&out,"[%d,",d); ob_key(&out,k); ob_s(&out,",1]"); o+=strlen(k)+1; o+=pk_list(b+o,1,d+1,first); }
    else { ob_s(&out,i?",[":"["); ob_key(&out,k); ob_s(&out,",["); o+=strlen(k)+1; o+=pk_list(b+o,0,d,first); ob_s(&out,"]]"); } }
  if(!flat)ob_c(&out,']'); return o; }
static void pk_tree(const unsigned char*b,size_t n){ int dp=0,f=1; size_t k=pk_check(b,n,&dp,1); if(!k){ ob_s(&out,",[]"); return; }
  ob_s(&out,",["); if(dp>50){ ob_s(&out,"[[[300],["); pk_list(b,1,1,&f); ob_s(&out,"]]]"); } else pk_list(b,0,1,&f); ob_f(&out,",%d]",k==n); }
static void ob_content(const unsigned char*b,size_t n){ if(tok_limit==(size_t)-1||n<20){ ob_bytes(&out,b,n); return; }
  ob_s(&out,"[512,["); for(int i=7;i>=0;i--) ob_f(&out,"%u%s",(unsigned)(n>>(8*i)&255),i?",":"]"); uint64_t h=1469598103934665603ULL; for(size_t i=0;i<n;i++){ h^=b[i]; h*=1099511628211ULL; }
  ob_f(&out,",[%u,%u],",(unsigned)((h>>32)&0x3fffffff),(unsigned)(h&0x3fffffff)); ob_bytes(&out,b,20);
  size_t z=0; for(int i=8;i<16;i++) z=z<<8|b[i];
  if(z>n||z<24) ob_s(&out,",0,[],[]]");
  else if(z<28) { ob_s(&out,",0,[]"); pk_tree(b+20,z-20); ob_c(&out,']'); }     /* no room for a checksum */
  else { uint32_t c=(uint32_t)crc32_z(0,b,z-4), w=(uint32_t)b[z-4]<<24|b[z-3]<<16|b[z-2]<<8|b[z-1]; ob_f(&out,",%d",c==w); pk_tree(b+20,z-24); pk_tree(b+20,z-20); ob_c(&out,']'); } }
static void jfile(const char* name,const char* p){ size_t n; unsigned char*b=readall(p,&n); ob_f(&out,",\"%s\":",name);
  if(!b) ob_s(&out,"[]"); else { ob_c(&out,'['); ob_content(b,n); ob_c(&out,']'); } }
static kvtree* raw_put(kvtree*h,const char*k,kvtree*c){ kvtree_elem*e=malloc(sizeof*e); e->key=strdup(k); e->hash=c; e->pointers.le_next=h->lh_first; if(h->lh_first) h->lh_first->pointers.le_prev=&e->pointers.le_next; h->lh_first=e; e->pointers.le_prev=&h->lh_first; return c; }
static void jtree(const char*name,const kvtree*h){ ob_f(&out,",\"%s\":",name); proj_budget=2000000; if(h) ob_tree(&out,h); else ob_s(&out,"[]"); }
static int nfds(void){ DIR*d=opendir("/proc/self/fd"); int n=0; struct dirent*e; while((e=readdir(d)))n++; closedir(d); return n; }

/* setf/getf over mixed formats: format tokens with up to 4 arguments of each class */
typedef struct { char kind; char* s; long long ll; unsigned long long ull; double d; void* p; int i; unsigned u; } farg;
static int nfa; static farg FA[40]; static char ffmt[1024];
static void parse_fargs(int from){
  nfa=0; ffmt[0]=0; ob_s(&out,",\"f\":[");
  for(int i=from;i+1<NT;i+=2){ char*f=T[i],*v=T[i+1];
    if(!strcmp(f,"_")){ for(int j=atoi(v);j>0;j--)strcat(ffmt," "); continue; } /* blanks before, between or after the keys */
    farg*a=&FA[nfa++]; memset(a,0,sizeof*a);
    if(ffmt[0])strcat(ffmt,(i%4==0)?"  ":" "); char*tx=aalloc(600);  tx[0]=0;
    strcat(ffmt,"%"); strcat(ffmt,f);
    a->kind=0;
    if(!strcmp(f,"s")){a->kind='s';a->s=tok_key(v,strlen(v),NULL);}
    else if(!strcmp(f,"d")){a->kind='i';a->i=(int)strtol(v,NULL,10);sprintf(tx,"%d",a->i);}
    else if(!strcmp(f,"lld")){a->kind='l';a->ll=strtoll(v,NULL,10);sprintf(tx,"%lld",a->ll);}
    else if(!strcmp(f,"lu")||!strcmp(f,"llu")){a->kind='u';a->ull=strtoull(v,NULL,10);sprintf(tx,"%llu",a->ull);}
    else if(!strcmp(f,"#x")){a->kind='x';a->u=(unsigned)strtoull(v,NULL,10);sprintf(tx,"%x",a->u);}
    else if(!strcmp(f,"#lx")){a->kind='u';a->ull=strtoull(v,NULL,10);sprintf(tx,"%llx",a->ull);}
    else if(!strcmp(f,"f")){a->kind='f';a->d=strtod(v,NULL);sprintf(tx,"%.6f",a->d);}
    else if(!strcmp(f,"p")){a->kind='p';a->p=(void*)(uintptr_t)strtoull(v,NULL,10);sprintf(tx,"%llx",(unsigned long long)(uintptr_t)a->p);}
    if(nfa>1)ob_c(&out,','); ob_f(&out,"[\"%s\",",f); if(a->kind=='s')ob_key(&out,a->s); else ob_str(&out,tx); ob_c(&out,']'); }
  ob_c(&out,']'); }
/* dispatch through libffi-less enumeration: on x86-64 integers and doubles go in
 * separate registers, so passing ints as 64-bit and doubles apart is exact for
 * any interleaving of va_arg reads */
#define II(k) (FA[k].kind=='i'?(unsigned long long)(long long)FA[k].i:FA[k].kind=='x'?(unsigned long long)FA[k].u:FA[k].kind=='l'?(unsigned long long)FA[k].ll:FA[k].kind=='s'?(unsigned long long)(uintptr_t)FA[k].s:FA[k].kind=='p'?(unsigned long long)(uintptr_t)FA[k].p:FA[k].ull)
static unsigned long long ia[20]; static double da[8];
#define IDA ia[0],ia[1],ia[2],ia[3],ia[4],ia[5],ia[6],ia[7],ia[8],ia[9],ia[10],ia[11],ia[12],ia[13],ia[14],ia[15],ia[16],ia[17],ia[18],ia[19],da[0],da[1],da[2],da[3],da[4],da[5],da[6],da[7]
static void marshal(void){ int a=0,b=0; memset(ia,0,sizeof ia); memset(da,0,sizeof da); for(int i=0;i<nfa;i++){ if(FA[i].kind=='f'){ if(b<8)da[b++]=FA[i].d; } else if(a<20) ia[a++]=II(i);} }

static void retu(const char*n,unsigned long long v){ char b[32]; snprintf(b,32,"%s",n); jtext(b,"%llu",v); char c[34]; snprintf(c,34,"%sx",n); jtext(c,"%llx",v); }

#ifdef EXTRA_OPS
static int run_extra(const char*op);
#endif
static int run(void){
  char* op=T[0];
  { int s=-1; if(!strcmp(op,"new")||!strcmp(op,"build")) s=atoi(T[1]); else if(!strcmp(op,"repack")) s=atoi(T[2]); else if(!strcmp(op,"extract")||!strncmp(op,"elem_extract",12)) s=atoi(T[3]);
    if(s>=0&&S[s]){ begin("skip"); finish(); return 0; } }
  begin(op);
  if(!strcmp(op,"new")){ int s=atoi(T[1]); ob_f(&out,",\"s\":%d",s); LIVE(S[s]=kvtree_new()); }
  else if(!strcmp(op,"build")){ /* build a tree with raw set calls: build slot count (depth key nil)... preorder */
    int s=atoi(T[1]); ob_f(&out,",\"s\":%d",s); kvtree*st[4096]; S[s]=kvtree_new(); st[0]=S[s]; kvtree_elem*x;
    for(int i=2;i+2<NT;i+=3){ int d=atoi(T[i]); char*k=tok_key(T[i+1],strlen(T[i+1]),NULL); int nil=atoi(T[i+2]);
      kvtree*c=nil?NULL:kvtree_new(); kvtree_set(st[d],k,c); st[d+1]=c; } (void)x; }
  else if(!strcmp(op,"bigwide")){ /* bigwide n prefix read : a tree of n entries through pack/unpack and a file, outside the slots */
    int n=atoi(T[1]); char*pf=tok_key(T[2],strlen(T[2]),NULL); kvtree*h=kvtree_new(),*q=kvtree_new(),*g=kvtree_new(); char*p=fpath("bigwide.f"); char*b=aalloc(strlen(pf)+16);
    for(int i=0;i<n;i++){ sprintf(b,"%s%d",pf,i); kvtree*c=raw_put(h,b,kvtree_new()); if(i%1000==1) raw_put(c,"x",kvtree_new()); }
    size_t z=kvtree_pack_size(h); char*d=malloc(z); size_t r=kvtree_pack(d,h),u=kvtree_unpack(d,q); free(d);
    int rd=atoi(T[3]),rc=kvtree_write_file(p,h),rrc=rd?kvtree_read_file(p,g):0;
    ob_f(&out,",\"n\":%ld,\"r\":%ld,\"q\":%ld,\"size\":%d,\"rc\":%d,\"rrc\":%d",(long)z,(long)r,(long)u,kvtree_size(h),rc,rrc); jtree("src",h); jtree("unp",q); jtree("rd",rd?g:h); jfile("c",p);
    unlink(p); kvtree_delete(&h); kvtree_delete(&q); kvtree_delete(&g); }
  else if(!strcmp(op,"wide")){ /* wide slot:path n prefixhex : n keys prefix<i> */
    kvtree*h=target("t",T[1]); int n=atoi(T[2]); char*pf=tok_key(T[3],strlen(T[3]),NULL); (void)h;
    char*b=aalloc(strlen(pf)+16); for(int i=0;i<n;i++){ sprintf(b,"%s%d",pf,i); kvtree_set(h,b,(i%3)?kvtree_new():NULL);} }
  else if(!strcmp(op,"deep")){ kvtree*h=target("t",T[1]); int n=atoi(T[2]); char b[32];
    for(int i=0;i<n;i++){ sprintf(b,"%d",i%10); kvtree*c=kvtree_new(); kvtree_set(h,b,c); h=c; } }
  else if(!strcmp(op,"delete")){ int s=atoi(T[1]); ob_f(&out,",\"s\":%d",s); int rc; LIVE(rc=kvtree_delete(&S[s])); ob_f(&out,",\"rc\":%d",rc); }
  else if(!strcmp(op,"delnull")){ int rc; kvtree*z=NULL; LIVE(rc=kvtree_delete(NULL)|kvtree_delete(&z)); ob_f(&out,",\"rc\":%d,\"nl\":%d",rc,z==NULL); }
  else if(!strcmp(op,"set")){ kvtree*h=target("t",T[1]); char*k=key("k",T[2]); int v=atoi(T[3]); ob_f(&out,",\"v\":%d",v);
    kvtree*val=v>=0?S[v]:NULL; kvtree*r; LIVE(r=kvtree_set(h,k,val)); if(v>=0&&h&&k)S[v]=NULL; jloc("r",r,0); }
  else if(!strcmp(op,"get")){ kvtree*h=target("t",T[1]); char*k=key("k",T[2]); kvtree*r; LIVE(r=kvtree_get(h,k)); jloc("r",r,0); }
  else if(!strcmp(op,"extract")){ kvtree*h=target("t",T[1]); char*k=key("k",T[2]); int s=atoi(T[3]); ob_f(&out,",\"s\":%d",s);
    kvtree*r; LIVE(r=kvtree_extract(h,k)); S[s]=r; }
  else if(!strcmp(op,"unset")){ kvtree*h=target("t",T[1]); char*k=key("k",T[2]); int rc; LIVE(rc=kvtree_unset(h,k)); ob_f(&out,",\"rc\":%d",rc); }
  else if(!strcmp(op,"unset_all")){ kvtree*h=target("t",T[1]); int rc; LIVE(rc=kvtree_unset_all(h)); ob_f(&out,",\"rc\":%d",rc); }
  else if(!strcmp(op,"size")){ kvtree*h=target("t",T[1]); int r; LIVE(r=kvtree_size(h)); ob_f(&out,",\"n\":%d",r); }
  else if(!strcmp(op,"merge")){ kvtree*h=target("t",T[1]); kvtree*g=target("u",T[2]); int rc; LIVE(rc=kvtree_merge(h,g)); ob_f(&out,",\"rc\":%d",rc); }
  else if(!strcmp(op,"setf")){ kvtree*h=target("t",T[1]); int v=atoi(T[2]); ob_f(&out,",\"v\":%d",v); parse_fargs(3); marshal();
    kvtree*val=v>=0?S[v]:NULL; kvtree*r;
    LIVE(r=kvtree_setf(h,val,ffmt,IDA)); if(v>=0&&h)S[v]=NULL; jloc("r",r,0); }
  else if(!strcmp(op,"getf")){ kvtree*h=target("t",T[1]); parse_fargs(2); marshal(); kvtree*r;
    LIVE(r=kvtree_getf(h,ffmt,IDA)); jloc("r",r,0); }
  else if(!strcmp(op,"set_kv")){ kvtree*h=target("t",T[1]); char*k=key("k",T[2]),*w=key("w",T[3]); kvtree*r; LIVE(r=kvtree_set_kv(h,k,w)); jloc("r",r,0); }
  else if(!strcmp(op,"get_kv")){ kvtree*h=target("t",T[1]); char*k=key("k",T[2]),*w=key("w",T[3]); kvtree*r; LIVE(r=kvtree_get_kv(h,k,w)); jloc("r",r,0); }
  else if(!strcmp(op,"unset_kv")){ kvtree*h=target("t",T[1]); char*k=key("k",T[2]),*w=key("w",T[3]); int rc; LIVE(rc=kvtree_unset_kv(h,k,w)); ob_f(&out,",\"rc\":%d",rc); }
  else if(!strcmp(op,"set_kv_int")){ kvtree*h=target("t",T[1]); char*k=key("k",T[2]); int w=(int)strtol(T[3],0,10); jtext("w","%d",w); kvtree*r; LIVE(r=kvtree_set_kv_int(h,k,w)); jloc("r",r,0); }
  else if(!strcmp(op,"get_kv_int")){ kvtree*h=target("t",T[1]); char*k=key("k",T[2]); int w=(int)strtol(T[3],0,10); jtext("w","%d",w); kvtree*r; LIVE(r=kvtree_get_kv_int(h,k,w)); jloc("r",r,0); }
  else if(!strcmp(op,"unset_kv_int")){ kvtree*h=target("t",T[1]); char*k=key("k",T[2]); int w=(int)strtol(T[3],0,10); jtext("w","%d",w); int rc; LIVE(rc=kvtree_unset_kv_int(h,k,w)); ob_f(&out,",\"rc\":%d",rc); }
  else if(!strcmp(op,"elem_get")){ kvtree*h=target("t",T[1]); char*k=key("k",T[2]); kvtree_elem*e; LIVE(e=kvtree_elem_get(h,k)); jloc("r",e,1);
    jloc("h",kvtree_elem_hash(e),0); ob_s(&out,",\"ek\":"); ob_ostr(&out,kvtree_elem_key(e)); }
  else if(!strcmp(op,"iter")){ /* full iteration through the public calls */
    kvtree*h=target("t",T[1]); ob_s(&out,",\"it\":["); int first=1,n=0; size_t a=live();
    for(kvtree_elem*e=kvtree_elem_first(h);e&&n<3000000;e=kvtree_elem_next(e),n++){ if(!first)ob_c(&out,','); first=0; ob_c(&out,'['); ob_key(&out,kvtree_elem_key(e)); ob_f(&out,",%d]",kvtree_elem_hash(e)!=NULL); }
    lv=(long)live()-(long)a; ob_s(&out,"]"); }
  else if(!strcmp(op,"iter_int")){ kvtree*h=target("t",T[1]); ob_s(&out,",\"it\":["); int first=1;
    for(kvtree_elem*e=kvtree_elem_first(h);e;e=kvtree_elem_next(e)){ if(!first)ob_c(&out,','); first=0; char b[32]; sprintf(b,"%d",kvtree_elem_key_int(e)); ob_str(&out,b);} ob_s(&out,"]"); }
  else if(!strcmp(op,"elemnull")){ ob_f(&out,",\"ok\":%d", kvtree_elem_first(NULL)==NULL && kvtree_elem_next(NULL)==NULL && kvtree_elem_key(NULL)==NULL && kvtree_elem_hash(NULL)==NULL && kvtree_elem_key_int(NULL)==0); }
  else if(!strcmp(op,"elem_extract")||!strcmp(op,"elem_extract_int")||!strcmp(op,"elem_extract_addr")){
    kvtree*h=target("t",T[1]); kvtree_elem*e=NULL; int s=atoi(T[3]); char*ek=NULL;
    if(op[12]==0){ char*k=key("k",T[2]); LIVE(e=kvtree_elem_extract(h,k)); }
    else if(op[13]=='i'){ int w=(int)strtol(T[2],0,10); jtext("k","%d",w); LIVE(e=kvtree_elem_extract_int(h,w)); }
    else { char*k=key("k",T[2]); kvtree_elem*x; child_raw(h,k,&x); if(x) LIVE(e=kvtree_elem_extract_by_addr(h,x)); }
    ob_f(&out,",\"s\":%d,\"ek\":",s); ob_ostr(&out,e?kvtree_elem_key(e):NULL);
    S[s]=e?kvtree_elem_hash(e):NULL; if(e){ ek=e->key; free(ek); free(e);} }
  else if(!strcmp(op,"first_val")){ kvtree*h=target("t",T[1]); char*k=key("k",T[2]); char*r; LIVE(r=kvtree_elem_get_first_val(h,k)); ob_s(&out,",\"r\":"); ob_ostr(&out,r); }
  else if(!strcmp(op,"get_val")){ kvtree*h=target("t",T[1]); char*k=key("k",T[2]); char*r; LIVE(r=kvtree_get_val(h,k)); ob_s(&out,",\"r\":"); ob_ostr(&out,r); }
  else if(!strcmp(op,"sort")||!strcmp(op,"sort_int")){ kvtree*h=target("t",T[1]); int d=atoi(T[2]); ob_f(&out,",\"dir\":%d",d); int rc;
    LIVE(rc=op[4]?kvtree_sort_int(h,d?KVTREE_SORT_DESCENDING:KVTREE_SORT_ASCENDING):kvtree_sort(h,d?KVTREE_SORT_DESCENDING:KVTREE_SORT_ASCENDING)); ob_f(&out,",\"rc\":%d",rc); }
  else if(!strcmp(op,"list_int")){ kvtree*h=target("t",T[1]); int n=-7; int*v=(int*)&n; int rc; size_t a=live(); rc=kvtree_list_int(h,&n,&v);
    ob_f(&out,",\"rc\":%d,\"n\":%d,\"nl\":%d,\"l\":[",rc,n,v==NULL); for(int i=0;i<n&&v;i++){ if(i)ob_c(&out,','); char b[32]; sprintf(b,"%d",v[i]); ob_str(&out,b);} ob_c(&out,']'); free(v); lv=(long)live()-(long)a; }
  /* typed values */
  else if(!strncmp(op,"uset_",5)){ kvtree*h=target("t",T[1]); char*k=key("k",T[2]); char*v=T[3]; int rc=-9;
    if(!strcmp(op+5,"int")){ int x=(int)strtol(v,0,10); jtext("w","%d",x); LIVE(rc=kvtree_util_set_int(h,k,x)); }
    else if(!strcmp(op+5,"ulong")){ unsigned long x=strtoul(v,0,10); jtext("w","%lu",x); LIVE(rc=kvtree_util_set_unsigned_long(h,k,x)); }
    else if(!strcmp(op+5,"bytecount")){ unsigned long x=strtoul(v,0,10); jtext("w","%lu",x); LIVE(rc=kvtree_util_set_bytecount(h,k,x)); }
    else if(!strcmp(op+5,"crc32")){ uLong x=strtoul(v,0,10)&0xffffffffUL; jtext("w","%lx",(unsigned long)x); LIVE(rc=kvtree_util_set_crc32(h,k,x)); }
    else if(!strcmp(op+5,"int64")){ int64_t x=strtoll(v,0,10); jtext("w","%" PRId64,x); LIVE(rc=kvtree_util_set_int64(h,k,x)); }
    else if(!strcmp(op+5,"double")){ double x=strtod(v,0); jtext("w","%.6f",x); LIVE(rc=kvtree_util_set_double(h,k,x)); }
    else if(!strcmp(op+5,"ptr")){ void*x=(void*)(uintptr_t)strtoull(v,0,10); jtext("w","%llx",(unsigned long long)(uintptr_t)x); LIVE(rc=kvtree_util_set_ptr(h,k,x)); }
    else if(!strcmp(op+5,"str")){ char*x=key("w",v); LIVE(rc=kvtree_util_set_str(h,k,x)); }
    ob_f(&out,",\"rc\":%d",rc); }
  else if(!strncmp(op,"uget_",5)){ kvtree*h=target("t",T[1]); char*k=key("k",T[2]); int rc=-9,same=1;
    /* run twice with different sentinels so that an untouched output is recognised */
    if(!strcmp(op+5,"int")){ int a=12345,b=-777; LIVE(rc=kvtree_util_get_int(h,k,&a)); int r2=kvtree_util_get_int(h,k,&b); same=(a==12345&&b==-777); jtext("w","%d",a); if(r2!=rc||(!same&&a!=b))rc=-99; }
    else if(!strcmp(op+5,"ulong")||!strcmp(op+5,"bytecount")||!strcmp(op+5,"crc32")){ unsigned long a=12345,b=777; int r2;
      int (*fn)(const kvtree*,const char*,unsigned long*)=op[5]=='u'?kvtree_util_get_unsigned_long:op[5]=='b'?kvtree_util_get_bytecount:(int(*)(const kvtree*,const char*,unsigned long*))kvtree_util_get_crc32;
      LIVE(rc=fn(h,k,&a)); r2=fn(h,k,&b); same=(a==12345&&b==777); retu("w",a); if(r2!=rc||(!same&&a!=b))rc=-99; }
    else if(!strcmp(op+5,"int64")){ int64_t a=12345,b=-777; LIVE(rc=kvtree_util_get_int64(h,k,&a)); int r2=kvtree_util_get_int64(h,k,&b); same=(a==12345&&b==-777); jtext("w","%" PRId64,a); if(r2!=rc||(!same&&a!=b))rc=-99; }
    else if(!strcmp(op+5,"double")){ double a=12345,b=-777; LIVE(rc=kvtree_util_get_double(h,k,&a)); int r2=kvtree_util_get_double(h,k,&b); same=(a==12345&&b==-777); jtext("w","%.6f",a); if(r2!=rc||(!same&&memcmp(&a,&b,8)))rc=-99; }
    else if(!strcmp(op+5,"ptr")){ void*a=(void*)12345,*b=(void*)777; LIVE(rc=kvtree_util_get_ptr(h,k,&a)); int r2=kvtree_util_get_ptr(h,k,&b); same=(a==(void*)12345&&b==(void*)777); jtext("w","%llx",(unsigned long long)(uintptr_t)a); if(r2!=rc||(!same&&a!=b))rc=-99; }
    else if(!strcmp(op+5,"str")){ char*a=(char*)"12345",*b=(char*)"777"; char*a0=a,*b0=b; LIVE(rc=kvtree_util_get_str(h,k,&a)); int r2=kvtree_util_get_str(h,k,&b); same=(a==a0&&b==b0); ob_s(&out,",\"w\":"); ob_ostr(&out,a); if(r2!=rc||(!same&&a!=b))rc=-99; }
    ob_f(&out,",\"rc\":%d,\"un\":%d",rc,same); }
  /* packing */
  else if(!strcmp(op,"pack_size")){ kvtree*h=target("t",T[1]); size_t n; LIVE(n=kvtree_pack_size(h)); ob_f(&out,",\"n\":%ld",(long)n); }
  else if(!strcmp(op,"pack")){ kvtree*h=target("t",T[1]); size_t n=kvtree_pack_size(h); char*b=malloc(n+1); /* exact size under ASAN + guard value */
    memset(b,0xA5,n+1); size_t r; size_t a=live(); r=kvtree_pack(b,h); lv=(long)live()-(long)a;
    ob_f(&out,",\"n\":%ld,\"r\":%ld,\"g\":%d,\"b\":",(long)n,(long)r,(unsigned char)b[n]==0xA5); ob_bytes(&out,b,n); free(b); }
  else if(!strcmp(op,"unpack")){ /* unpack t hex : into the (normally empty) tree */
    kvtree*h=target("t",T[1]); size_t n; char*b=tok_key(T[2],strlen(T[2]),&n); char*c=malloc(n); memcpy(c,b,n); ob_s(&out,",\"b\":"); ob_bytes(&out,c,n);
    size_t r; LIVE(r=kvtree_unpack(c,h)); ob_f(&out,",\"r\":%ld",(long)r); free(c); }
  else if(!strcmp(op,"repack")){ /* pack t, unpack into new slot: large trees, no bytes logged */
    kvtree*h=target("t",T[1]); int s=atoi(T[2]); ob_f(&out,",\"s\":%d",s); size_t n=kvtree_pack_size(h); char*b=malloc(n); size_t r=kvtree_pack(b,h);
    S[s]=kvtree_new(); size_t q=kvtree_unpack(b,S[s]); free(b); ob_f(&out,",\"n\":%ld,\"r\":%ld,\"q\":%ld",(long)n,(long)r,(long)q); }
  else if(!strcmp(op,"persist")){ kvtree*h=target("t",T[1]); void*b=NULL; size_t n=0; int rc; size_t a=live(); rc=kvtree_write_persist(&b,&n,h);
    ob_f(&out,",\"rc\":%d,\"n\":%ld,\"b\":",rc,(long)n); if(b)ob_content(b,n); else ob_s(&out,"[]"); free(b); lv=(long)live()-(long)a; }
  /* files */
  else if(!strcmp(op,"fput")){ char*p=fpath(T[1]); ob_f(&out,",\"f\":\"%s\"",T[1]); size_t n=0; char*b=NULL; if(T[2][0]!='-')b=tok_key(T[2],strlen(T[2]),&n);
    unlink(p); if(b){ int fd=open(p,O_WRONLY|O_CREAT|O_TRUNC,0644); if(write(fd,b,n)!=(ssize_t)n)_exit(95); close(fd);} jfile("c",p); }
  else if(!strcmp(op,"fdamage")){ /* fdamage f kind pos val : xor a byte (x), cut (t) or append bytes (a); positions < 0 count from the end; upper case: checksum fixed up */
    char*p=fpath(T[1]); ob_f(&out,",\"f\":\"%s\"",T[1]); size_t n; unsigned char*b=readall(p,&n); long at=atol(T[3]); int v=atoi(T[4]); if(at<0)at+=(long)n; if(at<0)at=0; int k=T[2][0];
    if(b){ unsigned char*c=aalloc(n+v+8); memcpy(c,b,n);
      if((k|32)=='x'){ if((size_t)at<n) c[at]^=v; } else if((k|32)=='t'){ if((size_t)at<n) n=at; } else if((k|32)=='a'){ memset(c+n,v,v); n+=v; }
      if(k<'a'&&n>24){ uint32_t w=(uint32_t)crc32_z(0,c,n-4); c[n-4]=w>>24; c[n-3]=w>>16; c[n-2]=w>>8; c[n-1]=w; }
      int fd=open(p,O_WRONLY|O_CREAT|O_TRUNC,0644); for(size_t o=0;o<n;){ ssize_t q=write(fd,c+o,n-o); if(q<=0)_exit(95); o+=q; } close(fd); } jfile("c",p); }
  else if(!strcmp(op,"write_file")||!strcmp(op,"write_lock")||!strcmp(op,"write_fd")){ kvtree*h=target("t",T[1]); char*p=strcmp(T[2],"-")?fpath(T[2]):NULL; ob_f(&out,",\"f\":\"%s\"",T[2]); int rc; int n0=nfds();
    capstart(); iow_reset();
    if(!strcmp(op,"write_file")) LIVE(rc=kvtree_write_file(p,h)); else if(!strcmp(op,"write_lock")) LIVE(rc=kvtree_write_with_lock(p,h));
    else { int fd=open(p,O_WRONLY|O_CREAT|O_TRUNC,0644); iow_pass(fd); ssize_t r; LIVE(r=kvtree_write_fd(p,fd,h)); close(fd); rc=r<0; ob_f(&out,",\"n\":%ld",(long)r); }
    capend("so"); ob_f(&out,",\"rc\":%d,\"fd\":%d",rc,nfds()-n0); jio(p); if(p)jfile("c",p); else ob_s(&out,",\"c\":[]"); }
  else if(!strcmp(op,"read_file")||!strcmp(op,"read_lock")||!strcmp(op,"read_fd")){ kvtree*h=target("t",T[1]); char*p=strcmp(T[2],"-")?fpath(T[2]):NULL; ob_f(&out,",\"f\":\"%s\"",T[2]); int rc; int n0=nfds();
    capstart(); iow_reset();
    if(!strcmp(op,"read_file")) LIVE(rc=kvtree_read_file(p,h)); else if(!strcmp(op,"read_lock")) LIVE(rc=kvtree_read_with_lock(p,h));
    else { int fd=open(p,O_RDONLY); iow_pass(fd); ssize_t r; LIVE(r=kvtree_read_fd(p,fd,h)); if(fd>=0)close(fd); rc=r<0; ob_f(&out,",\"n\":%ld",(long)r); }
    capend("so"); ob_f(&out,",\"rc\":%d,\"fd\":%d",rc,nfds()-n0); jio(p); if(p)jfile("c",p); else ob_s(&out,",\"c\":[]"); }
  else if(!strcmp(op,"recs")){ /* recs prefix slot...: after so many bytes of something else, one record after another through one descriptor; then read back */
    char*p=fpath("recs"); int pre=atoi(T[1]); unlink(p); int n0=nfds(); ob_f(&out,",\"pre\":%d,\"s\":[",pre); for(int i=2;i<NT;i++) ob_f(&out,"%s%d",i>2?",":"",atoi(T[i]));
    capstart(); iow_reset(); ob_s(&out,"],\"n\":["); int fd=open(p,O_WRONLY|O_CREAT|O_TRUNC,0644); iow_pass(fd); for(int i=0;i<pre;i++) if(write(fd,"#",1)!=1) _exit(95);
    for(int i=2;i<NT;i++){ ssize_t r; iow_on=1; r=kvtree_write_fd(p,fd,S[atoi(T[i])]); iow_on=0; ob_f(&out,"%s%ld,%ld",i>2?",":"",(long)r,(long)lseek(fd,0,SEEK_CUR)); }
    close(fd); ob_c(&out,']'); jfile("c",p); fd=open(p,O_RDONLY); iow_pass(fd); lseek(fd,pre,SEEK_SET); static obuf rd; if(!rd.p) ob_init(&rd,1<<20); rd.n=0; ob_s(&out,",\"m\":[");
    for(int i=2;i<NT;i++){ ssize_t r; kvtree*q=kvtree_new(); iow_on=1; r=kvtree_read_fd(p,fd,q); iow_on=0; ob_f(&out,"%s%ld,%ld",i>2?",":"",(long)r,(long)lseek(fd,0,SEEK_CUR)); if(i>2)ob_c(&rd,','); ob_slot(&rd,q); kvtree_delete(&q); }
    close(fd); unlink(p); ob_c(&out,']'); capend("so"); ob_f(&out,",\"fd\":%d,\"rd\":[",nfds()-n0); ob_need(&out,rd.n); memcpy(out.p+out.n,rd.p,rd.n); out.n+=rd.n; ob_c(&out,']'); }
  else if(!strcmp(op,"rmw")){ /* lock_open_read into t, then set key, write_close_unlock */
    kvtree*h=target("t",T[1]); char*p=fpath(T[2]); ob_f(&out,",\"f\":\"%s\"",T[2]); jfile("c0",p); char*k=key("k",T[3]); char*un=NULL; if(NT>4) un=key("u",T[4]); else ob_s(&out,",\"u\":[]"); int fd=-5; int n0=nfds(); capstart(); iow_reset();
    int rc1; LIVE(rc1=kvtree_lock_open_read(p,&fd,h)); hold_off(); int fdok=fd>=0&&fcntl(fd,F_GETFD)>=0; int usable=fdok&&(fcntl(fd,F_GETFL)&O_ACCMODE)==O_RDWR; cur.n=0; ob_slot(&cur,h); ob_f(&out,",\"rc1\":%d,\"fdok\":%d,\"fdu\":%d,\"lk1\":%d,\"al1\":%d,\"fd1\":%d,\"h1\":[",rc1,fdok,usable,lockstate(p),iow_alien,nfds()-n0);
    for(int i=0;i<iow_np;i++) ob_f(&out,"%s%d",i?",":"",iow_pl[i].hits); ob_s(&out,"],\"rd\":"); ob_need(&out,cur.n); memcpy(out.p+out.n,cur.p,cur.n); out.n+=cur.n;
    int rc2=-1; if(rc1==KVTREE_SUCCESS){ if(un) kvtree_unset(h,un); kvtree_set(h,k,kvtree_new()); long l1=lv; LIVE(rc2=kvtree_write_close_unlock(p,&fd,h)); lv+=l1;}
    capend("so"); ob_f(&out,",\"rc2\":%d,\"fdend\":%d,\"fd\":%d",rc2,fd,nfds()-n0); jio(p); jfile("c",p); }
  else if(!strcmp(op,"crash")){ /* crash t f call key n part : the process dies before the n-th system call of the call, or inside it after part bytes;
     then the file is read, and put back as it was */
    kvtree*h=target("t",T[1]); char*p=fpath(T[2]); ob_f(&out,",\"f\":\"%s\",\"call\":\"%s\",\"n\":%s,\"part\":%s",T[2],T[3],T[5],T[6]); char*k=key("k",T[4]); jfile("c0",p); size_t n0; unsigned char*b0=readall(p,&n0);
    fflush(stdout); pid_t pid=fork();
    if(pid==0){ int dn=open("/dev/null",O_WRONLY); dup2(dn,1); dup2(dn,2); iow_reset(); iow_np=0; iow_crash_at=atol(T[5]); iow_crash_part=atol(T[6]); int fd=-1,rc; iow_on=1;
      if(!strcmp(T[3],"write_file")) rc=kvtree_write_file(p,h); else if(!strcmp(T[3],"write_lock")) rc=kvtree_write_with_lock(p,h);
      else { rc=kvtree_lock_open_read(p,&fd,h); iow_on=0; if(rc==0) kvtree_set(h,k,kvtree_new()); iow_on=1; if(rc==0) rc=kvtree_write_close_unlock(p,&fd,h); }
      _exit(0); }
    int ws=0; while(waitpid(pid,&ws,0)<0); int code=WIFEXITED(ws)?WEXITSTATUS(ws):1000+WTERMSIG(ws); jfile("c",p);
    kvtree*q=kvtree_new(); capstart(); int rrc=kvtree_read_file(p,q); fflush(stdout); if(ftruncate(1,0)){} lseek(1,0,SEEK_SET); cur.n=0; ob_slot(&cur,q); kvtree_delete(&q);
    ob_f(&out,",\"code\":%d,\"rrc\":%d,\"rd\":",code,rrc); ob_need(&out,cur.n); memcpy(out.p+out.n,cur.p,cur.n); out.n+=cur.n;
    unlink(p); if(b0){ int fd=open(p,O_WRONLY|O_CREAT|O_TRUNC,0644); if(write(fd,b0,n0)!=(ssize_t)n0)_exit(95); close(fd); } }
  else if(!strcmp(op,"plan")){ /* plan class nth errno count shortn : inject a fault in the file calls that follow */
    if(iow_np<IOW_NPLAN){ iow_plan*q=&iow_pl[iow_np++]; memset(q,0,sizeof*q); q->cls=T[1][0]; q->nth=atoi(T[2]); q->err=atoi(T[3]); q->count=atoi(T[4]); q->shortn=atol(T[5]); } }
  else if(!strcmp(op,"noplan")) iow_np=0;
  else if(!strcmp(op,"slow")) slow=atoi(T[1]); /* the calls that follow may take this many seconds */
  else if(!strcmp(op,"hold")){ jname(T[1]); hold_start(fpath(T[1]),atoi(T[2])); } /* hold f kind : another process holds a shared (1) or exclusive (2) lock on f */
  else if(!strcmp(op,"unhold")) hold_end();
  else if(!strcmp(op,"print")||!strcmp(op,"printt")||!strcmp(op,"log")){ kvtree*h=target("t",T[1]); int ind=atoi(T[2]); int mode=atoi(T[3]); ob_f(&out,",\"ind\":%d,\"mode\":%d",ind,mode); int rc; capstart();
    size_t a=live(); if(op[0]=='l') rc=kvtree_log(h,1,ind); else if(op[5]) rc=kvtree_print(h,ind); else rc=kvtree_print_mode(h,ind,mode==1?KVTREE_PRINT_TREE:KVTREE_PRINT_KEYVAL); lv=(long)live()-(long)a;
    ob_f(&out,",\"rc\":%d",rc); if(op[0]=='l') loglines(); capend("so"); }
  else if(!strcmp(op,"gwrite")){ /* serial gather write: gwrite t prefix ranks entries_per_file */
    kvtree*h=target("t",T[1]); char*p=fpath(T[2]); int ranks=atoi(T[3]); static char epf[80]; size_t e0=live(); unsetenv("KVTREE_ENTRIES_PER_FILE"); if(strcmp(T[4],"-")){ sprintf(epf,"KVTREE_ENTRIES_PER_FILE=%.40s",T[4]); putenv(epf); } hist_base+=live()-e0;
    jname(T[2]); ob_f(&out,",\"ranks\":%d",ranks); int n0=nfds(); int rc; capstart(); iow_reset(); LIVE(rc=kvtree_write_to_gather(p,h,ranks)); capend("so"); ob_f(&out,",\"rc\":%d,\"fd\":%d",rc,nfds()-n0); jio(p); unsetenv("KVTREE_ENTRIES_PER_FILE"); }
  else if(!strcmp(op,"gread")){ kvtree*h=target("t",T[1]); char*p=fpath(T[2]); jname(T[2]); int n0=nfds(); int rc; capstart(); iow_reset(); LIVE(rc=kvtree_read_scatter_single(p,h)); capend("so"); ob_f(&out,",\"rc\":%d,\"fd\":%d",rc,nfds()-n0); jio(p); }
  else if(!strcmp(op,"cli")){ /* cli t items... : run the print command; the target tree is what the readable file holds */
    kvtree*h=target("t",T[1]); char*av[80]; int ac=0; char*f=fpath("cli.kvt"),*m=fpath("cli.missing"),*dm=fpath("cli.damaged"); unlink(m); unlink(f);
    fflush(stdout); kvtree_write_file(f,h); { size_t n; unsigned char*b=readall(f,&n); int fd=open(dm,O_WRONLY|O_CREAT|O_TRUNC,0644); if(n>24)b[n-1]^=0x10; if(write(fd,b,n)<0)_exit(95); close(fd); }
    av[ac++]=getenv("KVTREE_PRINT_BIN"); ob_s(&out,",\"items\":[");
    for(int i=3;i<NT;i++){ char*x=T[i]; int v=(atoi(T[2])+i)%3; ob_f(&out,"%s\"%s\"",i>3?",":"",x);
      if(!strcmp(x,"file"))av[ac++]=f; else if(!strcmp(x,"missing"))av[ac++]=m; else if(!strcmp(x,"damaged"))av[ac++]=dm;
      else if(!strcmp(x,"help"))av[ac++]=v==1?"--help":"-h";
      else if(!strcmp(x,"unknown"))av[ac++]=v==0?"-x":v==1?"--bogus":"-q";
      else if(!strcmp(x,"noarg"))av[ac++]=v==1?"--mode":"-m";
      else { char*md=!strcmp(x,"badmode")?(v==0?"treex":v==1?"":"key"):x; if(v==0){av[ac++]="-m";av[ac++]=md;} else if(v==1){av[ac++]="--mode";av[ac++]=md;} else { char*q=aalloc(40); sprintf(q,"--mode=%s",md); av[ac++]=q; } } }
    av[ac]=NULL; ob_c(&out,']'); capstart(); pid_t pid=fork();
    if(pid==0){ int dn=open("/dev/null",O_WRONLY); dup2(dn,2); unsetenv("ASAN_OPTIONS"); execv(av[0],av); _exit(127); }
    int ws=0; waitpid(pid,&ws,0); int rc=WIFEXITED(ws)?WEXITSTATUS(ws):1000+WTERMSIG(ws); if(rc==127)_exit(95);
    lseek(1,0,SEEK_END); capend("out"); ob_f(&out,",\"rc\":%d",rc>=1000?0-rc:rc); if(rc>=1000){ fprintf(stderr,"print command died\n"); abort(); } }
  else if(!strcmp(op,"getmode")){ int um=(int)strtol(T[1],NULL,8); int b=atoi(T[2]); mode_t o=umask(um); int m=kvtree_getmode((b&4)!=0,(b&2)!=0,b&1); mode_t u2=umask(o);
    ob_f(&out,",\"um\":%d,\"rwx\":[%d,%d,%d],\"m\":%d,\"um2\":%d",um,(b&4)!=0,(b&2)!=0,b&1,m,(int)u2); }
  else if(!strcmp(op,"perm")){ /* perm umask call pre : create a file (or use one with mode pre) under a umask */
    int um=(int)strtol(T[1],NULL,8); char*how=T[2]; int pre=!strcmp(T[3],"-")?-1:(int)strtol(T[3],NULL,8); char*p=fpath("perm.f"); kvtree*h=kvtree_new(); kvtree_set_kv(h,"a","b"); unlink(p);
    if(pre>=0){ kvtree_write_file(p,h); chmod(p,pre); }
    mode_t o=umask(um); int fd=-1; struct stat sb; char*q=p;
    capstart();
    iow_reset(); iow_on=iow_np>0;
    if(!strcmp(how,"write_file"))kvtree_write_file(p,h); else if(!strcmp(how,"write_lock"))kvtree_write_with_lock(p,h); else if(!strcmp(how,"read_lock"))kvtree_read_with_lock(p,h);
    else if(!strcmp(how,"rmw")){ if(!kvtree_lock_open_read(p,&fd,h))kvtree_write_close_unlock(p,&fd,h); }
    else if(!strncmp(how,"gather",6)){ kvtree*g=kvtree_new(); kvtree_set_kv_int(g,"x",0); kvtree*c=kvtree_new(); kvtree_set(c,"0",kvtree_new()); kvtree_write_to_gather(p,c,1); kvtree_delete(&c); kvtree_delete(&g); if(how[6]=='p'){ q=aalloc(strlen(p)+8); sprintf(q,"%s.0.0",p);} }
    iow_on=0; { int hit=0; for(int i=0;i<iow_np;i++) hit+=iow_pl[i].hits; ob_f(&out,",\"hit\":%d",hit); }
    mode_t u2=umask(o); fflush(stdout); if(ftruncate(1,0)){} lseek(1,0,SEEK_SET);
    int m=stat(q,&sb)?-1:(int)(sb.st_mode&07777); if(q!=p)unlink(q); { char*z=aalloc(strlen(p)+8); sprintf(z,"%s.0.0",p); unlink(z);} 
    ob_f(&out,",\"um\":%d,\"how\":\"%s\",\"pre\":%d,\"m\":%d,\"um2\":%d",um,how,pre,m,(int)u2); kvtree_delete(&h); }
  else if(!strcmp(op,"badargs")){ /* documented argument failures, with the file absent and with it present: neither is changed by any of them */
    kvtree*h=kvtree_new(); int fd=3; char*p=fpath("nofile"); char*p0=aalloc(strlen(p)+8); sprintf(p0,"%s.0.0",p); size_t n; void*b; int n0=nfds(); unlink(p); unlink(p0); if(chdir(scratch))_exit(95); capstart();
    char r[160]; int i=0;
    for(int pres=0;pres<2;pres++){
      unsigned char*was=NULL; size_t wn=0; struct stat st0,st1;
      if(pres){ kvtree*k=kvtree_new(); kvtree_set_kv(k,"kept","as is"); kvtree_write_file(p,k); kvtree_delete(&k); was=readall(p,&wn); chmod(p,0640); }
      if(pres&&stat(p,&st0))_exit(95);
#define BAD(x) do{ int ok_=(x); size_t n_; unsigned char*b_; if(pres){ b_=readall(p,&n_); ok_=ok_&&b_&&n_==wn&&!memcmp(b_,was,wn)&&!stat(p,&st1)&&st1.st_mode==st0.st_mode&&st1.st_ino==st0.st_ino;} else ok_=ok_&&access(p,F_OK)!=0; \
        ok_=ok_&&access(p0,F_OK)!=0&&kvtree_size(h)==0; r[i++]=ok_; }while(0)
      BAD(kvtree_write_file(NULL,h)!=0); BAD(kvtree_write_file(p,NULL)!=0); BAD(kvtree_read_file(NULL,h)!=0); BAD(kvtree_read_file(p,NULL)!=0); if(!pres) BAD(kvtree_read_file(p,h)!=0);
      BAD(kvtree_write_with_lock(NULL,h)!=0); BAD(kvtree_write_with_lock(p,NULL)!=0); BAD(kvtree_read_with_lock(NULL,h)!=0); BAD(kvtree_read_with_lock(p,NULL)!=0);
      BAD(kvtree_lock_open_read(NULL,&fd,h)!=0&&fd==-1); fd=3; BAD(kvtree_lock_open_read(p,NULL,h)!=0); BAD(kvtree_lock_open_read(p,&fd,NULL)!=0&&fd==-1); fd=3; BAD(kvtree_lock_open_read(NULL,&fd,NULL)!=0&&fd==-1);
      fd=-1; BAD(kvtree_write_close_unlock(p,&fd,h)!=0); BAD(kvtree_write_close_unlock(p,NULL,h)!=0);
      BAD(kvtree_write_fd(NULL,1,h)<0); BAD(kvtree_write_fd(p,-1,h)<0); BAD(kvtree_write_fd(p,1,NULL)<0); BAD(kvtree_read_fd(p,-1,h)<0); BAD(kvtree_read_fd(p,0,NULL)<0); BAD(kvtree_read_fd(NULL,0,h)<0);
      BAD(kvtree_write_persist(NULL,&n,h)!=0); BAD(kvtree_write_persist(&b,&n,NULL)!=0); BAD(kvtree_unpack("abc",NULL)==0);
      BAD(kvtree_write_to_gather(NULL,h,1)!=0&&access("(null).0.0",F_OK)!=0); BAD(kvtree_write_to_gather(p,NULL,1)!=0); BAD(kvtree_read_scatter_single(NULL,h)!=0);
      BAD(nfds()==n0);
      if(pres){ kvtree*k=kvtree_new(); fd=-1; r[i++]=kvtree_lock_open_read(p,&fd,k)==0; BAD(kvtree_write_close_unlock(NULL,&fd,k)!=0&&fd>=0&&fcntl(fd,F_GETFD)>=0); BAD(kvtree_write_close_unlock(p,&fd,NULL)!=0&&fd>=0&&fcntl(fd,F_GETFD)>=0);
        r[i++]=kvtree_write_close_unlock(p,&fd,k)==0&&fd==-1; kvtree_delete(&k); }
      else { fd=-1; r[i++]=kvtree_lock_open_read(p,&fd,h)==0; r[i++]=kvtree_write_close_unlock(NULL,&fd,h)!=0&&fd>=0&&fcntl(fd,F_GETFD)>=0; r[i++]=kvtree_write_close_unlock(p,&fd,NULL)!=0&&fd>=0&&fcntl(fd,F_GETFD)>=0;
        r[i++]=kvtree_write_close_unlock(p,&fd,h)==0&&fd==-1; }
      unlink(p); }
    r[i++]=access(p,F_OK)!=0; r[i++]=kvtree_size(h)==0;
    capend("so"); ob_s(&out,",\"ok\":["); for(int j=0;j<i;j++)ob_f(&out,"%s%d",j?",":"",r[j]); ob_f(&out,"],\"fd\":%d",nfds()-n0); kvtree_delete(&h); }
#ifdef EXTRA_OPS
  else if(run_extra(op)){}
#endif
  else if(!strcmp(op,"end")){ iow_np=0; slow=20; hold_end(); for(int s=0;s<NS;s++) kvtree_delete(&S[s]); lv=(long)live()-(long)hist_base; }
  else { fprintf(stderr,"unknown op %s\n",op); _exit(94); }
  finish();
  if(!strcmp(op,"end")){
#ifndef SEQDRV_NOMAIN
    DIR*d=opendir(scratch); struct dirent*e; if(d){ while((e=readdir(d))) if(e->d_name[0]!='.') unlink(fpath(e->d_name)); closedir(d);}
#endif
    arena_n=0; hist_base=live(); }
  return 0;
}
/* stdout and its capture share fd 1, per process */
static void capsetup(void){ static char sbuf[1<<16]; fflush(stdout); int c=memfd_create("cap",0); setvbuf(stdout,sbuf,_IOFBF,sizeof sbuf); dup2(c,1); close(c); capfd=1; }
static void drv_init(char* dir){
  scratch=dir; arena_init((size_t)64<<30);
  ob_init(&out,(size_t)1<<30); ob_init(&cur,(size_t)1<<29); for(int i=0;i<NS;i++){ob_init(&prev[i],(size_t)1<<29); ob_s(&prev[i],"[]");}
  capsetup();
  /* warm up lazily allocated library state */
  regex_t rx; regcomp(&rx,"^a\\.[0-9]+$",REG_EXTENDED); regfree(&rx); DIR*d=opendir("/proc/self/fd"); if(d){readdir(d);closedir(d);} char hn[64]; gethostname(hn,64);
  setenv("KVTREE_ENTRIES_PER_FILE","1",1); unsetenv("KVTREE_ENTRIES_PER_FILE");
  strerror(ENOENT); strerror(EIO); { kvtree*w=kvtree_new(); kvtree_util_set_double(w,"a",1.5); kvtree_get_val(w,"zz"); kvtree_delete(&w);} 
  hist_base=live(); }
#ifndef SEQDRV_NOMAIN
static char* line;
int main(int argc,char**argv){
  if(argc<4) return 93;
  int sfd=open(argv[1],O_RDONLY); struct stat st; fstat(sfd,&st); char*script=mmap(NULL,st.st_size+1,PROT_READ|PROT_WRITE,MAP_PRIVATE,sfd,0);
  outfd=open(argv[2],O_WRONLY|O_CREAT|O_APPEND,0644);
  drv_init(argv[3]);
  if(argc>4) tok_limit=atol(argv[4]);
  char*p=script,*end=script+st.st_size; while(p<end){ char*nl=memchr(p,'\n',end-p); if(!nl)nl=end; size_t n=nl-p; line=p; if(nl<end)*nl=0; p=nl+1; if(n==0||line[0]=='#')continue;
    alarm(slow); if(split(line)) run(); }
  return 0;
}
#endif
