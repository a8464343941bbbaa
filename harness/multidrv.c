/* Conformance driver for several processes: ranks of a communicator, or
 * independent processes sharing a file.  Every rank runs the operations of
 * seqdrv and the ones below; a baton decides who runs.
 * Usage: multidrv SCRIPT OUT SCRATCHDIR [toklimit]
 *   H n seed mode segsize kind     begin a history; kind M (ranks in steps) or L (free-running processes)
 *   C id r0 r1 ...                 a communicator (world ranks in order)
 *   I id                           number of the history, for its start event
 *   F name hex                     a file that exists at the start
 *   D preemptions runs             explore schedules systematically (kind L)
 *   S                              next step; then "rank op args" or "* op args"
 *   E                              end of history */
#define SEQDRV_NOMAIN
#define EXTRA_OPS
#include "seqdrv.c"
#include "mpi.h"
#include "kvtree_mpi.h"
#include <signal.h>
#include <sys/prctl.h>
static int myrank,kindL;

/* ---- independent decoding of a file, for large ones ---- */
static unsigned be(const unsigned char*p,int n){ unsigned v=0; for(int i=0;i<n;i++)v=v<<8|p[i]; return v; }
static size_t dec(obuf*o,const unsigned char*b,size_t p,size_t n,int*ok){ if(p+4>n){*ok=0;return n;} unsigned c=be(b+p,4); p+=4; ob_c(o,'['); for(unsigned i=0;i<c&&*ok;i++){ const unsigned char*z=memchr(b+p,0,n-p); if(!z){*ok=0;break;} if(i)ob_c(o,','); ob_c(o,'['); ob_key(o,(char*)b+p); ob_s(o,",["); p=z+1-b; p=dec(o,b,p,n,ok); ob_s(o,"]]"); } ob_c(o,']'); return p; }
static void jdecoded(const unsigned char*b,size_t n){ int ok=n>=24&&be(b,4)==0x951fc3f5u&&be(b+4,2)==1&&be(b+6,2)==1&&be(b+8,4)==0&&be(b+12,4)==n&&be(b+16,4)==1&&be(b+n-4,4)==(unsigned)crc32(crc32(0,NULL,0),b,n-4);
  if(!ok){ ob_s(&out,"[\"x\"]"); return; } ob_s(&out,"[\"t\","); size_t p=dec(&out,b,20,n-4,&ok); if(!ok||p!=n-4) ob_s(&out,",0"); ob_c(&out,']'); }
static int namecmp(const void*a,const void*b){ return strcmp(*(char**)a,*(char**)b); }

static int listdir(char**nm,int n,const char*rel){ char p[8192]; snprintf(p,sizeof p,"%s/%s",scratch,rel); DIR*d=opendir(p); struct dirent*e; if(!d) return n; while((e=readdir(d))) if(strcmp(e->d_name,".")&&strcmp(e->d_name,"..")&&n<4000){ char*q=aalloc(strlen(rel)+strlen(e->d_name)+3); sprintf(q,"%s%s%s",rel,*rel?"/":"",e->d_name); nm[n++]=q; n=listdir(nm,n,q); } closedir(d); return n; }

static int run_extra(const char* op){
  if(!strcmp(op,"send")){ kvtree*h=target("t",T[1]); int r=atoi(T[2]),c=atoi(T[3]); ob_f(&out,",\"to\":%d,\"c\":%d",r,c); int rc; LIVE(rc=kvtree_send(h,r<0?MPI_PROC_NULL:r,c)); ob_f(&out,",\"rc\":%d",rc); }
  else if(!strcmp(op,"recv")){ kvtree*h=target("t",T[1]); int r=atoi(T[2]),c=atoi(T[3]); ob_f(&out,",\"fr\":%d,\"c\":%d",r,c); int rc; LIVE(rc=kvtree_recv(h,r<0?MPI_PROC_NULL:r,c)); ob_f(&out,",\"rc\":%d",rc); }
  else if(!strcmp(op,"sendrecv")){ kvtree*h=target("t",T[1]); int to=atoi(T[2]); kvtree*g=target("u",T[3]); int fr=atoi(T[4]),c=atoi(T[5]); ob_f(&out,",\"to\":%d,\"fr\":%d,\"c\":%d",to,fr,c); int rc; LIVE(rc=kvtree_sendrecv(h,to<0?MPI_PROC_NULL:to,g,fr<0?MPI_PROC_NULL:fr,c)); ob_f(&out,",\"rc\":%d",rc); }
  else if(!strcmp(op,"bcast")){ kvtree*h=target("t",T[1]); int r=atoi(T[2]),c=atoi(T[3]); ob_f(&out,",\"root\":%d,\"c\":%d",r,c); int rc; LIVE(rc=kvtree_bcast(h,r,c)); ob_f(&out,",\"rc\":%d",rc); }
  else if(!strcmp(op,"sendq")){ kvtree*h=target("t",T[1]); int r=(int)strtol(T[2],0,10); jtext("k","%d",r); kvtree*g=target("u",T[3]); int rc; LIVE(rc=kvtree_exchange_sendq(h,r,g)); ob_f(&out,",\"rc\":%d",rc); }
  else if(!strcmp(op,"exchange")){ kvtree*h=target("t",T[1]); kvtree*g=target("u",T[2]); int d=atoi(T[3]),c=atoi(T[4]); ob_f(&out,",\"dir\":%d,\"c\":%d",d,c); int rc;
    LIVE(rc=d==0?kvtree_exchange(h,g,c):kvtree_exchange_direction(h,g,c,d==1?KVTREE_EXCHANGE_LEFT:KVTREE_EXCHANGE_RIGHT)); ob_f(&out,",\"rc\":%d",rc); }
  else if(!strcmp(op,"mwrite")){ kvtree*h=target("t",T[1]); char*p=fpath(T[2]); int c=atoi(T[3]); jname(T[2]); ob_f(&out,",\"c\":%d",c); int n0=nfds(),rc; capstart(); iow_reset(); LIVE(rc=kvtree_write_gather(p,h,c)); capend("so"); ob_f(&out,",\"rc\":%d,\"fd\":%d",rc,nfds()-n0); jio(NULL); }
  else if(!strcmp(op,"mread")){ kvtree*h=target("t",T[1]); char*p=fpath(T[2]); int c=atoi(T[3]); jname(T[2]); ob_f(&out,",\"c\":%d",c); int n0=nfds(),rc; capstart(); iow_reset(); LIVE(rc=kvtree_read_scatter(p,h,c)); capend("so"); ob_f(&out,",\"rc\":%d,\"fd\":%d",rc,nfds()-n0); jio(NULL); }
  else if(!strcmp(op,"barrier")) MPI_Barrier(14);
  else if(!strcmp(op,"files")){ /* every regular file in the scratch directory, sorted by name */
    static char*nm[4096]; struct stat sb; int n=listdir(nm,0,"");
    qsort(nm,n,sizeof nm[0],namecmp); ob_s(&out,",\"L\":["); int first=1; for(int i=0;i<n;i++){ char*p=aalloc(strlen(scratch)+strlen(nm[i])+2); sprintf(p,"%s/%s",scratch,nm[i]); if(stat(p,&sb)||(S_ISDIR(sb.st_mode)&&strncmp(strrchr(p,'/')+1,"d_",2)==0)||!strcmp(nm[i],"sub")) continue; ob_f(&out,"%s{\"n\":",first?"":","); first=0; ob_str(&out,nm[i]); ob_f(&out,",\"m\":%d,\"c\":",(int)(sb.st_mode&07777));
      if(S_ISDIR(sb.st_mode)) ob_s(&out,"[\"d\"]"); else { size_t k; unsigned char*b=readall(p,&k); if(!b) ob_s(&out,"[\"x\"]"); else if(k<=6000&&tok_limit==(size_t)-1){ ob_s(&out,"[\"b\","); ob_bytes(&out,b,k); ob_c(&out,']'); } else jdecoded(b,k); } ob_c(&out,'}'); } ob_c(&out,']'); }
  else if(!strcmp(op,"fdel")){ jname(T[1]); unlink(fpath(T[1])); rmdir(fpath(T[1])); }
  else if(!strcmp(op,"ftrunc")){ jname(T[1]); if(truncate(fpath(T[1]),atol(T[2]))){} }
  else if(!strcmp(op,"fflip")){ jname(T[1]); int fd=open(fpath(T[1]),O_RDWR); if(fd>=0){ struct stat sb; fstat(fd,&sb); if(sb.st_size){ long o=atol(T[2])%sb.st_size; unsigned char x; if(pread(fd,&x,1,o)==1){ x^=1<<(atoi(T[3])&7); if(pwrite(fd,&x,1,o)){} } } close(fd); } }
  else if(!strcmp(op,"fcopy")){ jname(T[2]); size_t n; unsigned char*b=readall(fpath(T[1]),&n); if(b){ int fd=open(fpath(T[2]),O_WRONLY|O_CREAT|O_TRUNC,0644); if(write(fd,b,n)){} close(fd); } }
  else if(!strcmp(op,"fmkdir")){ jname(T[1]); unlink(fpath(T[1])); mkdir(fpath(T[1]),0755); }
  else if(!strcmp(op,"mkdir")) mkdir(fpath(T[1]),0755);
  else if(!strcmp(op,"fperm")){ jname(T[1]); chmod(fpath(T[1]),strtol(T[2],0,8)); }
  else if(!strcmp(op,"umask")){ int u=strtol(T[1],0,8); umask(u); ob_f(&out,",\"um\":%d",u); }
  else if(!strcmp(op,"pause")) fm_yield();
  else if(!strcmp(op,"dieat")){ iow_crash_at=atol(T[1]); iow_crash_part=atol(T[2]); }   /* in the next file call */
  else if(!strcmp(op,"nodie")) iow_crash_at=0;
  else return 0;
  return 1; }

/* ---- one history ---- */
#define MAXST 400
static int N,mode,hid; static unsigned long seed; static char seg[32],kind;
static char* st[MAXST][FM_MAXR]; static int nst;
static char comms[4096],files[1<<16];
static int dfs_pre,dfs_runs;
static char* ofile; static int ofd;
static obuf mg;
static void hookL(int cls,int fd){ fm_yield(); }
static void postL(int cls,int fd){ fm_bump(); }
/* the process dies inside a file call: its log says so, the others go on */
static void deathL(void){ iow_on=0; long b=stamp0; begin("die"); ob_f(&out,",\"call\":\"%s\"",T[0]); target("t",T[1]); if(!strcmp(T[0],"rmw")) key("k",T[3]); else ob_s(&out,",\"k\":[]"); ob_f(&out,",\"b\":%ld,\"e\":%ld,\"lv\":0,\"d\":[]}\n",b,fm_clock()); flush_out(); ob_s(&out,"{\"op\":\"end\",\"b\":0,\"e\":0,\"lv\":0,\"d\":[]}\n"); flush_out();
  for(int fd=3;fd<200;fd++) close(fd);      /* its locks go with it */
  fm_done(); }
static int lockwaitL(int fd,int op){ while(1){ int r=flock(fd,op|LOCK_NB); if(r==0||errno!=EWOULDBLOCK) return r; fm_block("flock"); } }
static int fcntlwaitL(int fd,struct flock*l){ while(1){ int r=fcntl(fd,F_SETLK,l); if(r==0||(errno!=EAGAIN&&errno!=EACCES)) return r; fm_block("fcntl"); } }
int __real_flock(int,int); int __real_fcntl(int,int,...);
static int lwrap(int fd,int op){ int s=iow_on; iow_on=0; int r=lockwaitL(fd,op); iow_on=s; return r; }
static int fwrap(int fd,struct flock*l){ int s=iow_on; iow_on=0; int r=fcntlwaitL(fd,l); iow_on=s; return r; }
static void rankmain(int r){
  myrank=r; prctl(PR_SET_PDEATHSIG,SIGKILL); alarm(25); capsetup(); char f[4096]; sprintf(f,"%s.r%d",ofile,r); outfd=open(f,O_WRONLY|O_CREAT|O_TRUNC,0644); if(outfd<0)_exit(96);
  if(chdir(scratch))_exit(95); hist_base=live(); arena_n=0; fm_start(r); kindL=kind=='L'; if(kindL){ iow_hook=hookL; iow_death=deathL; iow_post=postL; iow_lockwait=lwrap; iow_fcntlwait=fwrap; stamp=fm_clock; }
  for(int i=0;i<nst;i++){ char*l=st[i][r]; if(!l){ if(!kindL){ begin("idle"); finish(); } continue; } char b[65536]; strncpy(b,l,65535); b[65535]=0; if(split(b)) run(); }
  split("end"); { char b[8]="end"; split(b); run(); }
  fm_done(); _exit(0); }
static void emit(const char*s,size_t n){ ob_need(&mg,n); memcpy(mg.p+mg.n,s,n); mg.n+=n; }
static void emits(const char*s){ emit(s,strlen(s)); }
static unsigned long seen[1<<16]; static int nseen;
static int history(int first){
  fm_setup(N,seed,mode); { char b[4096]; strcpy(b,comms); for(char*l=strtok(b,"\n");l;l=strtok(NULL,"\n")){ int id,w[FM_MAXR],k=0,o; sscanf(l,"%d%n",&id,&o); char*p=l+o; int x; while(sscanf(p,"%d%n",&x,&o)==1){ w[k++]=x; p+=o; } fm_set_comm(id,k,w);} { int w[FM_MAXR]; for(int i=0;i<N;i++)w[i]=i; fm_set_comm(14,N,w); } }
  if(seg[0]!='0') setenv("KVTREE_VERIF_SEGSIZE",seg,1); else unsetenv("KVTREE_VERIF_SEGSIZE");
  { static char b[1<<16]; strcpy(b,files); char*sv; for(char*l=strtok_r(b,"\n",&sv);l;l=strtok_r(NULL,"\n",&sv)){ char*sp=strchr(l,' '); *sp=0; size_t n; char*d=tok_key(sp+1,strlen(sp+1),&n); int fd=open(fpath(l),O_WRONLY|O_CREAT|O_TRUNC,0644); if(d&&write(fd,d,n)<0)_exit(95); close(fd);} }
  return 0; }
static obuf cf0;
static int go(void){ /* run the ranks; 0 fine, else why not */
  if(kind=='L'){ if(!cf0.p) ob_init(&cf0,(size_t)1<<24); out.n=0; jfile("x",fpath("cf")); char*q=memchr(out.p,':',out.n)+1; cf0.n=0; ob_need(&cf0,out.n); cf0.n=out.n-(q-out.p); memcpy(cf0.p,q,cf0.n); out.n=0; }
  pid_t pid[FM_MAXR]; int alive=N,bad=0,badrank=-1; fflush(stdout); fflush(stderr); mg.n=0;
  for(int i=0;i<N;i++){ pid[i]=fork(); if(pid[i]<0)_exit(97); if(pid[i]==0) rankmain(i); }
  while(alive){ int ws; pid_t p=waitpid(-1,&ws,0); int r=-1; for(int i=0;i<N;i++) if(pid[i]==p) r=i; if(r<0) continue; alive--; pid[r]=0; int code=WIFEXITED(ws)?WEXITSTATUS(ws):1000+WTERMSIG(ws);
    if(code==94||code==95||code==96||code==97) _exit(code);
    if(code&&!(code==66&&kind=='L')&&!bad){ bad=code; badrank=r; for(int i=0;i<N;i++) if(pid[i]) kill(pid[i],SIGKILL); } }
  int deadlock=fm_status(); 
  /* merge the logs */
  char*buf[FM_MAXR]; size_t bn[FM_MAXR]; for(int i=0;i<N;i++){ char f[4096]; sprintf(f,"%s.r%d",ofile,i); buf[i]=(char*)readall(f,&bn[i]); if(!buf[i]){bn[i]=0;buf[i]="";} unlink(f); if(bn[i]&&buf[i][bn[i]-1]!='\n'){ while(bn[i]&&buf[i][bn[i]-1]!='\n')bn[i]--; } }
  char t[512]; int n=sprintf(t,"{\"op\":\"start\",\"h\":%d,\"n\":%d,\"seg\":%s,\"cm\":[[0,[",hid,N,seg); emit(t,n); for(int i=0;i<N;i++){ n=sprintf(t,"%s%d",i?",":"",i); emit(t,n);} emits("]]");
  { char b[4096]; strcpy(b,comms); char*sv; for(char*l=strtok_r(b,"\n",&sv);l;l=strtok_r(NULL,"\n",&sv)){ int id,o,x,k=0; sscanf(l,"%d%n",&id,&o); n=sprintf(t,",[%d,[",id); emit(t,n); char*p=l+o; while(sscanf(p,"%d%n",&x,&o)==1){ n=sprintf(t,"%s%d",k++?",":"",x); emit(t,n); p+=o;} emits("]]");} } emits("]}\n");
  if(kind=='M'){
    size_t at[FM_MAXR]; memset(at,0,sizeof at); int stop=0;
    for(int i=0;i<nst+1&&!stop;i++){ for(int r=0;r<N;r++) if(at[r]>=bn[r]) stop=1; if(stop) break; 
      n=sprintf(t,"{\"op\":\"%s\",\"i\":%d,\"left\":%d,\"R\":[",i==nst?"end":"step",i,i==nst?fm_leftover():0); emit(t,n);
      for(int r=0;r<N;r++){ char*e=memchr(buf[r]+at[r],'\n',bn[r]-at[r]); if(r)emits(","); emit(buf[r]+at[r],e-buf[r]-at[r]); at[r]=e+1-buf[r]; } emits("]}\n"); }
    if(!stop&&!bad) return 0; if(!stop){ /* died after the last log line */ char*c=strstr(mg.p,"{\"op\":\"end\""); if(c) mg.n=c-mg.p; }
  } else { emits("{\"op\":\"conc\",\"P\":["); for(int r=0;r<N;r++){ emits(r?",[":"["); size_t a=0; int f=1; while(a<bn[r]){ char*e=memchr(buf[r]+a,'\n',bn[r]-a); if(!f)emits(","); f=0; emit(buf[r]+a,e-buf[r]-a); a=e+1-buf[r]; } emits("]"); } emits("],\"c0\":"); emit(cf0.p,cf0.n); emits(",\"c\":"); out.n=0; jfile("x",fpath("cf")); { char*q=strchr(out.p,':'); emit(q+1,out.n-(q+1-out.p)); } 
    out.n=0; emits("}\n"); if(!bad){ emits("{\"op\":\"end\",\"R\":[]}\n"); return 0; } }
  n=sprintf(t,"{\"op\":\"DEAD\",\"code\":%d,\"fm\":%d,\"rank\":%d,\"where\":[",bad,deadlock,badrank); emit(t,n); for(int i=0;i<N;i++){ n=snprintf(t,200,"%s\"%s%s\"",i?",":"",fm_rank_done(i)?"done ":"",fm_where(i)); emit(t,n);} emits("]}\n{\"op\":\"end\",\"R\":[]}\n");
  mg.p[mg.n]=0; return bad?bad:98; }
static void wipe(const char*dir){ DIR*d=opendir(dir); struct dirent*e; if(!d) return; while((e=readdir(d))) if(strcmp(e->d_name,".")&&strcmp(e->d_name,"..")){ char p[8192]; snprintf(p,sizeof p,"%s/%s",dir,e->d_name); struct stat sb; if(lstat(p,&sb)) continue; if(S_ISDIR(sb.st_mode)){ chmod(p,0700); wipe(p); rmdir(p); } else unlink(p); } closedir(d); }
static void cleanup(void){ wipe(scratch); arena_n=0; }
static void put(void){ size_t o=0; while(o<mg.n){ ssize_t k=write(ofd,mg.p+o,mg.n-o); if(k<=0)_exit(96); o+=k; } }
static unsigned long hash(const char*p,size_t n){ unsigned long h=1469598103934665603UL; for(size_t i=0;i<n;i++){ h^=(unsigned char)p[i]; h*=1099511628211UL; } return h; }
/* schedules in which at most dfs_pre processes are preempted, depth first */
static void dfs(void){
  static int pre[8192]; int np=0; long runs=0; nseen=0; long distinct=0; int done=0;
  while(!done&&runs<dfs_runs){ history(0); fm_sched(pre,np,1); int bad=go(); runs++;
    unsigned long h=hash(mg.p,mg.n); int k; for(k=0;k<nseen;k++) if(seen[k]==h) break; if(k==nseen){ if(nseen<1<<16) seen[nseen++]=h; put(); distinct++; } cleanup(); if(bad) break;
    const int*c,*o,*p; int n=fm_choices(&c,&o,&p); int used[8193]; used[0]=0; for(int i=0;i<n;i++) used[i+1]=used[i]+(p[i]&&c[i]!=0);
    int i; for(i=n-1;i>=0;i--){ if(c[i]+1<o[i]&&used[i]+(p[i]?1:0)<=dfs_pre) break; }
    if(i<0) done=1; else { for(int j=0;j<i;j++) pre[j]=c[j]; pre[i]=c[i]+1; np=i+1; } }
  fprintf(stderr,"DFS runs %ld distinct %ld complete %d\n",runs,distinct,done); }
int main(int argc,char**argv){
  if(argc<4) return 93; drv_init(argv[3]); ofile=argv[2]; if(argc>4) tok_limit=atol(argv[4]);
  ofd=open(argv[2],O_WRONLY|O_CREAT|O_APPEND,0644); ob_init(&mg,(size_t)2<<30);
  int sfd=open(argv[1],O_RDONLY); struct stat sb; fstat(sfd,&sb); char*script=mmap(NULL,sb.st_size+1,PROT_READ|PROT_WRITE,MAP_PRIVATE,sfd,0);
  char*p=script,*end=script+sb.st_size; while(p<end){ char*nl=memchr(p,'\n',end-p); if(!nl)nl=end; char*l=p; if(nl<end)*nl=0; p=nl+1;
    if(*l=='H'){ sscanf(l,"H %d %lu %d %31s %c",&N,&seed,&mode,seg,&kind); nst=0; hid=0; comms[0]=files[0]=0; dfs_pre=-1; dfs_runs=0; }
    else if(*l=='C'){ strcat(comms,l+2); strcat(comms,"\n"); }
    else if(*l=='F'){ strcat(files,l+2); strcat(files,"\n"); }
    else if(*l=='I') hid=atoi(l+2);
    else if(*l=='D') sscanf(l,"D %d %d",&dfs_pre,&dfs_runs);
    else if(*l=='S'){ if(nst==MAXST) return 94; for(int i=0;i<N;i++) st[nst][i]=NULL; nst++; }
    else if(*l=='E'){ cleanup(); if(dfs_pre>=0) dfs(); else { history(1); go(); put(); cleanup(); } }
    else if(*l=='*'){ for(int i=0;i<N;i++) st[nst-1][i]=l+2; }
    else if(*l>='0'&&*l<='9'){ int r=atoi(l); char*q=strchr(l,' '); st[nst-1][r]=q+1; } }
  return 0; }
