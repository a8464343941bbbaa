#define _GNU_SOURCE
#include "iowrap.h"
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/file.h>
#include <sys/uio.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <time.h>
#include <signal.h>
#define NEVER_ENDS 4000000 /* so many I/O calls in one call of the library: taken as one that never returns */
int iow_on, iow_np; iow_plan iow_pl[IOW_NPLAN]; long iow_calls, iow_crash_at, iow_crash_part; int iow_alien; void (*iow_nolock)(void); void (*iow_death)(void);
void (*iow_hook)(int,int); void (*iow_post)(int,int); int (*iow_lockwait)(int,int);
static unsigned char own[65536];
static struct { dev_t d; ino_t i; int dirty; } fl[256]; static int nfl;
void iow_reset(void){ iow_calls=0; iow_alien=0; for(int i=0;i<65536;i++)own[i]=0; nfl=0; }
void iow_pass(int fd){ if(fd>=0&&fd<65536) own[fd]=1; }
int iow_dirty(void){ int n=0; for(int i=0;i<nfl;i++) n+=fl[i].dirty; return n; }
static void mark(int fd,int v){ struct stat s; int e=errno; if(fstat(fd,&s)||!S_ISREG(s.st_mode)){ errno=e; return; } errno=e; int i; for(i=0;i<nfl;i++) if(fl[i].d==s.st_dev&&fl[i].i==s.st_ino) break; if(i==nfl){ if(nfl==256||!v) return; nfl++; fl[i].d=s.st_dev; fl[i].i=s.st_ino; } fl[i].dirty=v; }
static void leave(void){ if(iow_death) iow_death(); _exit(66); }
/* 0: go on; 1: fault (errno set); 2: short transfer of *n bytes at most */
static int gate(int cls,int fd,long* n){
  if(++iow_calls>NEVER_ENDS){ signal(SIGALRM,SIG_DFL); raise(SIGALRM); _exit(66); }
  if(iow_hook) iow_hook(cls,fd);
  if(iow_crash_at&&iow_calls==iow_crash_at){ if(cls==IO_WRITE&&iow_crash_part>0&&n){ if(*n>iow_crash_part)*n=iow_crash_part; return 3; } leave(); }
  if(fd>=0&&cls!=IO_OPEN&&cls!=IO_NAME&&(fd>=65536||!own[fd])) iow_alien++;
  /* of the plans in force, errors that last come before passing ones, and those before partial transfers */
  iow_plan*b=NULL; int br=0;
  for(int i=0;i<iow_np;i++){ iow_plan*p=&iow_pl[i]; if(p->cls!=cls) continue; p->seen++;
    if(p->seen<p->nth) continue; if(p->count>=0&&p->seen>=p->nth+p->count) continue;
    int r=p->err<0?1:p->count>=0?2:3; if(r>br){ br=r; b=p; } }
  if(b){ b->hits++; if(b->err<0){ if(n&&*n>b->shortn) *n=b->shortn; return 2; } errno=b->err; return 1; }
  return 0; }
static int opened(int fd,int flags,int fresh){ if(fd>=0&&fd<65536) own[fd]=1; if(fd>=0&&(flags&O_TRUNC||fresh)) mark(fd,1); return fd; }
#define MODE mode_t m=0; if(fl_&(O_CREAT|O_TMPFILE)){ va_list a; va_start(a,fl_); m=va_arg(a,mode_t); va_end(a); }
int __real_open(const char*,int,...); int __real_openat(int,const char*,int,...); int __real_creat(const char*,mode_t);
#define FRESH(p) ((fl_&O_CREAT)&&access(p,F_OK)!=0)
int __wrap_open(const char*p,int fl_,...){ MODE if(!iow_on) return __real_open(p,fl_,m); if(gate(IO_OPEN,-1,0)==1) return -1; int f=FRESH(p); return opened(__real_open(p,fl_,m),fl_,f); }
int __wrap_open64(const char*p,int fl_,...){ MODE if(!iow_on) return __real_open(p,fl_,m); if(gate(IO_OPEN,-1,0)==1) return -1; int f=FRESH(p); return opened(__real_open(p,fl_,m),fl_,f); }
int __wrap_openat(int d,const char*p,int fl_,...){ MODE if(!iow_on) return __real_openat(d,p,fl_,m); if(gate(IO_OPEN,-1,0)==1) return -1; int f=(fl_&O_CREAT)&&faccessat(d,p,F_OK,0)!=0; return opened(__real_openat(d,p,fl_,m),fl_,f); }
int __wrap_openat64(int d,const char*p,int fl_,...){ MODE if(!iow_on) return __real_openat(d,p,fl_,m); if(gate(IO_OPEN,-1,0)==1) return -1; int f=(fl_&O_CREAT)&&faccessat(d,p,F_OK,0)!=0; return opened(__real_openat(d,p,fl_,m),fl_,f); }
int __wrap_creat(const char*p,mode_t m){ return __wrap_open(p,O_WRONLY|O_CREAT|O_TRUNC,m); }
int __wrap_creat64(const char*p,mode_t m){ return __wrap_open(p,O_WRONLY|O_CREAT|O_TRUNC,m); }
ssize_t __real_read(int,void*,size_t); ssize_t __real_write(int,const void*,size_t); ssize_t __real_pread(int,void*,size_t,off_t); ssize_t __real_pwrite(int,const void*,size_t,off_t);
ssize_t __wrap_read(int fd,void*b,size_t n){ if(!iow_on) return __real_read(fd,b,n); long k=n; if(gate(IO_READ,fd,&k)==1) return -1; return __real_read(fd,b,k); }
ssize_t __wrap_pread(int fd,void*b,size_t n,off_t o){ if(!iow_on) return __real_pread(fd,b,n,o); long k=n; if(gate(IO_READ,fd,&k)==1) return -1; return __real_pread(fd,b,k,o); }
ssize_t __wrap_pread64(int fd,void*b,size_t n,off_t o){ return __wrap_pread(fd,b,n,o); }
static void wrote(int fd){ int e=errno; int f=fcntl(fd,F_GETFL); errno=e; if(f>=0&&!(f&O_DSYNC)) mark(fd,1); }
ssize_t __wrap_write(int fd,const void*b,size_t n){ if(!iow_on) return __real_write(fd,b,n); long k=n; int g=gate(IO_WRITE,fd,&k); if(g==1) return -1; ssize_t r=__real_write(fd,b,k); if(g==3) leave(); if(r>0) wrote(fd); return r; }
ssize_t __wrap_pwrite(int fd,const void*b,size_t n,off_t o){ if(!iow_on) return __real_pwrite(fd,b,n,o); long k=n; int g=gate(IO_WRITE,fd,&k); if(g==1) return -1; ssize_t r=__real_pwrite(fd,b,k,o); if(g==3) leave(); if(r>0) wrote(fd); return r; }
ssize_t __wrap_pwrite64(int fd,const void*b,size_t n,off_t o){ return __wrap_pwrite(fd,b,n,o); }
ssize_t __real_readv(int,const struct iovec*,int); ssize_t __real_writev(int,const struct iovec*,int);
/* the first k bytes of a vector */
static int cut(const struct iovec*v,int c,long k,struct iovec*o){ int n=0; while(n<c&&n<64){ o[n]=v[n]; if((long)o[n].iov_len>=k){ o[n].iov_len=k; return n+1; } k-=o[n++].iov_len; } return n; }
ssize_t __wrap_readv(int fd,const struct iovec*v,int c){ if(!iow_on) return __real_readv(fd,v,c); long k=1L<<40; int g=gate(IO_READ,fd,&k); if(g==1) return -1; struct iovec o[64]; if(g==2) return __real_readv(fd,o,cut(v,c,k,o)); return __real_readv(fd,v,c); }
ssize_t __wrap_writev(int fd,const struct iovec*v,int c){ if(!iow_on) return __real_writev(fd,v,c); long k=1L<<40; int g=gate(IO_WRITE,fd,&k); if(g==1) return -1; ssize_t r; struct iovec o[64]; if(g>=2) r=__real_writev(fd,o,cut(v,c,k,o)); else r=__real_writev(fd,v,c); if(g==3) leave(); if(r>0) wrote(fd); return r; }
off_t __real_lseek(int,off_t,int);
off_t __wrap_lseek(int fd,off_t o,int w){ if(!iow_on) return __real_lseek(fd,o,w); if(gate(IO_SEEK,fd,0)==1) return -1; return __real_lseek(fd,o,w); }
off_t __wrap_lseek64(int fd,off_t o,int w){ return __wrap_lseek(fd,o,w); }
int __real_ftruncate(int,off_t); int __real_truncate(const char*,off_t);
int __wrap_ftruncate(int fd,off_t n){ if(!iow_on) return __real_ftruncate(fd,n); if(gate(IO_TRUNC,fd,0)==1) return -1; int r=__real_ftruncate(fd,n); if(!r) mark(fd,1); return r; }
int __wrap_ftruncate64(int fd,off_t n){ return __wrap_ftruncate(fd,n); }
int __wrap_truncate(const char*p,off_t n){ if(!iow_on) return __real_truncate(p,n); if(gate(IO_TRUNC,-1,0)==1) return -1; int r=__real_truncate(p,n); if(!r){ int fd=__real_open(p,O_RDONLY); if(fd>=0){ mark(fd,1); close(fd);} } return r; }
int __wrap_truncate64(const char*p,off_t n){ return __wrap_truncate(p,n); }
int __real_fsync(int); int __real_fdatasync(int); void __real_sync(void); int __real_syncfs(int);
int __wrap_fsync(int fd){ if(!iow_on) return __real_fsync(fd); if(gate(IO_FSYNC,fd,0)==1) return -1; mark(fd,0); return 0; }
int __wrap_fdatasync(int fd){ if(!iow_on) return __real_fdatasync(fd); if(gate(IO_FSYNC,fd,0)==1) return -1; mark(fd,0); return 0; }
void __wrap_sync(void){ if(!iow_on) { __real_sync(); return; } gate(IO_FSYNC,-1,0); for(int i=0;i<nfl;i++)fl[i].dirty=0; }
int __wrap_syncfs(int fd){ if(!iow_on) return __real_syncfs(fd); if(gate(IO_FSYNC,fd,0)==1) return -1; for(int i=0;i<nfl;i++)fl[i].dirty=0; return 0; }
int __real_close(int);
/* a failing close has closed the descriptor all the same */
int __wrap_close(int fd){ if(!iow_on) return __real_close(fd); int g=gate(IO_CLOSE,fd,0); int e=errno; int r=__real_close(fd); if(fd>=0&&fd<65536) own[fd]=0; if(iow_post) iow_post(IO_CLOSE,fd); if(g==1){ errno=e; return -1; } return r; }
int __real_flock(int,int);
static int waitlock(int fd,int op){ if(iow_lockwait&&!(op&LOCK_NB)) return iow_lockwait(fd,op); int r=__real_flock(fd,op); if(r<0&&errno==EWOULDBLOCK&&iow_nolock){ iow_nolock(); errno=EWOULDBLOCK; } return r; }
int __wrap_flock(int fd,int op){ if(!iow_on) return __real_flock(fd,op); if(gate((op&~LOCK_NB)==LOCK_UN?IO_UNLOCK:IO_LOCK,fd,0)==1) return -1; if((op&~LOCK_NB)==LOCK_UN){ int r=__real_flock(fd,op); if(iow_post) iow_post(IO_UNLOCK,fd); return r; } return waitlock(fd,op); }
int __real_fcntl(int,int,...);
int (*iow_fcntlwait)(int,struct flock*);
int __wrap_fcntl(int fd,int cmd,...){ va_list a; va_start(a,cmd); void*arg=va_arg(a,void*); va_end(a);
  if(!iow_on) return __real_fcntl(fd,cmd,arg);
  if(cmd==F_SETLK||cmd==F_SETLKW||cmd==F_OFD_SETLK||cmd==F_OFD_SETLKW){ struct flock*l=arg; if(gate(l->l_type==F_UNLCK?IO_UNLOCK:IO_LOCK,fd,0)==1) return -1;
    if((cmd==F_SETLKW||cmd==F_OFD_SETLKW)&&l->l_type!=F_UNLCK&&iow_fcntlwait) return iow_fcntlwait(fd,l); int r=__real_fcntl(fd,cmd,arg); if(l->l_type==F_UNLCK&&iow_post) iow_post(IO_UNLOCK,fd); else if(r<0&&(errno==EAGAIN||errno==EACCES)&&iow_nolock){ int e=errno; iow_nolock(); errno=e; } return r; }
  int r=__real_fcntl(fd,cmd,arg); if((cmd==F_DUPFD||cmd==F_DUPFD_CLOEXEC)&&r>=0&&r<65536) own[r]=1; return r; }
int __wrap_fcntl64(int fd,int cmd,...){ va_list a; va_start(a,cmd); void*arg=va_arg(a,void*); va_end(a); return __wrap_fcntl(fd,cmd,arg); }
int __real_lockf(int,int,off_t);
int __wrap_lockf(int fd,int cmd,off_t n){ if(!iow_on) return __real_lockf(fd,cmd,n); if(gate(cmd==F_ULOCK?IO_UNLOCK:IO_LOCK,fd,0)==1) return -1; int r=__real_lockf(fd,cmd,n); if(cmd==F_ULOCK&&iow_post) iow_post(IO_UNLOCK,fd); return r; }
int __real_rename(const char*,const char*); int __real_unlink(const char*);
int __wrap_rename(const char*a,const char*b){ if(!iow_on) return __real_rename(a,b); if(gate(IO_NAME,-1,0)==1) return -1; return __real_rename(a,b); }
int __wrap_unlink(const char*a){ if(!iow_on) return __real_unlink(a); if(gate(IO_NAME,-1,0)==1) return -1; return __real_unlink(a); }
int __real_dup(int); int __real_mkstemp(char*);
int __wrap_dup(int fd){ int r=__real_dup(fd); if(iow_on&&r>=0&&r<65536) own[r]=1; return r; }
int __wrap_mkstemp(char*t){ if(!iow_on) return __real_mkstemp(t); if(gate(IO_OPEN,-1,0)==1) return -1; return opened(__real_mkstemp(t),O_CREAT,1); }
int __real_usleep(useconds_t); int __real_nanosleep(const struct timespec*,struct timespec*); unsigned __real_sleep(unsigned);
int __wrap_usleep(useconds_t u){ if(!iow_on) return __real_usleep(u); if(iow_hook) iow_hook('Z',-1); return 0; }
int __wrap_nanosleep(const struct timespec*a,struct timespec*b){ if(!iow_on) return __real_nanosleep(a,b); if(iow_hook) iow_hook('Z',-1); return 0; }
unsigned __wrap_sleep(unsigned u){ if(!iow_on) return __real_sleep(u); if(iow_hook) iow_hook('Z',-1); return 0; }
