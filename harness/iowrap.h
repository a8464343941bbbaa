/* Interposition on the system calls the library makes (linked with --wrap).
 * Active only while iow_on is set, i.e. inside library calls.  It can inject
 * faults, stop the process at a chosen call, watch which descriptors are
 * touched and whether written data was flushed, and hand control to a
 * scheduler at every call. */
#ifndef IOWRAP_H
#define IOWRAP_H
enum { IO_OPEN='O', IO_READ='R', IO_WRITE='W', IO_SEEK='S', IO_TRUNC='T', IO_FSYNC='F', IO_CLOSE='C', IO_LOCK='L', IO_UNLOCK='U', IO_NAME='N' };
typedef struct { int cls, nth, err, count; long shortn; int seen, hits; } iow_plan;
#define IOW_NPLAN 4
extern int iow_on, iow_np;
extern iow_plan iow_pl[IOW_NPLAN];
extern long iow_calls;       /* intercepted calls since iow_reset */
extern long iow_crash_at;    /* leave the process before this call (1-based); 0 never */
extern long iow_crash_part;  /* if that call is a write, first write this many bytes */
extern void (*iow_death)(void);                          /* just before leaving there */
extern int iow_alien;        /* calls on descriptors that are neither opened in the call nor passed to it */
extern void (*iow_nolock)(void);                         /* a lock call that may not wait found the lock taken */
extern void (*iow_hook)(int cls,int fd);                 /* before every intercepted call */
extern void (*iow_post)(int cls,int fd);                 /* after a close or an unlock */
extern int (*iow_lockwait)(int fd,int op);               /* how to wait for a lock; NULL: really wait */
struct flock;
extern int (*iow_fcntlwait)(int fd,struct flock*);
void iow_reset(void);        /* forget counters and descriptors (not the plans) */
void iow_pass(int fd);       /* the caller hands this descriptor to the library */
int iow_dirty(void);         /* files with data not flushed since the last reset */
#define IOW_WRAPS "see lib/vlib.py"
#endif
