/* Shared helpers for the conformance drivers: script tokens, projection of
 * trees to JSON, and output that does not disturb heap accounting. */
#ifndef VCOMMON_H
#define VCOMMON_H
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include "kvtree.h"
#include "kvtree_util.h"

/* ---------- output buffer in its own mapping ---------- */
typedef struct { char* p; size_t n, cap; } obuf;
static inline void ob_init(obuf* o, size_t cap) {
  o->p = mmap(NULL, cap, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  if (o->p == MAP_FAILED) { perror("mmap"); _exit(97); }
  o->n = 0; o->cap = cap;
}
static inline void ob_need(obuf* o, size_t k) { if (o->n + k + 1 >= o->cap) { fprintf(stderr,"obuf overflow\n"); _exit(97);} }
static inline void ob_s(obuf* o, const char* s) { size_t k=strlen(s); ob_need(o,k); memcpy(o->p+o->n,s,k); o->n+=k; }
static inline void ob_c(obuf* o, char c) { ob_need(o,1); o->p[o->n++]=c; }
static inline void ob_i(obuf* o, long v) { char t[32]; snprintf(t,sizeof t,"%ld",v); ob_s(o,t); }
static inline void ob_f(obuf* o, const char* fmt, ...) {
  va_list a; va_start(a,fmt); ob_need(o,4096); o->n += vsnprintf(o->p+o->n,4096,fmt,a); va_end(a); }
static inline void ob_bytes(obuf* o, const void* p, size_t n) {
  const unsigned char* b = p; ob_c(o,'[');
  for (size_t i=0;i<n;i++) { if(i) ob_c(o,','); ob_i(o,b[i]); }
  ob_c(o,']'); }
static inline void ob_str(obuf* o, const char* s) { ob_bytes(o,s,strlen(s)); }
/* optional string: [] or [bytes] */
static inline void ob_ostr(obuf* o, const char* s) { if(!s) { ob_s(o,"[]"); return; } ob_c(o,'['); ob_str(o,s); ob_c(o,']'); }

/* long keys can be projected as a token: [256, len>>16, len&0xffff, h1, h2] (values no byte can have) */
static size_t tok_limit = (size_t)-1;
static inline void ob_key(obuf* o, const char* s) {
  size_t n = strlen(s);
  if (n <= tok_limit) { ob_bytes(o,s,n); return; }
  uint64_t h = 1469598103934665603ULL;
  for (size_t i=0;i<n;i++) { h ^= (unsigned char)s[i]; h *= 1099511628211ULL; }
  ob_f(o,"[256,%zu,%zu,%u,%u]", n>>16, n&0xffff, (unsigned)((h>>32)&0x3fffffff), (unsigned)(h&0x3fffffff));
}
/* projection: tree = [[key, []|[tree]], ...] in iteration order */
static int proj_budget;
static void ob_tree(obuf* o, const kvtree* h) {
  ob_c(o,'[');
  int first = 1;
  for (const kvtree_elem* e = h->lh_first; e; e = e->pointers.le_next) {
    if (--proj_budget < 0) { ob_s(o, "[[257],[]]]"); return; }  /* cyclic or runaway */
    if (!first) ob_c(o,','); first = 0;
    ob_c(o,'[');
    if (e->key) ob_key(o,e->key); else ob_s(o,"[258]");   /* element without a key */
    ob_c(o,',');
    if (e->hash) { ob_c(o,'['); ob_tree(o,e->hash); ob_c(o,']'); } else ob_s(o,"[]");
    ob_c(o,']');
  }
  ob_c(o,']');
}
static int deeper(const kvtree* h, int n) {
  if (n == 0) return 1;
  for (const kvtree_elem* e = h->lh_first; e; e = e->pointers.le_next) {
    if (--proj_budget < 0) return 0;
    if (e->hash && deeper(e->hash, n-1)) return 1; }
  return 0; }
static void ob_flat(obuf* o, const kvtree* h, int d, int* first) {
  for (const kvtree_elem* e = h->lh_first; e; e = e->pointers.le_next) {
    if (--proj_budget < 0) { ob_f(o, "%s[%d,[257],0]", *first?"":",", d); *first = 0; return; }
    if (!*first) ob_c(o,','); *first = 0;
    ob_f(o,"[%d,",d); if (e->key) ob_key(o,e->key); else ob_s(o,"[258]"); ob_f(o,",%d]",e->hash!=NULL);
    if (e->hash) ob_flat(o,e->hash,d+1,first); } }
/* trees too deep for nested JSON are logged as one pseudo element [[300], preorder list of [depth,key,has child]] */
static inline void ob_slot(obuf* o, const kvtree* h) {
  proj_budget = 2000000;
  if (!h) { ob_s(o,"[]"); return; }
  if (deeper(h,60)) { proj_budget = 2000000; int first=1; ob_s(o,"[[[[300],["); ob_flat(o,h,1,&first); ob_s(o,"]]]]"); return; }
  proj_budget = 2000000;
  ob_c(o,'['); ob_tree(o,h); ob_c(o,']'); }

/* ---------- tokens ---------- */
static inline int hexv(int c){ return c<='9'?c-'0':(c|32)-'a'+10; }
/* decode token into arena string; "-" NULL, "." empty; "*N:HH" = N times byte HH */
static char* arena; static size_t arena_n, arena_cap;
static inline void arena_init(size_t cap){ arena = mmap(NULL,cap,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); arena_cap=cap; arena_n=0; }
static inline void* aalloc(size_t n){ n=(n+15)&~(size_t)15; if(arena_n+n>arena_cap){fprintf(stderr,"arena\n");_exit(97);} void*p=arena+arena_n; arena_n+=n; return p; }
static inline char* tok_key(const char* t, size_t n, size_t* len) {
  if (n==1 && t[0]=='-') { if(len)*len=0; return NULL; }
  if (n==1 && t[0]=='.') { char*r=aalloc(1); r[0]=0; if(len)*len=0; return r; }
  if (t[0]=='*') { long k=atol(t+1); const char*c=memchr(t,':',n); int b=hexv(c[1])*16+hexv(c[2]);
    const char*e=c+3; size_t m=(size_t)(t+n-e); m=m>1&&*e=='+'?(m-1)/2:0;      /* *count:byte[+suffix] */
    char*r=aalloc(k+m+1); memset(r,b,k); for(size_t i=0;i<m;i++) r[k+i]=(char)(hexv(e[1+2*i])*16+hexv(e[2+2*i])); r[k+m]=0; if(len)*len=k+m; return r; }
  char* r = aalloc(n/2+1);
  for(size_t i=0;i+1<n;i+=2) r[i/2]=(char)(hexv(t[i])*16+hexv(t[i+1]));
  r[n/2]=0; if(len)*len=n/2; return r;
}
#endif
