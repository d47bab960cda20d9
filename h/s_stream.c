/* open_stream: what gets opened and how; filters: pipes, threads, failures, exit.
   MODE 1: the opener for a URL; 2: CALLS streams with a (de)compressor each, then exit */
#include "v.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <pthread.h>
#include "config.h"
#include "libstream/compress.h"
#include "libstream/stream.h"
#include "ttyrec.h"
/* ---- descriptors ---- */
#define MAXFD 40
static signed char st[MAXFD];           /* 1 open, -1 closed */
static int nfd=10, badclose, pipes, pipefail;
static int newfd(void) { st[nfd]=1; return nfd++; }
int v_close(int fd)
{
    if (fd==-1) return -1;
    if (fd<0 || fd>=MAXFD || st[fd]!=1) { badclose=1; return -1; }
    st[fd]=-1;
    return 0;
}
int v_pipe(int *p)
{
    pipes++;
    if (pipefail) return -1;
    p[0]=newfd(); p[1]=newfd();
    return 0;
}
static int dup_of=-1;
int v_dup(int fd) { dup_of=fd; return newfd(); }
static int mallocfail, nmalloc, nfree;
void *v_malloc(size_t n) { if (mallocfail) return 0; nmalloc++; return malloc(n); }
void v_free(void *p) { if (p) nfree++; free(p); }
char *v_strerror(int e) { return "why"; }
char *v_strdup(const char *s) { v_assert(0, "no need for it"); return 0; }
/* ---- strings ---- */
int v_strcmp(const char *a, const char *b) { while (*a && *a==*b) a++, b++; return (unsigned char)*a-(unsigned char)*b; }
int v_strncmp(const char *a, const char *b, size_t n) { for (;n && *a && *a==*b;n--) a++, b++; return n? (unsigned char)*a-(unsigned char)*b : 0; }
static int low(int c) { return c>='A' && c<='Z'? c+32 : c; }
int v_strncasecmp(const char *a, const char *b, size_t n)
{
    for (size_t i=0;i<n;i++)
    {
        int x=low((unsigned char)a[i]), y=low((unsigned char)b[i]);
        if (x!=y) return x-y;
        if (!x) return 0;
    }
    return 0;
}
size_t v_strlen(const char *s) { size_t n=0; while (s[n]) n++; return n; }
char *v_strstr(const char *s, const char *w)
{
    for (;;s++)
    {
        int i=0;
        while (w[i] && s[i]==w[i]) i++;
        if (!w[i]) return (char*)s;
        if (!*s) return 0;
    }
}
/* ---- threads: each runs when the schedule says so ---- */
#define MAXT 4
static struct { void (*f)(void*); void *arg; int done; } th[MAXT];
static int nth, lock, waiting, woken, in_thread, badlock, threadfail, alive, spurious;
static void run1(int i)
{
    if (th[i].done) return;
    in_thread=1; th[i].done=1;
    th[i].f(th[i].arg);
    in_thread=0; alive--;
}
static void sched(void)
{
    if (in_thread || lock) return;
    for (int i=0;i<nth;i++) if (!th[i].done && v_bool()) run1(i);
}
int v_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void*), void *arg)
{
    if (threadfail) return EAGAIN;
    if (nth>=MAXT) { badlock=1; return EAGAIN; }
    th[nth].f=(void(*)(void*))f; th[nth].arg=arg; nth++; alive++;
    sched();
    return 0;
}
int v_pthread_attr_init(pthread_attr_t *a) { return 0; }
int v_pthread_attr_destroy(pthread_attr_t *a) { return 0; }
static int detached;
int v_pthread_attr_setdetachstate(pthread_attr_t *a, int d) { detached=d; return 0; }
static int minit, cinit;
int v_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { minit++; if (lock) badlock=1; return 0; }
int v_pthread_mutex_lock(pthread_mutex_t *m) { sched(); if (lock || !minit) badlock=1; lock=1; return 0; }
int v_pthread_mutex_unlock(pthread_mutex_t *m) { if (!lock) badlock=1; lock=0; sched(); return 0; }
int v_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { cinit++; return 0; }
int v_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    if (!lock || in_thread || !cinit) badlock=1;
    lock=0; woken=0; waiting=1;
    if (!spurious && v_bool()) { spurious=1; waiting=0; lock=1; return 0; }
    sched();
    for (int i=0;i<nth;i++) if (!woken) run1(i);
    v_assert(woken, "exit doesn't hang");
    waiting=0; lock=1;
    return 0;
}
int v_pthread_cond_signal(pthread_cond_t *c) { if (waiting) woken=1; return 0; }
int v_pthread_cond_broadcast(pthread_cond_t *c) { if (waiting) woken=1; return 0; }
static void (*ex[MAXT])(void); static int nex;
int v_atexit(void (*f)(void)) { if (nex<MAXT) ex[nex++]=f; return 0; }
/* ---- filters and openers ---- */
static int ran, ran_in[MAXT], ran_out[MAXT], ran_which[MAXT], ran_lock;
static void did(int which, int in, int out) { if (ran<MAXT) ran_in[ran]=in, ran_out[ran]=out, ran_which[ran]=which; ran++; if (lock) ran_lock=1; v_close(in); v_close(out); }
static void comp(int in, int out, const char *arg) { did(1, in, out); }
static void decomp(int in, int out, const char *arg) { did(2, in, out); }
compress_info v_compressors[2]={{"c",".c",comp},{0,0,0}}, v_decompressors[2]={{"d",".c",decomp},{0,0,0}};
static int has_comp, comp_asked; static const char *comp_name;
compress_info *comp_from_ext(const char *name, compress_info *ci) { comp_asked++; comp_name=name; if (!has_comp) return 0; return ci; }
static int opened, opener, open_mode, openfail, open_fd; static const char *open_url;
static const char *failmsg="failed";
static int op(int which, const char *url, int mode, const char **error)
{
    opened++; opener=which; open_url=url; open_mode=mode;
    v_assert(error!=0, "openers can report why");
    if (openfail) { *error=failmsg; return -1; }
    return open_fd=newfd();
}
int open_file(const char *url, int mode, const char **error) { return op(1, url, mode, error); }
int open_tcp(const char *url, int mode, const char **error) { return op(2, url, mode, error); }
int open_telnet(const char *url, int mode, const char **error) { return op(3, url, mode, error); }
int open_termcast(const char *url, int mode, const char **error) { return op(4, url, mode, error); }
int open_curl(const char *url, int mode, const char **error) { return op(5, url, mode, error); }
#ifndef SYM
# define SYM 0
# define PRE ""
# define POST ""
#endif
static char u[sizeof(PRE)+SYM+sizeof(POST)];
static int begins(const char *w) { int ok=1; for (int i=0;w[i];i++) if (ok) ok&= low((unsigned char)u[i])==w[i]; return ok; }
void v_main(void)
{
#if MODE==1
    int n=0;
    for (int i=0;i<(int)sizeof(PRE)-1;i++) u[n++]=PRE[i];
    for (int i=0;i<SYM;i++) { u[n]=v_u8(); v_assume(u[n]!=0); n++; }
    for (int i=0;i<(int)sizeof(POST)-1;i++) u[n++]=POST[i];
    int mode=v_range(0,3), noerr=v_bool();
    const char *error=0;
    has_comp=v_bool(); openfail=v_bool(); threadfail=0;
    int want=1, skip=0, url=0;
    for (int i=0;i+2<n;i++) url|= u[i]==':' && u[i+1]=='/' && u[i+2]=='/';
    if (begins("file://")) skip=7;
    else if (begins("tcp://")) want=2, skip=6;
    else if (begins("telnet://")) want=3, skip=9;
    else if (begins("termcast://")) want=4, skip=11;
    else if (url) want=5;
    int dash= n==1 && u[0]=='-';
    int fd=open_stream(-1, u, mode, noerr? (const char**)0 : &error);
    int end=fd;
    if (dash)
    {
        v_assert(!opened && dup_of==(mode&1), "- is the standard input or output");
        open_fd=10;
    }
    else
    {
        v_assert(opened==1 && opener==want, "the right way to open it");
        v_assert(open_url==u+skip && open_mode==mode, "the address and mode are passed on");
    }
    if (!dash && openfail)
    {
        v_assert(fd==-1 && nfd==10 && !pipes && !nth, "failure is reported");
        v_assert(noerr || error==failmsg, "with the message");
    }
    else
    {
        v_assert(comp_asked>=1 && comp_name==u, "compression goes by the whole name");
        if (!has_comp) v_assert(fd==open_fd && st[fd]==1 && !pipes && !nth, "what was opened is given as is");
        else
        {
            v_assert(pipes==1 && nth==1, "what is compressed goes through a pipe");
            run1(0);
            int r=open_fd+1, w=open_fd+2;
            v_assert(ran==1 && ran_which[0]==(mode&1? 1 : 2), "compressing what is written, decompressing what is read");
            v_assert(fd==(mode&1? w : r) && ran_in[0]==open_fd && ran_out[0]==(mode&1? r : w), "the ends of the pipe are the right ones");
            v_assert(st[fd]==1, "our end stays open");
        }
    }
    v_assert(!badclose && !badlock, "descriptors are closed once");
    v_assert(nmalloc==nfree, "nothing is leaked");
    v_reach("end");
#else
    static char names[]="x.c";
    int good=0, own[CALLS], mine[CALLS], wr[CALLS];
    has_comp=1;
    for (int i=0;i<CALLS;i++)
    {
        const char *error=0;
        int mode=v_range(0,3), noerr=v_bool();
        int what=WHAT[i]-'0';         /* which of the steps fails, if any */
        pipefail= what==1; mallocfail= what==2; threadfail= what==3;
        int fd=newfd(), was=nth, pd=nfd;
        int r=open_stream(fd, names, mode, noerr? (const char**)0 : &error);
        mallocfail=0;
        if (what)
        {
            v_assert(r==-1 && nth==was, "failure is reported");
            v_assert(noerr || error, "with a message");
            v_assert(st[fd]==-1, "what can't be used is closed");
            v_assert(what==1 || (st[pd]==-1 && st[pd+1]==-1), "so is the pipe");
        }
        else
        {
            v_assert(r==(mode&1? pd+1 : pd) && st[r]==1 && nth==was+1, "the stream is open");
            own[good]=r; wr[good]=mode&1; mine[good]=fd; good++;
        }
        sched();
    }
    v_assert(!lock && !badlock, "locks are used properly");
    for (int i=MAXT-1;i>=0;i--) if (i<nex) ex[i]();
    v_assert(!lock && !badlock, "locks are used properly at exit");
    v_assert(!alive && ran==good, "everything is finished before exit");
    v_assert(!ran_lock, "filters don't block each other");
    int ok=1;
    for (int i=0;i<CALLS;i++) if (i<good)
    {
        int k=0;
        for (int j=0;j<CALLS;j++) if (j<ran && ran_in[j]==mine[i]) k+= ran_which[j]==(wr[i]? 1 : 2) && ran_out[j]==(wr[i]? own[i]-1 : own[i]+1);
        ok&= k==1 && st[own[i]]==1;
    }
    v_assert(ok, "each filter got its own ends, once");
    v_assert(!badclose, "descriptors are closed once");
    v_assert(nmalloc==nfree, "nothing is leaked");
    v_reach("end");
#endif
}
