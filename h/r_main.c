/* termrec's main loop.  SCHED: a letter and a digit for each return of select():
   oN N bytes of output, kN N keys, bN both, i0 the window got resized, wN resized
   while N bytes of output are read, sS signal number S (see SIGS), z0 nothing */
#include "v.h"
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <termios.h>
#include <sys/types.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/time.h>
#include "ttyrec.h"
static const char sched[]=SCHED;
#define PTY 5
#define REC 8
#define MAXB 64
#ifndef RAW
# define RAW 0
#endif
#ifndef UTF
# define UTF 1
#endif
#ifndef DIG
# define DIG 1
#endif
#ifndef ENDS
# define ENDS -1
#endif
#ifndef FAULT
# define FAULT 0        /* 1 can't open 2 can't run 3 can't show 4 broken pipe 5 can't send keys */
#endif
const char *command, *format, *format_ext; char *record_name; int raw, append;
static struct timeval now, opened_t;
static int rd, en, wn, on, kn, sn, lens_o, lens_k, ended, bad, winch_pending;
static unsigned char E[MAXB], O[MAXB], K[MAXB], S[MAXB], Wd[MAXB], K2[MAXB];
static long E_s[MAXB], W_s[MAXB]; static int E_u[MAXB], W_u[MAXB], E_size[MAXB];
static int k2n, rows, cols, set_rows, set_cols, sets, last, run_n, run_x, run_y, recs, closes, close_ok, ptyclosed, waited, exited;
static void (*h[70])(int);
static int lflag, iflag, cur_l, cur_i, rawed, restored;
static void pass(void) { now.tv_sec+=v_u8()&7; int u=(v_u8()&3)*250000; now.tv_usec+=u; if (now.tv_usec>=1000000) now.tv_usec-=1000000, now.tv_sec++; }
static void exp_byte(int c, int size) { if (en<MAXB) { E[en]=c; E_s[en]=now.tv_sec; E_u[en]=now.tv_usec; E_size[en]=size; } en++; }
static void exp_num(int v) { int p=1; for (int i=1;i<DIG;i++) p*=10; for (;p;p/=10) exp_byte('0'+v/p%10, 1); }
static int num(void) { int lo=1; for (int i=1;i<DIG;i++) lo*=10; int hi=lo*10-1; if (hi>65535) hi=65535; return v_range(lo, hi); }
static void expect_size(int utf)
{
    if (RAW) return;
    if (utf) exp_byte(27, 1), exp_byte('%', 1), exp_byte('G', 1);
    if (!rows) return;
    exp_byte(27, 1); exp_byte('[', 1); exp_byte('8', 1); exp_byte(';', 1);
    exp_num(rows); exp_byte(';', 1); exp_num(cols); exp_byte('t', 1);
}
char *v_setlocale(int c, const char *l) { return 0; }
char *v_nl_langinfo(int c) { return UTF? "UTF-8" : "ANSI_X3.4-1968"; }
char *v_getenv(const char *n) { return 0; }
int v_fprintf(FILE *f, const char *m, ...) { return 0; }
int v_strcmp(const char *a, const char *b) { while (*a && *a==*b) a++, b++; return (unsigned char)*a-(unsigned char)*b; }
void get_rec_parms(int argc, char **argv) { raw=RAW; command="cmd"; format="f"; record_name="n"; }
int open_out(char **n, const char *e, int a) { if (FAULT==1) return -1; return REC; }
static void put(char *b, size_t n, size_t *k, char c) { v_assert(*k<n, "it fits the buffer"); b[(*k)++]=c; }
static int fmt(char *b, size_t n, const char *f, va_list ap)
{
    size_t k=0;
    for (;*f;f++)
    {
        if (*f!='%') { put(b, n, &k, *f); continue; }
        if (*++f=='%') { put(b, n, &k, '%'); continue; }
        v_assert(*f=='d' || *f=='u', "numbers");
        int v=va_arg(ap, int), p=1;
        for (int i=1;i<DIG;i++) p*=10;
        for (;p;p/=10) put(b, n, &k, '0'+v/p%10);
    }
    put(b, n, &k, 0);
    return k-1;
}
int v_sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r=fmt(b, 20, f, ap); va_end(ap); return r; }
int v_snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r=fmt(b, n, f, ap); va_end(ap); return r; }
int run(const char *c, int x, int y) { run_n++; run_x=x; run_y=y; if (FAULT==2) return -1; return PTY; }
void pty_makeraw(struct termios *t) { t->c_lflag=0x1234; t->c_iflag=0; }
int v_tcgetattr(int fd, struct termios *t) { t->c_lflag=lflag; t->c_iflag=iflag; return 0; }
int v_tcsetattr(int fd, int w, const struct termios *t) { cur_l=t->c_lflag; cur_i=t->c_iflag; if (t->c_lflag==0x1234) rawed=1; return 0; }
int v_sigaction(int s, const struct sigaction *a, struct sigaction *o) { if (s<70) h[s]=a->sa_handler; if (!(a->sa_flags&SA_RESTART)) bad=1; return 0; }
int v_sigemptyset(sigset_t *s) { return 0; }
static int killed, killed_pid, killed_sig;
int v_kill(pid_t p, int s) { killed++; killed_pid=p; killed_sig=s; return 0; }
pid_t v_tcgetpgrp(int fd) { v_assert(fd==PTY, "of the session's terminal"); return 777; }
int v_ioctl(int fd, unsigned long r, void *arg)
{
    struct winsize *w=arg;
    if (r==TIOCGWINSZ)
    {
        if (fd!=1 && fd!=0 && fd!=2) bad=1;
#ifdef NOTTY
        return -1;
#endif
        w->ws_row=rows; w->ws_col=cols; w->ws_xpixel=w->ws_ypixel=0;
        return 0;
    }
    if (r==TIOCSWINSZ && fd==PTY) { sets++; set_rows=w->ws_row; set_cols=w->ws_col; return 0; }
    bad=1;
    return -1;
}
int v_gettimeofday(struct timeval *t, void *z) { *t=now; return 0; }
struct recorder *v_r;
recorder ttyrec_w_open(int fd, const char *f, const char *n, const struct timeval *t) { recs++; if (fd!=REC || !t) bad=1; else opened_t=*t; return (recorder)&v_r; }
int ttyrec_w_write(recorder r, const struct timeval *t, const char *b, int n)
{
    if (r!=(recorder)&v_r || closes) bad=1;
    for (int i=0;i<n;i++, wn++) if (wn<MAXB) { Wd[wn]=b[i]; W_s[wn]=t->tv_sec; W_u[wn]=t->tv_usec; }
    return 1;
}
int ttyrec_w_close(recorder r) { closes++; return close_ok; }
static char cur, curn; static int left_k, left_o;
static void resize(void)
{
    v_assert(h[SIGWINCH]!=0, "resizes are noticed");
#ifndef NOTTY
    rows=num(); cols=num();
#endif
    expect_size(0);
    winch_pending=1;
    h[SIGWINCH](SIGWINCH);
}
int v_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t)
{
    v_assert(n>PTY && r && FD_ISSET(0, r) && FD_ISSET(PTY, r) && !w && !e, "waits for both");
    v_assert(rawed && cur_l==0x1234, "the terminal is raw by now");
    v_assert(!left_k && !left_o, "nothing that has come is left waiting");
    if (cur) v_assert(wn==en || cur=='w', "everything that came is recorded by now");
    if (winch_pending && cur!='w') v_assert(sets && set_rows==rows && set_cols==cols, "the session gets the new size");
    pass();
    cur=sched[rd]; if (!cur) { ended=1; FD_CLR(0, r); left_o=1; return 1; }
    curn=sched[rd+1]-'0'; rd+=2;
    if (cur=='i') { resize(); errno=EINTR; return -1; }
    if (cur=='s')
    {
        static const int sigs[]={SIGINT,SIGHUP,SIGQUIT,SIGTERM,SIGTSTP,SIGPIPE};
        int was=killed;
        v_assert(h[sigs[curn]]!=0, "signals are handled");
        h[sigs[curn]](sigs[curn]);
        v_assert(killed==was+1 && killed_pid==-777 && killed_sig==sigs[curn], "signals are passed to the session, and to nothing else");
        errno=EINTR; return -1;
    }
    if (cur=='z') { FD_CLR(0, r); FD_CLR(PTY, r); return 0; }
    left_k= cur=='k' || cur=='b'; left_o= cur!='k';
    if (!left_k) FD_CLR(0, r);
    if (!left_o) FD_CLR(PTY, r);
    return left_k+left_o;
}
ssize_t v_read(int fd, void *b, size_t n)
{
    v_assert(n>=8, "room to read");
    if (fd==0)
    {
        if (!left_k) bad=1;
        left_k=0;
        for (int i=0;i<curn;i++) { unsigned char c=v_u8(); ((unsigned char*)b)[i]=c; K[kn++]=c; }
        return curn;
    }
    if (fd!=PTY || !left_o) bad=1;
    left_o=0;
    if (ended) return ENDS;
    for (int i=0;i<curn;i++) { unsigned char c=v_u8(); ((unsigned char*)b)[i]=c; O[on++]=c; exp_byte(c, 0); }
    if (cur=='w') resize();
    return curn;
}
ssize_t v_write(int fd, const void *b, size_t n)
{
    if (fd==1)
    {
        for (int i=0;i<(int)n;i++, sn++) if (sn<MAXB) S[sn]=((const unsigned char*)b)[i];
        if (FAULT==3) { ended=1; return -1; }
        if (FAULT==4) { v_assert(h[SIGPIPE]!=0, "a broken pipe is noticed"); h[SIGPIPE](SIGPIPE); }
        return n;
    }
    if (fd!=PTY) bad=1;
    if (FAULT==5) { ended=1; return -1; }
    for (int i=0;i<(int)n;i++, k2n++) if (k2n<MAXB) K2[k2n]=((const unsigned char*)b)[i];
    return n;
}
int v_close(int fd) { if (fd==PTY) ptyclosed++; return 0; }
pid_t v_wait(int *s) { waited=1; v_assert(ptyclosed, "the session is told to end first"); return 1; }
void v_exit(int c)
{
    v_assert(cur_l==lflag && cur_i==iflag, "the terminal is restored when dying");
#if FAULT==4
    v_reach("end");
#endif
    v_assume(0);
}
void die(const char *f, ...) { v_assert(0, "doesn't die"); v_exit(1); }
int rec_main(int argc, char **argv);
void v_main(void)
{
    lflag=v_u32()&0xffff; iflag=v_u32(); cur_l=lflag; cur_i=iflag; close_ok=v_bool();
    v_assume(lflag!=0x1234);
    now.tv_sec=v_u32()&0xffffff; now.tv_usec=(v_u8()&3)*250000;
#ifndef NOTTY
    rows=num(); cols=num();
#endif
    struct timeval start=now;
    expect_size(UTF);
    int r=rec_main(1, 0);
#if FAULT==1 || FAULT==2
    v_assert(r, "failure is reported");
    v_assert(cur_l==lflag && cur_i==iflag && !wn, "the terminal is left alone");
#elif FAULT==4
    v_assert(0, "it ends");
#else
    v_assert(!bad, "nothing odd gets done");
    v_assert(run_n==1 && run_x==cols*(recs>0) || rd, "the session starts with the size of the terminal");
    v_assert(recs==1 && closes==1, "one recording is made");
    v_assert(opened_t.tv_sec==start.tv_sec && opened_t.tv_usec==start.tv_usec, "it has the date");
    v_assert(r==!close_ok, "failure to record is reported");
    v_assert(cur_l==lflag && cur_i==iflag, "the terminal is restored");
    v_assert(waited && ptyclosed==1, "the session is ended, and waited for");
    int ok=1, okt=1;
    v_assert(wn==en, "exactly what is to be recorded is");
    for (int i=0;i<MAXB;i++) if (i<wn)
    {
        ok&= Wd[i]==E[i];
        okt&= E_size[i]? W_s[i]>E_s[i] || (W_s[i]==E_s[i] && W_u[i]>=E_u[i]) : W_s[i]==E_s[i] && W_u[i]==E_u[i];
    }
    v_assert(ok, "output is recorded in order, with size and UTF-8ness where they change");
    v_assert(okt, "at the times it came");
    v_assert(sn==on, "all output is shown");
    for (int i=0;i<MAXB;i++) if (i<on) ok&= S[i]==O[i];
    v_assert(ok, "output is shown unchanged");
# if FAULT!=5
    v_assert(k2n==kn, "all keys are passed");
# endif
    for (int i=0;i<MAXB;i++) if (i<k2n) ok&= K2[i]==K[i];
    v_assert(ok, "keys are passed unchanged");
# ifndef NOTTY
    if (winch_pending) v_assert(sets>0 && set_rows==rows && set_cols==cols || cur=='w', "the session knows its size");
# endif
#endif
#if FAULT!=4
    v_reach("end");
#endif
}
