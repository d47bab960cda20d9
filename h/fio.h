/* Files in memory: what is read (F) and written (W); and a listener for players. */
#include "v.h"
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/time.h>
#include "formats.h"
#ifndef FMAX
# define FMAX 128
#endif
static unsigned char F[FMAX], W[FMAX];
static int fn, fp, wn, wflushed, w_bad;
static int short_reads;
static int dummy_file;
#define THEFILE ((FILE*)&dummy_file)
static void wput(int c) { if (wn<FMAX) W[wn]=c; else w_bad=1; wn++; }
size_t v_fread(void *p, size_t sz, size_t n, FILE *f)
{
    size_t want=sz*n, i;
    if (want==12 && fn-fp>=12)  /* headers: whole words, so they stay constant where they are */
    {
        for (i=0;i<3;i++, fp+=4) ((uint32_t*)p)[i]=F[fp]|F[fp+1]<<8|F[fp+2]<<16|(uint32_t)F[fp+3]<<24;
        return 12/sz;
    }
    for (i=0; i<want && fp<fn; i++) ((unsigned char*)p)[i]=F[fp++];
    return sz? i/sz : 0;
}
#ifndef OWNREAD
long v_read(int fd, void *p, size_t n)
{
    size_t have=fn-fp;
    if (n>have) n=have;
#ifdef SHORTREADS
    if (n>1 && short_reads-->0) n=1;
#endif
    for (size_t i=0;i<n;i++) ((unsigned char*)p)[i]=F[fp++];
    return n;
}
#endif
size_t v_fwrite(const void *p, size_t sz, size_t n, FILE *f)
{
    for (size_t i=0;i<sz*n;i++) wput(((const unsigned char*)p)[i]);
    return n;
}
int v_fputc(int c, FILE *f) { wput((unsigned char)c); return c; }
int v_fputs(const char *s, FILE *f) { for (;*s;s++) wput((unsigned char)*s); return 1; }
int v_fflush(FILE *f) { wflushed=wn; return 0; }
int v_fileno(FILE *f) { return 3; }
static void wnum(unsigned long x, int base, int digits)
{
    unsigned char b[24]; int n=0;
    do { int d=x%base; b[n++]= d<10? '0'+d : 'a'+d-10; x/=base; } while (x);
    for (int i=n;i<digits;i++) wput('0');
    while (n--) wput(b[n]);
}
/* times as fractional numbers: kept symbolically, the text has a mark */
static double w_fl[8]; static int w_nfl;
int v_fprintf(FILE *f, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    for (;*fmt;fmt++)
    {
        if (*fmt!='%') { wput((unsigned char)*fmt); continue; }
        int dig=0, l=0;
        fmt++;
        while (*fmt>='0' && *fmt<='9') dig=dig*10+*fmt-'0', fmt++;
        while (*fmt=='l') l=1, fmt++;
        if (*fmt=='d' || *fmt=='i')
        {
            long x= l? va_arg(ap, long) : va_arg(ap, int);
            if (x<0) wput('-'), x=-x;
            wnum(x, 10, dig);
        }
        else if (*fmt=='u') wnum(l? va_arg(ap, unsigned long) : va_arg(ap, unsigned), 10, dig);
        else if (*fmt=='x') wnum(va_arg(ap, unsigned), 16, dig);
        else if (*fmt=='s') { const char *s=va_arg(ap, const char*); while (*s) wput((unsigned char)*s++); }
        else if (*fmt=='c') { int c=va_arg(ap, int); wput(c); }
        else if (*fmt=='f') { double d=va_arg(ap, double); if (w_nfl<8) w_fl[w_nfl]=d; w_nfl++; wput(1); }
        else w_bad=2;
    }
    va_end(ap);
    return 1;
}
/* ---- the listener: every byte with the time it is shown at ---- */
#ifndef PMAX
# define PMAX 64
#endif
static unsigned char P[PMAX]; static long p_sec[PMAX]; static int p_usec[PMAX];
static int pn, p_over, p_waits, p_inits, p_badwait, p_prints, p_msgs;
static long c_sec, g_sec, p_gsec[PMAX]; static int c_usec, g_usec, p_gusec[PMAX];  /* g: since the previous byte */
static struct timeval p_init;
static int p_negative;
static void l_init(const struct timeval *t, void *arg)
{
    p_inits++; p_init=*t;
    c_sec=0; c_usec=0;
    if (p_waits || pn) p_badwait=1;
}
static void l_wait(const struct timeval *t, void *arg)
{
    p_waits++;
    if (t->tv_usec<0 || t->tv_usec>=1000000) { p_badwait=1; return; }
    if (t->tv_sec<0) p_negative=1;
    c_sec+=t->tv_sec; c_usec+=t->tv_usec;
    if (c_usec>=1000000) c_usec-=1000000, c_sec++;
    g_sec+=t->tv_sec; g_usec+=t->tv_usec;
    if (g_usec>=1000000) g_usec-=1000000, g_sec++;
}
static void l_print(const char *b, int len, void *arg)
{
    p_prints++;
#ifdef LONG         /* so long that it must be an error message */
    if (len>=LONG) { p_msgs++; return; }
#endif
    if (len<0) { p_over=1; return; }
    for (int i=0;i<len;i++)
    {
        if (pn>=PMAX) { p_over=1; return; }
        P[pn]=b[i]; p_sec[pn]=c_sec; p_usec[pn]=c_usec; p_gsec[pn]=g_sec; p_gusec[pn]=g_usec; g_sec=g_usec=0; pn++;
    }
}
static int same(const char *a, const char *b) { while (*a && *a==*b) a++, b++; return *a==*b; }
/* through pointers: CBMC can't see into an array declared without a size */
static play_func *player(const char *name)
{
    for (player_info *q=&play[0];q->name;q++) if (same(q->name, name)) return q->play;
    return 0;
}
static recorder_info *recorder_(const char *name)
{
    for (recorder_info *q=&rec[0];q->name;q++) if (same(q->name, name)) return q;
    return 0;
}
/* t-o, normalized */
static void tdiff(long *s, int *u, long ts, int tu, long os, int ou)
{
    *s=ts-os; *u=tu-ou;
    if (*u<0) *u+=1000000, --*s;
}
