/* The timeline (libtty/timeline.c) over terminals that merely remember what
   was written to them.  LENS=lengths of frames; LOAD: fed by a player, else
   by ttyrec_add_frame.  SAVE: check ttyrec_save. */
#include "v.h"
#include <string.h>
#include <stdlib.h>
#include <sys/time.h>
#include "tty.h"
#include "ttyrec.h"
static int lens[]={LENS};
#define N ((int)(sizeof lens/sizeof *lens))
typedef unsigned __int128 bytes;    /* up to 16 bytes, the last one lowest */
/* ---- terminals ---- */
#define NT (N+6)
struct mt { struct tty t; bytes log; int n, live; } *T[NT];
static int nt, badfree;
static struct mt *newt(void)
{
    if (nt>=NT) { badfree=2; return T[0]; }
    struct mt *x=T[nt++]=calloc(1, sizeof(struct mt));
    x->live=1; x->n=0; x->log=0;
    return x;
}
tty tty_init(int sx, int sy, int resizable) { struct mt *x=newt(); x->t.sx=sx; x->t.sy=sy; x->t.allow_resize=resizable; return &x->t; }
tty tty_copy(tty vt)
{
    struct mt *x=newt(), *y=(struct mt*)vt;
    if (!y->live) badfree=1;
    x->t.sx=y->t.sx; x->t.sy=y->t.sy; x->t.allow_resize=y->t.allow_resize;
    x->n=y->n; x->log=y->log;
    return &x->t;
}
void tty_free(tty vt) { struct mt *x=(struct mt*)vt; if (!x->live) badfree=1; x->live=0; }
void tty_write(tty vt, const char *buf, int len)
{
    struct mt *x=(struct mt*)vt;
    if (!x->live) badfree=1;
    for (int i=0;i<len;i++) x->log=x->log<<8|(unsigned char)buf[i], x->n++;
}
/* ---- what is played ---- */
static struct timeval t0, dl[N], w[N];
static char d[N][16];
static int hasdate, twice[N];
int ttyrec_r_play(int fd, const char *format, const char *filename,
    void (*si)(const struct timeval *ts, void *arg), void (*sw)(const struct timeval *tv, void *arg),
    void (*sp)(const char *buf, int len, void *arg), void *arg)
{
    if (hasdate) si(&t0, arg);
    for (int i=0;i<N;i++)
    {
        if (i) sw(&dl[i], arg);
        sp(d[i], lens[i], arg);
    }
    return 1;
}
/* ---- what is saved ---- */
static int wo, wc, wn_, wfail; static struct timeval wot, wt[N+2]; static int wl[N+2]; static const char *wd[N+2];
static int w_rec;
recorder ttyrec_w_open(int fd, const char *format, const char *filename, const struct timeval *ts)
{ wo++; if (wfail==1 || !ts) return 0; wot=*ts; return (recorder)&w_rec; }
int ttyrec_w_write(recorder r, const struct timeval *tm, const char *data, int len)
{ if (r!=(recorder)&w_rec || wn_>=N+2) { wo=99; return 1; } wt[wn_]=*tm; wl[wn_]=len; wd[wn_]=data; wn_++; return 1; }
int ttyrec_w_close(recorder r) { wc++; return wfail!=2; }

static int cmp(const struct timeval *a, const struct timeval *b)
{ return a->tv_sec!=b->tv_sec? (a->tv_sec<b->tv_sec? -1 : 1) : a->tv_usec!=b->tv_usec? (a->tv_usec<b->tv_usec? -1 : 1) : 0; }
void v_main(void)
{
    struct timeval now={0,0};
    hasdate=v_bool();
#ifndef LOAD
    hasdate=0;
#endif
    t0.tv_sec=v_u32(); t0.tv_usec=v_range(0,999999);
    if (hasdate) now=t0;
    struct timeval start=now;
    for (int i=0;i<N;i++)
    {
        for (int j=0;j<lens[i];j++) d[i][j]=v_u8();
        dl[i].tv_sec=v_int(); dl[i].tv_usec=v_range(0,999999);
#ifdef LOAD
        if (i)
#endif
        {   /* delays of over 5 s, and going back, are shown as 5 s */
            struct timeval e=dl[i];
            if (e.tv_sec<0 || e.tv_sec>=5) e.tv_sec=5, e.tv_usec=0;
            now.tv_sec+=e.tv_sec; now.tv_usec+=e.tv_usec;
            if (now.tv_usec>=1000000) now.tv_usec-=1000000, now.tv_sec++;
        }
        w[i]=now;
    }
    tty vt0=tty_init(5, 3, 0);
#ifdef LOAD
    ttyrec tr=ttyrec_load(3, "x", "y", vt0);
#else
    ttyrec tr=ttyrec_init(vt0);
    for (int i=0;i<N;i++) ttyrec_add_frame(tr, &dl[i], d[i], lens[i]);
#endif
    v_assert(tr!=0, "it loads");
    struct timeval q; int qn;
    q.tv_sec=v_u64()&0x1ffffffff; q.tv_usec=v_range(0,999999);
    qn=v_bool();            /* no time: the first frame */
#ifdef SAVE
    struct timeval z; int zn;
    z.tv_sec=v_u64()&0x1ffffffff; z.tv_usec=v_range(0,999999);
    zn=v_bool();
    wfail=v_range(0,2);
    int ret=ttyrec_save(tr, 4, "f", "g", qn? 0 : &q, zn? 0 : &z);
    if (wfail==1) v_assert(!ret && !wn_ && !wc, "a failed open is reported");
    else
    {
        v_assert(wo==1 && wc==1, "the output is opened and closed once");
        v_assert(!!ret == (wfail!=2), "a failed close is reported");
        /* the frame on screen at the start of the selection, up to its end */
        int k=-1;
        if (qn) k=0;
        else for (int i=0;i<N;i++) if (cmp(&w[i],&q)<=0) k=i;
        struct timeval st= k<0? start : w[k];
        v_assert(!cmp(&wot,&st), "the date is that of the first frame");
        int j=0, ok=1;
        for (int i=-1;i<N;i++)
        {
            if (i<k) continue;
            struct timeval ft= i<0? start : w[i];
            if (!zn && cmp(&ft,&z)>0) break;
            if (i<0 || !lens[i])     /* nothing in it: may be skipped */
            {
                if (j<wn_ && !wl[j]) { ok&=!cmp(&wt[j],&ft); j++; }
                continue;
            }
            if (j>=wn_) { ok=0; break; }
            ok&= wl[j]==lens[i] && !cmp(&wt[j],&ft);
            for (int b=0;b<lens[i] && b<wl[j];b++) ok&= wd[j][b]==d[i][b];
            j++;
        }
        v_assert(ok && j==wn_, "exactly the frames selected are saved, with their times and data");
    }
#else
    int both=v_bool();
    tty vt=both? tty_init(7,7,0) : 0;
    ttyrec_frame f=ttyrec_seek(tr, qn? 0 : &q, both? &vt : 0);
    int k=-1;
    if (qn) k=0;
    else for (int i=0;i<N;i++) if (cmp(&w[i],&q)<=0) k=i;
    v_assert(f!=0, "seeking works");
    struct timeval st= k<0? start : w[k];
    v_assert(!cmp(&f->t,&st), "the frame found is the last one at or before the given time");
    v_assert(k<0? !f->data && !f->len : f->len==lens[k], "it is that frame");
    if (k>=0) for (int b=0;b<lens[k];b++) v_assert(f->data[b]==d[k][b], "with its data");
    if (both)
    {
        struct mt *x=(struct mt*)vt;
        v_assert(x->live && x!=(struct mt*)vt0, "a terminal of one's own is given");
        v_assert(x->t.sx==5 && x->t.sy==3 && !x->t.allow_resize, "the terminal is like the one of the recording");
        int n=0;
        bytes e=0;
        for (int i=0;i<=k;i++) for (int b=0;b<lens[i];b++, n++) e=e<<8|(unsigned char)d[i][b];
        v_assert(x->n==n && x->log==e, "seeking shows what playing from the start would");
        tty_free(vt);
    }
    f=ttyrec_seek(tr, 0, 0);
    for (int i=0;i<N;i++)
    {
        v_assert(f && f->len==lens[i] && !cmp(&f->t,&w[i]), "frames follow one another, with their times");
        for (int b=0;b<lens[i];b++) v_assert(f->data[b]==d[i][b], "frames have their data");
        f=ttyrec_next_frame(tr, f);
    }
    v_assert(!f, "nothing comes after the last frame");
#endif
    ttyrec_free(tr);
    v_assert(!badfree, "terminals are not used after being freed");
    for (int i=0;i<nt;i++) v_assert(!T[i]->live, "no terminals are left behind");
    v_reach("end");
}
