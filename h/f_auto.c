/* Players that go by the contents or by the clock.  MODE: 1 auto, a ttyrec;
   2 auto, neither; 3 auto, an asciicast; 5 live; 6 baudrate; 7 recording live;
   8 recording without times.  CHUNKS: how the bytes come from read(). */
#define OWNREAD
#ifndef SMASK
# define SMASK 63
#endif
#include "fio.h"
#ifdef GRAIN        /* so many parts of a second */
static int USEC(void) { int k=v_u8()&(GRAIN-1), u=0; for (int i=1;i<GRAIN;i++) if (k==i) u=1000000/GRAIN*i; return u; }
#else
static int USEC(void) { int u=v_u32()&0xfffff; v_assume(u<1000000); return u; }
#endif
static long now_s; static int now_u;
static void pass(void) { long s=v_u8()&SMASK; int u=USEC(); now_s+=s; now_u+=u; if (now_u>=1000000) now_u-=1000000, now_s++; }
#ifndef CHUNKS
# define CHUNKS ""
#endif
static int ci;
static long at_s[FMAX]; static int at_u[FMAX], readerr;
long v_read(int fd, void *p, size_t n)
{
    static const char ch[]=CHUNKS;
    v_assert(fd==3, "reads the file");
    pass();
    size_t have=fn-fp;
    if (!have) return readerr? -1 : 0;
    if (n>have) n=have;
    if (ch[ci]) { size_t k=ch[ci++]-'0'; if (k && k<n) n=k; }
    if (fp<12 && fp%4==0 && n%4==0 && fp+n<=12) /* whole words, so they stay constant where they are */
    {
        for (int i=0;i<n;i++) at_s[fp+i]=now_s, at_u[fp+i]=now_u;
        for (int i=0;i<n/4;i++, fp+=4) ((uint32_t*)p)[i]=F[fp]|F[fp+1]<<8|F[fp+2]<<16|(uint32_t)F[fp+3]<<24;
        return n;
    }
    for (size_t i=0;i<n;i++) { at_s[fp]=now_s; at_u[fp]=now_u; ((unsigned char*)p)[i]=F[fp++]; }
    return n;
}
int v_gettimeofday(struct timeval *t, void *z) { t->tv_sec=now_s; t->tv_usec=now_u; return 0; }
static int badsel;
int v_select(int n, void *r, void *w, void *e, struct timeval *t)
{
    if (n || t->tv_sec<0 || t->tv_usec<0 || t->tv_usec>=1000000) { badsel=1; return -1; }
    now_s+=t->tv_sec; now_u+=t->tv_usec; if (now_u>=1000000) now_u-=1000000, now_s++;
    return 0;
}
void *record_asciicast_init(FILE *f, const struct timeval *tm) { return 0; }
void record_asciicast(FILE *f, void *state, const struct timeval *tm, const char *buf, int len) {}
void record_asciicast_finish(FILE *f, void *state) {}
void *record_asciicast_v1_init(FILE *f, const struct timeval *tm) { return 0; }
void record_asciicast_v1_finish(FILE *f, void *state) {}
void play_asciicast(FILE *f, void (*a)(const struct timeval*, void*), void (*b)(const struct timeval*, void*), void (*c)(const char*, int, void*), void *arg, const struct timeval *cont) {}
static int ac, ac_fd, ac_len, ac_fp, ac_ok; static unsigned char ac_b[12];
void do_play_asciicast(int fd, const char *obuf, int olen, void (*a)(const struct timeval*, void*), void (*b)(const struct timeval*, void*), void (*c)(const char*, int, void*), void *arg, const struct timeval *cont)
{
    ac++; ac_fd=fd; ac_len=olen; ac_fp=fp;
    for (int i=0;i<12;i++) if (i<olen) ac_b[i]=obuf[i];
    ac_ok= a==l_init && b==l_wait && c==l_print;
}
#ifndef N
# define N 1
#endif
/* how many of the 12 bytes can begin {"version":1 or 2 */
static int matches(const unsigned char *b)
{
    static const char w[]="{\"version\":";
    int st=0, i=0, go=1, k=0;
    for (;i<12;i++)
    {
        unsigned char c=b[i];
        int ws= (c==' ') | (c=='\t') | (c=='\n') | (c=='\r');
        if (ws && (st==1 || st==10 || st==11)) { k+=go; continue; }
        if (st==12) { k+=go; continue; }
        int ok= st==11? c=='1' || c=='2' : c==(unsigned char)w[st];
        go&=ok; k+=go;
        st+= go;
    }
    return k;
}
#define SAME_GAP(i, s, u) (p_gsec[i]==(s) && p_gusec[i]==(u))
#define SAME_TIME(i, s, u) (p_sec[i]==(s) && p_usec[i]==(u))
void v_main(void)
{
    now_s=v_u32()&0x3fffffff; now_u=USEC();
#if MODE==1
    static int lens[]={LENS};
    enum { NF=sizeof lens/sizeof *lens };
    struct timeval t[NF]; int n=0, k=0, okd=1, okt=1;
    for (int i=0;i<NF;i++)
    {
        t[i].tv_sec=v_u32(); t[i].tv_usec=v_range(0,999999);
        uint32_t h[3]={t[i].tv_sec, t[i].tv_usec, lens[i]};
        for (int j=0;j<12;j++) F[n++]=h[j/4]>>j%4*8;
        for (int j=0;j<lens[i];j++) F[n++]=v_u8();
    }
    fn=n;
    player("auto")(THEFILE, l_init, l_wait, l_print, 0, 0);
    v_assert(!ac && !p_over && !p_badwait, "sane delays");
    n=0;
    struct timeval pt=t[0];
    for (int i=0;i<NF;i++)
    {
        n+=12;
        for (int j=0;j<lens[i];j++, n++, k++)
            if (k<pn)
            {
                long s; int u;
                tdiff(&s, &u, t[i].tv_sec, t[i].tv_usec, pt.tv_sec, pt.tv_usec);
                okd&= P[k]==F[n]; okt&= SAME_GAP(k, s, u);
                pt=t[i];
            }
    }
    v_assert(pn==k && okd, "a ttyrec is recognized and played");
    v_assert(okt, "at its own pace");
    v_assert(p_inits==1 && p_init.tv_sec==t[0].tv_sec && p_init.tv_usec==t[0].tv_usec, "its date is reported, once");
#elif MODE==2 || MODE==5
    int i, ok=1, okt=1;
    for (i=0;i<N;i++) F[i]=v_u8();
    fn=N;
# ifdef READERR
    readerr=1;
# endif
# if MODE==2
#  if N>=12
    {
#   ifdef US         /* out of the ordinary, either way */
        for (i=0;i<4;i++) F[4+i]=(uint32_t)US>>8*i;
#   else
        for (i=0;i<4;i++) F[8+i]=(uint32_t)LEN>>8*i;
#   endif
        v_assume(matches(F)<10);
    }
#  endif
    player("auto")(THEFILE, l_init, l_wait, l_print, 0, 0);
    int from= N<12? N : 12;
# else
    struct timeval z; z.tv_sec=now_s; z.tv_usec=now_u;
    player("live")(THEFILE, l_init, l_wait, l_print, 0, 0);
    int from=0;
    v_assert(p_init.tv_sec==z.tv_sec && p_init.tv_usec==z.tv_usec, "the beginning is now");
# endif
    v_assert(!ac && !p_over && !p_badwait && !p_negative, "sane delays");
    v_assert(p_inits==(N>0 || MODE==5), "the beginning is reported, once");
    v_assert(pn==N, "all of the data is shown");
    for (i=0;i<N;i++) ok&= P[i]==F[i];
    v_assert(ok, "the data is shown unchanged and in order");
    for (i=from;i<N;i++)
    {
        long s; int u;
        tdiff(&s, &u, at_s[i], at_u[i], i>from? at_s[i-1] : p_init.tv_sec, i>from? at_u[i-1] : p_init.tv_usec);
        okt&= SAME_GAP(i, s, u);
    }
    v_assert(okt, "what comes live has the time it came at");
# if MODE==2
    for (i=0;i<from;i++) okt&= SAME_GAP(i, 0, 0);
    v_assert(okt, "the beginning is shown at once");
# endif
#elif MODE==4         /* the longest frames there may be, cut short */
    uint32_t h[3]={v_u32(), US, LEN};
    int n=0, ok=1;
    for (int j=0;j<12;j++) F[n++]=h[j/4]>>j%4*8;
    for (int j=0;j<N;j++) F[n++]=v_u8();
    fn=n;
    player("auto")(THEFILE, l_init, l_wait, l_print, 0, 0);
    v_assert(!ac && !p_over && !p_badwait, "sane delays");
    v_assert(p_inits==1 && p_init.tv_sec==h[0] && p_init.tv_usec==US, "a ttyrec is recognized");
    v_assert(pn<=N, "its headers are not shown");
    for (int i=0;i<N;i++) if (i<pn) ok&= P[i]==F[12+i];
    v_assert(ok, "what there is of its data is shown unchanged");
#elif MODE==3
    static const char tm[]=TEMPLATE;
    for (int i=0;i<12;i++) F[i]= tm[i]=='_'? v_u8() : tm[i];
    v_assume(matches(F)==12);
    for (int i=12;i<N;i++) F[i]=v_u8();
    fn=N;
    player("auto")(THEFILE, l_init, l_wait, l_print, 0, 0);
    v_assert(ac==1 && ac_ok && !pn, "an asciicast is recognized");
    v_assert(ac_fd==3 && ac_len==ac_fp && ac_len==12, "none of it is lost");
    int ok=1;
    for (int i=0;i<12;i++) ok&= ac_b[i]==F[i];
    v_assert(ok, "what has been read is passed on");
#elif MODE==6
    for (int i=0;i<N;i++) F[i]=v_u8();
    fn=N;
    player("baudrate")(THEFILE, l_init, l_wait, l_print, 0, 0);
    v_assert(pn==N && !p_over && !p_badwait && !p_negative, "all of the data is shown");
    int ok=1, okt=1;
    for (int i=0;i<N;i++)
    {
        ok&= P[i]==F[i];
        long us=p_sec[i]*1000000+p_usec[i], due=(long)i*1000000/300;
        okt&= us>=due-250000 && us<=due+250000;
    }
    v_assert(ok, "the data is shown unchanged and in order");
    v_assert(okt, "at about 2400 baud");
#elif MODE==7
    recorder_info *r=recorder_("live");
    struct timeval t0, t, pt; int okw=1, ok=1; long ps=0; int pu=0;
    t0.tv_sec=v_u8()&7; t0.tv_usec=USEC(); now_s&=7;
# ifdef GRAIN
    t0.tv_sec=5; t0.tv_usec=1000000/GRAIN; now_s=1000; now_u=1000000-1000000/GRAIN;
# endif
    long zs=now_s; int zu=now_u;
    void *st=r->init(THEFILE, &t0);
    t=t0;
    for (int i=0;i<N;i++)
    {
        char d[3];
        long ds=v_u8()&SMASK&7; int du=USEC(), late;
        pt=t;
        t.tv_sec+=ds; t.tv_usec+=du; if (t.tv_usec>=1000000) t.tv_usec-=1000000, t.tv_sec++;
        for (int j=0;j<3;j++) F[3*i+j]=d[j]=v_u8();
        if (late=v_bool()) pass();        /* the output may block */
        long bs=now_s; int bu=now_u;
        r->write(THEFILE, st, &t, d, 3);
        v_assert(wn==3*i+3 && wflushed==wn, "everything is output at once");
        /* when the previous was shown, plus the delay */
        long es=zs+ds; int eu=zu+du; if (eu>=1000000) eu-=1000000, es++;
        int nolate= es>bs || (es==bs && eu>=bu);
        okw&= now_s>es || (now_s==es && now_u>=eu);
        if (nolate) ok&= now_s==es && now_u==eu; else ok&= now_s==bs && now_u==bu;
        zs=now_s; zu=now_u;
    }
    r->finish(THEFILE, st);
    v_assert(!badsel, "sane sleeps");
    v_assert(okw, "never faster than recorded");
    v_assert(ok, "no slower than needed; time lost is not made up");
    for (int i=0;i<3*N;i++) ok&= W[i]==F[i];
    v_assert(ok, "the data is unchanged");
#elif MODE==8
    recorder_info *r=recorder_(FORMAT);
    struct timeval t;
    t.tv_sec=v_u32(); t.tv_usec=v_range(0,999999);
    void *st=r->init(THEFILE, v_bool()? &t : 0);
    char d[N];
    for (int i=0;i<N;i++) d[i]=v_u8();
    r->write(THEFILE, st, &t, d, N/2);
    t.tv_sec=v_u32(); t.tv_usec=v_range(0,999999);
    r->write(THEFILE, st, &t, d+N/2, N-N/2);
    r->finish(THEFILE, st);
# ifdef NOTHING
    v_assert(!wn, "nothing is recorded");
# else
    v_assert(wn==N, "just the data is recorded");
    int ok=1;
    for (int i=0;i<N;i++) ok&= W[i]==(unsigned char)d[i];
    v_assert(ok, "just the data is recorded, unchanged");
# endif
#endif
    v_reach("end");
}
