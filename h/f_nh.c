/* nh_recorder: LENS=lengths of the frames.  WRITE: compare with the format;
   otherwise: play a file in the format, possibly cut to TRUNC bytes. */
#include "fio.h"
static int lens[]={LENS};
#define N ((int)(sizeof lens/sizeof *lens))
static unsigned char E[FMAX]; static int en;
static void put32(uint32_t x) { for (int i=0;i<4;i++) E[en++]=x, x>>=8; }
void v_main(void)
{
    char d[N][20];
#ifdef WRITE
    struct timeval t[N], t0;
    recorder_info *r=recorder_("nh_recorder");
    v_assert(r!=0, "there's a recorder");
    for (int i=0;i<5;i++) E[en++]=0;
    t0.tv_sec=v_u32(); t0.tv_usec=v_range(0,999999);
    int withdate=v_bool();
    long os=withdate? t0.tv_sec : 0; int ou=withdate? t0.tv_usec : 0;
    void *st=r->init(THEFILE, withdate? &t0 : 0);
    for (int i=0;i<N;i++)
    {
        t[i].tv_sec=v_u64()&0x1ffffffff; t[i].tv_usec=v_range(0,999999);
        v_assume(t[i].tv_sec>os || t[i].tv_sec==os && t[i].tv_usec>=ou);
        v_assume(t[i].tv_sec-os<20000000);
        int at=wn;
        for (int j=0;j<lens[i];j++) d[i][j]=v_u8();
        r->write(THEFILE, st, &t[i], d[i], lens[i]);
        /* the timestamp may be rounded */
        uint32_t x=W[at+1]|W[at+2]<<8|W[at+3]<<16|(uint32_t)W[at+4]<<24;
        int q=x-(uint32_t)((t[i].tv_sec-os)*100), du=t[i].tv_usec-ou;   /* the part below a second */
        v_assert(q>=-100 && q<=100, "the timestamp has the right second");
        v_assert(q*10000-du<10000 && du-q*10000<10000, "the timestamp is within a hundredth of a second");
        E[en++]=0; put32(x);
        for (int j=0;j<lens[i];j++) if (d[i][j]) E[en++]=d[i][j];
    }
    r->finish(THEFILE, st);
    v_assert(!w_bad && wn==en, "the amount written is right");
    for (int i=0;i<FMAX;i++) if (i<en) v_assert(W[i]==E[i], "what is written is in the nh_recorder format");
    v_reach("end");
#else
    uint32_t t[N];
    play_func *p=player("nh_recorder");
    v_assert(p!=0, "there's a player");
    for (int i=0;i<N;i++)
    {
        t[i]= lens[i]? v_u32() : 0;
        if (i) v_assume(t[i]>=t[i-1]);
        E[en++]=0; put32(t[i]);
        for (int j=0;j<lens[i];j++) 
        {
# ifdef FIXED   /* any other values make the structure symbolic: too much for several blocks */
            d[i][j]="\xff\x80" "a\n1\x1b" "Z\1\x7f" [(i*4+j)%9];
# else
            d[i][j]=v_u8(); v_assume(d[i][j]);
# endif
            E[en++]=d[i][j];
        }
    }
    int total=en;
# ifdef TRUNC
    total=TRUNC;
# endif
    for (int i=0;i<en;i++) F[i]=E[i];
    fn=total;
    p(THEFILE, l_init, l_wait, l_print, 0, 0);
    v_assert(!p_over && !p_badwait, "delays are sane, and nothing unexpected gets played");
    int k=0, okd=1, okt=1, at=0;
    uint32_t tl=0;
    for (int i=0;i<N;i++)
    {
        at+=5;
        for (int j=0;j<lens[i] && at<total;j++, at++)
        {
            if (k>=pn) { k++; continue; }
            okd&= P[k]==(unsigned char)d[i][j];
            uint32_t dt= j? 0 : t[i]-tl;    /* since the previous byte; sums are too hard for a solver */
            if (!j) tl=t[i];
            okt&= p_gsec[k]==dt/100 && p_gusec[k]==dt%100*10000;
            k++;
        }
    }
    v_assert(pn==k && okd, "what is played is what is in the file");
    v_assert(okt, "at the right times");
    v_reach("end");
#endif
}
