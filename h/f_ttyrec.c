/* ttyrec: LENS=lengths of the frames.  WRITE: what is written is exactly the
   published format; otherwise: a file in that format, possibly cut to TRUNC
   bytes, is played as such. */
#include "fio.h"
static int lens[]={LENS};
#define N ((int)(sizeof lens/sizeof *lens))
static unsigned char E[FMAX]; static int en;
static void put32(uint32_t x) { for (int i=0;i<4;i++) E[en++]=x, x>>=8; }
void v_main(void)
{
    struct timeval t[N];
    char d[N][20];
    for (int i=0;i<N;i++)
    {
        t[i].tv_sec=v_u32(); t[i].tv_usec=v_range(0,999999);
        put32(t[i].tv_sec); put32(t[i].tv_usec); put32(lens[i]);
        for (int j=0;j<lens[i];j++) E[en++]=d[i][j]=v_u8();
    }
#ifdef WRITE
    recorder_info *r=recorder_("ttyrec");
    v_assert(r!=0, "there's a recorder");
    struct timeval t0; t0.tv_sec=v_u32(); t0.tv_usec=v_range(0,999999);
    void *st=r->init(THEFILE, v_bool()? &t0 : 0);
    for (int i=0;i<N;i++) r->write(THEFILE, st, &t[i], d[i], lens[i]);
    r->finish(THEFILE, st);
    v_assert(!w_bad && wn==en, "the amount written is right");
    for (int i=0;i<en;i++) v_assert(W[i]==E[i], "what is written is in the ttyrec format");
    v_reach("end");
#else
    play_func *p=player("ttyrec");
    v_assert(p!=0, "there's a player");
    int total=en;
# ifdef TRUNC
    total=TRUNC;
# endif
    for (int i=0;i<en;i++) F[i]=E[i];
    fn=total;
    p(THEFILE, l_init, l_wait, l_print, 0, 0);
    v_assert(!p_over && !p_badwait, "delays are sane, and nothing unexpected gets played");
    int k=0, okd=1, okt=1, waits=0;
    long os; int ou;
    for (int i=0;i<N;i++)
    {
        for (int j=0;j<lens[i];j++)
        {
            if (k>=pn) { k++; continue; }
            okd&= P[k]==(unsigned char)d[i][j];
            long s; int u;
            tdiff(&s, &u, t[i].tv_sec, t[i].tv_usec, t[0].tv_sec, t[0].tv_usec);
            okt&= p_sec[k]==s && p_usec[k]==u;
            k++;
        }
    }
# ifdef TRUNC
    int full=0, at=0;       /* what is surely there: frames complete in the file */
    for (int i=0;i<N;i++) { at+=12+lens[i]; if (at>total) break; full+=lens[i]; }
    v_assert(pn>=full && pn<=k, "a truncated file gives every frame that is complete");
    v_assert(okd && okt, "the part that is there is played right");
# else
    v_assert(pn==k && okd, "what is played is what is in the file");
    v_assert(okt, "at the right times");
    long s; int u;
    tdiff(&s, &u, t[N-1].tv_sec, t[N-1].tv_usec, t[0].tv_sec, t[0].tv_usec);
    v_assert(c_sec==s && c_usec==u, "the total of delays is the length of the recording");
    v_assert(p_inits==1 && p_init.tv_sec==t[0].tv_sec && p_init.tv_usec==t[0].tv_usec, "the date of the recording is reported, once");
# endif
    v_reach("end");
#endif
}
