/* telnet: the commands are taken out, negotiations answered, the data passed on */
#include "v.h"
#include <stdio.h>
#include <sys/types.h>
#include "libstream/stream.h"
#ifndef WFAIL
# define WFAIL 0
#endif
#ifndef N
# define N 4
#endif
#define MAXC 6
static unsigned char in[N], out[N+4], rep[3*N+4];
static int pos, outn, repn, chunk[MAXC], nchunk, closed_s, closed_f, outbad, wfail, writes;
long v_recv(int s, char *b, size_t n, int fl)
{
    v_assert(s==7 && n>0, "reads from the socket");
    if (pos>=N || nchunk>=MAXC) return wfail==2? -1 : 0;
    int k=chunk[nchunk++];
    if (!k) k=N;
    if (k>N-pos) k=N-pos;
    if (k>(int)n) k=n;
    for (int i=0;i<N;i++) if (i<k) b[i]=in[pos+i];
    pos+=k;
    return k;
}
long v_send(int s, const char *b, size_t n, int fl)
{
    v_assert(s==7, "replies go to the socket");
    for (int i=0;i<3;i++) if (i<(int)n) { if (repn<(int)sizeof(rep)) rep[repn]=b[i]; repn++; }
    if (n>3) outbad=1;
    return n;
}
long v_write(int f, const char *b, size_t n)
{
    v_assert(f==8, "data goes to the pipe");
    v_assert(n<=N, "no more data than there was");
    writes++;
    if (wfail==1) return -1;
    for (int i=0;i<N;i++) if (i<(int)n) { if (outn<(int)sizeof(out)) out[outn]=b[i]; outn++; }
    return n;
}
int v_close(int f) { if (f==7) closed_s++; else if (f==8) closed_f++; else outbad=1; return 0; }
int connect_tcp(const char *url, int port, const char **rest, const char **error) { return -1; }
int filter(void func(int,int,const char*), int fd, int wr, const char *arg, const char **error) { return -1; }

void v_main(void)
{
    static const char *pre=PRE;
    int p=0;
    for (;p<N && pre[p];p++) in[p]=pre[p];
    for (;p<N;p++) in[p]=v_u8();
    static const char *ch=CHUNKS;
    for (int i=0;i<MAXC && ch[i];i++) chunk[i]=ch[i]-'0';
    wfail=WFAIL;
    telnet(7, 8, 0);
    v_assert(closed_s==1 && closed_f==1 && !outbad, "both ends are closed, once");
#if WFAIL==1
    v_assert(writes<=1, "nothing is written after a failure");
#else
    /* RFC 854, RFC 857, RFC 858 */
    unsigned char e[N+4], r[3*N+4]; int en=0, rn=0, st=0, cmd=0;
    for (int i=0;i<N;i++)
    {
        if (i>=pos) break;
        unsigned char c=in[i];
        if (st==0) { if (c==255) st=1; else e[en++]=c; }
        else if (st==1)
        {
            if (c==255) e[en++]=255, st=0;
            else if (c>=251) cmd=c, st=2;
            else st= c==250? 3 : 0;
        }
        else if (st==2)
        {
            r[rn++]=255;
            r[rn++]= cmd==251? (c==1 || c==3? 253 : 254)    /* WILL: fine with echo and SGA */
                   : cmd==252? 254                          /* WONT */
                   : cmd==253? (c==3? 251 : 252)            /* DO: we can suppress GA, nothing else */
                   : 252;                                   /* DONT */
            r[rn++]=c;
            st=0;
        }
        else if (st==3) st=4;
        else if (st==4) { if (c==255) st=5; }
        else st= c==240? 0 : 4;
    }
    v_assert(pos==N || nchunk==MAXC, "reads until the end");
    v_assert(outn==en, "exactly the data gets through");
    int ok=1;
    for (int i=0;i<N;i++) if (i<en) ok&= out[i]==e[i];
    v_assert(ok, "the data gets through unchanged and in order");
    v_assert(repn==rn, "every negotiation gets one answer");
    for (int i=0;i<3*N;i++) if (i<rn) ok&= rep[i]==r[i];
    v_assert(ok, "unsupported options are refused, supported ones agreed to");
#endif
    v_reach("end");
}
