/* host:port/rest -> where it connects to */
#include "v.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <sys/types.h>
#include <netdb.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include "libstream/stream.h"
#include "ttyrec.h"
#ifndef HOSTBUF
# define HOSTBUF 24
#endif
#ifndef NADDR
# define NADDR 2
#endif
static char u[HOSTBUF+20];
static int n;
/* ---- the C library ---- */
char *v_strchr(const char *s, int c) { for (;;s++) { if (*s==(char)c) return (char*)s; if (!*s) return 0; } }
char *v_strrchr(const char *s, int c) { char *r=0; for (;*s;s++) if (*s==(char)c) r=(char*)s; return r; }
static unsigned long dec(const char *s, char **e, int sg)
{
    int neg=0; long v=0; const char *b=s;
    if (*s=='-') neg=1, s++;
    const char *d=s;
    for (;*s>='0' && *s<='9';s++) v=v*10+(*s-'0');
    if (s==d) s=b;
    if (e) *e=(char*)s;
    return neg? -v : v;
}
unsigned long v_strtoul(const char *s, char **e, int base) { return dec(s, e, 0); }
long v_strtol(const char *s, char **e, int base) { return dec(s, e, 1); }
int v_snprintf(char *b, size_t sz, const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    int lim=1000, l=0;
    if (fmt[1]=='.') lim=va_arg(ap, int);
    const char *s=va_arg(ap, const char*);
    va_end(ap);
    for (;*s && l<lim;s++, l++) if (l+1<(int)sz) b[l]=*s;
    if (sz) b[l<(int)sz? l : (int)sz-1]=0;
    return l;
}
int v_sprintf(char *b, const char *fmt, ...)    /* always whole numbers: digits, from the left */
{
    va_list ap; va_start(ap, fmt);
    unsigned x=va_arg(ap, unsigned); va_end(ap);
    int l=0, on=0;
    for (unsigned p=1000000000;p;p/=10)
    {
        int d=x/p%10;
        on|= d || p==1;
        if (on) b[l++]='0'+d;
    }
    b[l]=0;
    return l;
}
/* ---- the network ---- */
static char host[HOSTBUF], serv[12];
static int asked, gai, freed, made, live[4], cur, eintr, conn_ok[NADDR], sock_ok[NADDR], tried, shut=-1;
static struct addrinfo list[NADDR];
static const char msg[]="unreachable";
int v_getaddrinfo(const char *h, const char *s, const struct addrinfo *hints, struct addrinfo **ai)
{
    asked++;
    int i;
    for (i=0;i<HOSTBUF-1 && h[i];i++) host[i]=h[i];
    host[i]=0;
    for (i=0;i<11 && s[i];i++) serv[i]=s[i];
    serv[i]=0;
    v_assert(hints->ai_socktype==SOCK_STREAM, "asks for streams");
    if (gai) return EAI_NONAME;
    for (i=0;i<NADDR;i++)
    {
        list[i].ai_family=AF_INET; list[i].ai_protocol=i;
        list[i].ai_next= i+1<NADDR? &list[i+1] : 0;
    }
    *ai=list;
    return 0;
}
void v_freeaddrinfo(struct addrinfo *a) { v_assert(a==list, "frees what it got"); freed++; }
const char *v_gai_strerror(int e) { return msg; }
char *v_strerror(int e) { return (char*)msg; }
int v_socket(int f, int t, int p)
{
    v_assert(p==tried, "the addresses are tried in order"); tried++;
    if (!sock_ok[p]) { errno=EMFILE; return -1; }
    live[p]++; made++;
    return 3+p;
}
int v_connect(int s, const struct sockaddr *a, unsigned l)
{
    v_assert(s>=3 && s<3+NADDR && live[s-3]==1, "connects what it has");
    if (eintr-->0) { errno=EINTR; return -1; }
    if (conn_ok[s-3]) return 0;
    errno=ECONNREFUSED; return -1;
}
int v_close(int s) { v_assert(s>=3 && s<3+NADDR && live[s-3]==1, "closes what is open"); live[s-3]--; return 0; }
int v_shutdown(int s, int how) { shut=how; return 0; }
int filter(void func(int,int,const char*), int fd, int wr, const char *arg, const char **error) { return -1; }

void v_main(void)
{
    static const char *pre=PRE, *post=POST;
    for (;*pre;pre++) u[n++]=*pre;
    int s0=n;
    for (int i=0;i<SYM;i++)
    {
        u[n]=v_u8();
        v_assume(u[n]!=0);
        n++;
    }
    for (;*post;post++) u[n++]=*post;
    u[n]=0;
    int def=DEFPORT;
    gai=v_bool(); eintr=v_range(0, 1);
    for (int i=0;i<NADDR;i++) sock_ok[i]=v_bool(), conn_ok[i]=v_bool();
    /* what it means */
    int e=0, bad=0, hs=0, he, ps=-1, pe; long port;
    for (e=0;e<n;e++) if (u[e]=='/') break;
    pe=e;
    if (u[0]=='[')
    {
        int k;
        hs=1;
        for (k=1;k<e;k++) if (u[k]==']') break;
        he=k;
        if (k>=e) bad=1;
        else if (k+1<e) { if (u[k+1]==':') ps=k+2; else bad=1; }
    }
    else
    {
        he=e;
        for (int k=0;k<e;k++) if (u[k]==':') he=k, ps=k+1;
    }
    if (ps>=0)
    {
        port=0;
        if (ps>=pe) bad=1;
        else
            v_assume(u[ps]!='+' && u[ps]!=' ' && !(u[ps]>=9 && u[ps]<=13));  /* not claimed */
        for (int k=ps;k<pe;k++)
            if (u[k]<'0' || u[k]>'9') bad=1; else if (port<=65535) port=port*10+(u[k]-'0');
        if (port<1 || port>65535) bad=1;
    }
    else { port=def; if (def<=0) bad=1; }
    if (e>=HOSTBUF) bad=1;

    const char *error=0, *rest="?";
#if DEFPORT
    int fd=connect_tcp(u, def, &rest, &error);
#else
    int wr=v_range(0,3);
    int fd=open_tcp(u, wr, &error);
#endif
    if (bad)
        v_assert(fd==-1 && error && !asked, "a bad address is refused");
    else
    {
        v_assert(asked==1, "the address is looked up, once");
        int ok=1, i;
        for (i=0;i<HOSTBUF;i++) if (hs+i<he) ok&= i<HOSTBUF-1 && host[i]==u[hs+i];
        v_assert(ok && host[he-hs]==0, "the right host");
        long p=0; int d=0;
        for (i=0;i<11 && serv[i];i++) ok&= serv[i]>='0' && serv[i]<='9', p=p*10+(serv[i]-'0'), d++;
        v_assert(ok && d>0 && p==port, "the right port");
        int want=-1;
        if (!gai) for (i=NADDR-1;i>=0;i--) if (sock_ok[i] && conn_ok[i]) want=3+i;
        v_assert(fd==want, "the first address that works");
        v_assert(freed==!gai, "the answer is freed");
        v_assert(!(fd==-1) || error, "a failure has a message");
        v_assert(fd==-1 || !error, "a success has none");
        for (i=0;i<NADDR;i++) v_assert(live[i]==(fd==3+i), "no socket is left open but the result");
#if DEFPORT
        v_assert(e<n? rest==u+e : !*rest, "the rest of the address");
#else
        v_assert(fd==-1 || shut==((wr&SM_WRITE)? SHUT_RD : SHUT_WR), "one way only");
#endif
    }
    v_reach("end");
}
