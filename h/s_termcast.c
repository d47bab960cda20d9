/* termcast: PRE, SYM symbolic bytes, MID, SYM2 symbolic bytes, POST come in
   CHUNKS; the session to look for is WANT. */
#include "v.h"
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <stdarg.h>
#include <sys/types.h>
#include <sys/socket.h>
#include "libstream/stream.h"
static const char pre[]=PRE, mid[]=MID, post[]=POST, want[]=WANT, chunks[]=CHUNKS;
#define NP ((int)sizeof pre-1)
#define NM ((int)sizeof mid-1)
#define NQ ((int)sizeof post-1)
#define N (NP+SYM+NM+SYM2+NQ)
#ifndef FAULT
# define FAULT 0        /* 1 no thread 2 no second thread 3 can't send the choice 4 the reader went away 5 read error */
#endif
static unsigned char in[N+1], out[N+40];
static int pos, outn, ci, sent, sent_n, sent_at, early, closed_in, closed_out, closed_sock, closed_fd, bad, shut, dups, msg, wfail, drained;
static void (*fn1)(int,int,const char*), (*fn2)(int,int,const char*);
static const char *arg2; static int nf, wr1;
#define SOCK 7
#define SOCK2 9
#define IN 11
#define OUT 8
/* the real names may be used on either descriptor of the socket */
int connect_tcp(const char *url, int port, const char **rest, const char **error)
{
    v_assert(port==23, "the telnet port, by default");
    for (int i=0;url[i];i++) if (url[i]=='/') { *rest=url+i; return SOCK; }
    *rest=0;
    return SOCK;
}
void telnet(int sock, int fd, const char *arg) {}
static const char *emsg="e";
int filter(void func(int,int,const char*), int fd, int wr, const char *arg, const char **error)
{
    nf++;
    wr1|=wr;
    if ((FAULT==1 && nf==1) || (FAULT==2 && nf==2)) { *error=emsg; if (fd==SOCK) closed_fd++; else if (fd==IN) closed_in++; else bad=1; return -1; }
    if (nf==1) { fn1=func; if (fd!=SOCK || func!=telnet) bad=1; return IN; }
    fn2=func; arg2=arg;
    if (nf!=2 || fd!=IN) bad=1;
    return 12;
}
int v_dup(int fd) { if (fd!=SOCK) bad=1; dups++; return SOCK2; }
int v_shutdown(int fd, int how) { if (fd!=SOCK && fd!=SOCK2) bad=1; shut=1; return 0; }
int v_close(int fd)
{
    if (fd==IN) closed_in++; else if (fd==OUT) closed_out++; else if (fd==SOCK2) closed_sock++; else if (fd==SOCK) closed_fd++; else bad=1;
    return 0;
}
static int ends_read;
long v_read(int fd, void *b, size_t n)
{
    if (fd!=IN || closed_in) bad=1;
    v_assert(n>0, "there's room to read");
    if (shut) { if (drained++) return 0; return n<3? n : 3; }
    if (pos>=N) { if (ends_read++) return 0; return FAULT==5? -1 : 0; }
    int k=N;
    if (chunks[ci]) k=chunks[ci++]-'0';
    if (k>N-pos) k=N-pos;
    if (k>(int)n) k=n;
    for (int i=0;i<k;i++) ((unsigned char*)b)[i]=in[pos++];
    return k;
}
long v_write(int fd, const void *b, size_t n)
{
    if (fd==SOCK || fd==SOCK2)
    {
        if (fd==SOCK2 && !dups) bad=1;
        if (n!=1 || closed_sock) bad=1;
        sent_n++; sent=*(char*)b; sent_at=pos;
        if (FAULT==3) return -1;
        return 1;
    }
    if (fd!=OUT || closed_out) bad=1;
    if (wfail) early=1;
    if (FAULT==4 && outn>3) { wfail=1; return -1; }
    if (msg) bad=1;
    if (ends_read) { msg=1; v_assert(n<20, "a message"); return n; }
    for (int i=0;i<(int)n;i++) { if (outn<N) out[outn]=((const unsigned char*)b)[i]; outn++; }
    return n;
}
int v_snprintf(char *b, size_t n, const char *f, ...) { for (int i=0;i<10;i++) b[i]='m'; return 10; }
char *v_strerror(int e) { return "why"; }
char *v_strchr(const char *s, int c) { for (;;s++) { if (*s==(char)c) return (char*)s; if (!*s) return 0; } }
void *v_memmove(void *d, const void *s, size_t n)
{
    if ((char*)d<=(const char*)s) for (size_t i=0;i<n;i++) ((char*)d)[i]=((const char*)s)[i];
    else for (size_t i=n;i--;) ((char*)d)[i]=((const char*)s)[i];
    return d;
}
void *v_memcpy(void *d, const void *s, size_t n) { v_assert((char*)d+n<=(const char*)s || (const char*)s+n<=(char*)d, "no overlap"); return v_memmove(d, s, n); }
void *v_memset(void *d, int c, size_t n) { for (size_t i=0;i<n;i++) ((char*)d)[i]=c; return d; }
/* the pattern, as documented: \r\n ESC [ digits d optional-blank key ) blank
   colour name colour blank colour ( ; -> the end of it, 0 if it isn't there */
static int C(int i) { return i<N? in[i] : -1; }
static int colour(int i, int *ok)
{
    if (C(i)!=27) return i;
    i++;
    *ok&= C(i)=='['; i++;
    for (int k=0;k<6;k++) if ((C(i)>='0' && C(i)<='9') || C(i)==';') i++;
    *ok&= C(i)=='m';
    return i+1;
}
static int key;
static int ref(int i)
{
    int ok=1;
    ok&= C(i)=='\r' & C(i+1)=='\n' & C(i+2)==27 & C(i+3)=='[';
    if (!ok) return 0;
    i+=4;
    for (int k=0;k<3;k++) if (C(i)>='0' && C(i)<='9') i++;
    ok&= C(i)=='d'; i++;
    if (C(i)==' ') i++;
    key=C(i); i++;
    ok&= C(i)==')' & C(i+1)==' '; i+=2;
    i=colour(i, &ok);
    for (int k=0;want[k];k++) ok&= C(i)==want[k], i++;
    i=colour(i, &ok);
    ok&= C(i)==' '; i++;
    i=colour(i, &ok);
    ok&= C(i)=='('; i++;
    return ok? i : 0;
}
static char url[sizeof want+8];
void v_main(void)
{
    int p=0;
    for (int i=0;i<NP;i++) in[p++]=pre[i];
    for (int i=0;i<SYM;i++, p++) in[p]=v_u8();
    for (int i=0;i<NM;i++) in[p++]=mid[i];
    for (int i=0;i<SYM2;i++, p++) in[p]=v_u8();
    for (int i=0;i<NQ;i++) in[p++]=post[i];
    for (int i=0;i<N;i++) v_assume(in[i]!=0 && in[i]<128);
    for (int i=0;"ho/"[i];i++) url[i]="ho/"[i];
    for (int i=0;want[i];i++) url[3+i]=want[i];
    const char *error=0;
    int fd=open_termcast(url, 0, &error);
#if FAULT==1 || FAULT==2
    v_assert(fd==-1 && error==emsg, "failure is reported");
    v_assert(closed_sock==dups, "nothing is left open");
    v_reach("end");
    return;
#endif
    v_assert(fd==12 && nf==2 && !wr1 && !bad && fn2, "through telnet, then us");
    for (int i=0;i<(int)sizeof url-1;i++) url[i]='?';      /* may well be gone by then */
    fn2(IN, OUT, arg2);
    v_assert(!bad, "nothing odd gets done");
    v_assert(closed_out==1, "the output gets closed, once");
    v_assert(closed_sock==dups && !closed_fd && closed_in<=1, "the socket isn't closed under telnet, or twice");
    int end=0, k=0;
    for (int i=0;i<N;i++) if (!end && in[i]=='\r') { end=ref(i); k=key; }
#if FAULT==4
    v_assert(!early, "nothing is written to a reader that went away");
#else
    if (!end)
    {
        v_assert(!sent_n, "no other session is chosen");
        v_assert(msg, "the end is reported");
    }
    else
    {
        v_assert(sent_n==1, "one session is chosen");
        v_assert(sent==k, "the right one");
        v_assert(sent_at>=end, "once it's been seen");
        int c=0, at=0;
        while (chunks[c] && at<end) at+=chunks[c++]-'0';
        v_assert(sent_at<=at || at<end || BUFSZ<N, "as soon as it's been seen");
    }
# if FAULT==3
    if (!end)
# endif
    {
        v_assert(outn==N, "everything that comes is shown");
        int ok=1;
        for (int i=0;i<N;i++) ok&= out[i]==in[i];
        v_assert(ok, "unchanged, in order");
    }
#endif
    v_reach("end");
}
