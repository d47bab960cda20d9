/* file names -> format and compression */
#include "v.h"
#include <stdio.h>
#include <stdlib.h>
#include <sys/time.h>
#include "config.h"
#include "ttyrec.h"
const char *h_comp(const char *name, int wr);
static int low(int c) { return c>='A' && c<='Z'? c+32 : c; }
int v_strncasecmp(const char *a, const char *b, size_t n)
{
    for (size_t i=0;i<n;i++)
    {
        int x=low((unsigned char)a[i]), y=low((unsigned char)b[i]);
        if (x!=y) return x-y;
        if (!x) return 0;
    }
    return 0;
}
int v_strcasecmp(const char *a, const char *b) { return v_strncasecmp(a, b, 1000); }
size_t v_strlen(const char *s) { size_t n=0; while (s[n]) n++; return n; }
int open_stream(int fd, const char *url, int mode, const char **error) { return -1; }
static char u[N+1], f[8], fmt[NF+2];
static int n=N;
/* does the name, less the last skip characters, end with e? */
static int ends(int skip, const char *e)
{
    int l=0, ok=1; while (e[l]) l++;
    if (n-skip<l) return 0;
    for (int i=0;i<l;i++) ok&= low((unsigned char)u[n-skip-l+i])==e[i];
    return ok;
}
static int is(const char *s, const char *w)
{
    int ok=1, i;
    if (!s) return !w;
    if (!w) return 0;
    for (i=0;w[i];i++) if (ok) ok&= s[i]==w[i];
    return ok && !s[i];
}
static int iseq(const char *s, const char *w) { int i; for (i=0;s[i] && low((unsigned char)s[i])==w[i];i++); return !s[i] && !w[i]; }
static const char *fallbacks[]={0,"ansi","ttyrec","auto","live","nope","aSciiCast"};
static const char *wn[]={"ansi","ttyrec","nh_recorder","asciicast","asciicast-v1","live","null",0};
static const char *we[]={".txt",".ttyrec",".nh",".cast",".cast-v1"};
static const char *rn[]={"baudrate","ttyrec","nh_recorder","dosrecorder","asciicast","live","auto",0};
static const char *re[]={".txt",".ttyrec",".nh",".dm2",".cast"};
static const char *pick(const char **names, const char *s)
{
    const char *r=0;
    if (s) for (int i=0;names[i];i++) if (!r && iseq(s, names[i])) r=names[i];
    return r;
}
void v_main(void)
{
    static const char *post=POST;
    int pl=0; while (post[pl]) pl++;
    for (int i=0;i<N;i++)
        if (i>=N-pl) u[i]=post[i-(N-pl)];
        else { u[i]=v_u8(); v_assume(u[i]!=0); }
#ifdef EXPLICIT
    static const char *fp=FPRE;
    int k=0;
    for (;fp[k];k++) fmt[k]=fp[k];
    for (int i=0;i<NF-(int)sizeof(FPRE)+1;i++, k++) { fmt[k]=v_u8(); v_assume(fmt[k]!=0); }
    fmt[k]=0;
    const char *fm=fmt, *fn= v_bool()? &u[0] : (char*)0;
#else
    const char *fm=0, *fn=NONAME? (char*)0 : &u[0];
#endif
    const char *fb=fallbacks[FB];
    /* the compression */
    int skip=0;
    const char *c=0;
    if (ends(0, ".gz")) c="gzip", skip=3;
    if (ends(0, ".bz2")) c="bzip2", skip=4;
    if (ends(0, ".xz")) c="xz", skip=3;
    if (ends(0, ".zst")) c="zstd", skip=4;
    const char *ci=h_comp(u, 1), *di=h_comp(u, 0);
    v_assert(is(ci, c) && is(di, c), "compression by extension");
    /* the format */
    const char *w=0, *r=0;
    if (fm) w=pick(wn, fm), r=pick(rn, fm);
    else
    {
        if (fn) for (int i=0;i<5;i++) if (ends(skip, we[i])) w=wn[i];
        if (fn) for (int i=0;i<5;i++) if (ends(skip, re[i])) r=rn[i];
        if (!w) w=pick(wn, fb);
        if (!r) r=pick(rn, fb);
    }
    const char *gw=ttyrec_w_find_format(fm, fn, fb), *gr=ttyrec_r_find_format(fm, fn, fb);
    v_assert(is(gw, w), "format to write");
    v_assert(is(gr, r), "format to read");
    if (fm)
    {
        const char *x=0, *y=0;
        for (int i=0;i<5;i++) { if (w==wn[i]) x=we[i]; if (r==rn[i]) y=re[i]; }
        v_assert(is(ttyrec_w_get_format_ext(fm), x), "extension of a format to write");
        v_assert(is(ttyrec_r_get_format_ext(fm), y), "extension of a format to read");
    }
    int i=v_int();
    const char *a=ttyrec_w_get_format_name(i), *b=ttyrec_r_get_format_name(i);
    v_assert(!a==!(i>=0 && i<7) && !b==!(i>=0 && i<7), "formats are listed");
    v_reach("end");
}
