/* Sequences of bytes, from arbitrary valid states.
   SEQ: the bytes (positions listed in SYM are symbolic, not controls).
   CHK_SPLIT  one write == many writes, whatever the split
   CHK_HIST   whatever earlier (finished or aborted) sequences left behind in the
              parser makes no difference
   CHK_NOP    the sequence has no effect
   CHK_TITLE  OSC: the title and the event are exactly the string
*/
#ifdef SIMPLE
# define UTF8ONLY
# define WRAPONLY
#endif
#include "tstate.h"
static unsigned char q[]={SEQ};
#define N ((int)sizeof q)
#ifdef HOOKMALLOC
static int live;
void *v_malloc(size_t n) { void *p=malloc(n); if (p) live++; return p; }
void *v_realloc(void *o, size_t n) { void *p=realloc(o, n); if (!o && p) live++; return p; }
void v_free(void *p) { if (p) live--; free(p); }
char *v_strdup(const char *s)
{
    size_t n=0; while (s[n]) n++;
    char *p=v_malloc(n+1);
    if (p) for (size_t i=0;i<=n;i++) p[i]=s[i];
    return p;
}
#endif
typedef struct { int n_char, n_clear, n_scroll, n_osc, n_bell, n_comb, n_flag; ucs x; } EV;
static EV ev[2]; static int cur;
static int osc_cmd; static char osc_str[16]; static int osc_len;
static void e_char(tty t, int x, int y, ucs ch, uint64_t a, int w) { ev[cur].n_char++; ev[cur].x^=ch; }
static void e_comb(tty t, int x, int y, ucs ch, uint64_t a) { ev[cur].n_comb++; ev[cur].x^=ch; }
static void e_clear(tty t, int x, int y, int l) { ev[cur].n_clear++; }
static void e_scroll(tty t, int nl) { ev[cur].n_scroll++; }
static void e_bell(tty t) { ev[cur].n_bell++; }
static void e_flag(tty t, int f, int v) { ev[cur].n_flag++; }
static void e_osc(tty t, int cmd, const char *s)
{
    ev[cur].n_osc++; osc_cmd=cmd;
    v_assert(s!=0, "OSC event carries a string");
    osc_len=0;
    for (int i=0;i<15 && s[i];i++) osc_str[i]=s[i], osc_len=i+1;
}
static void attach(tty t)
{ t->l_char=e_char; t->l_comb=e_comb; t->l_clear=e_clear; t->l_scroll=e_scroll; t->l_osc=e_osc; t->l_bell=e_bell; t->l_flag=e_flag; }
static void clone(tty a, tty b)
{
    for (int i=0;i<NC;i++) b->scr[i]=a->scr[i];
    b->attr=a->attr; b->cx=a->cx; b->cy=a->cy; b->s1=a->s1; b->s2=a->s2; b->save_cx=a->save_cx; b->save_cy=a->save_cy;
    b->save_attr=a->save_attr; b->G=a->G; b->curG=a->curG; b->save_G=a->save_G; b->save_curG=a->save_curG;
#ifndef SIMPLE
    b->cp437=a->cp437; b->opt_auto_wrap=a->opt_auto_wrap;
#endif
    b->opt_cursor=a->opt_cursor; b->opt_kpad=a->opt_kpad;
    b->utf_count=a->utf_count; b->utf_char=a->utf_char; b->utf_surrogate=a->utf_surrogate;
    b->state=a->state; b->ntok=a->ntok;
    for (int i=0;i<VT100_MAXTOK;i++) b->tok[i]=a->tok[i];
}
static int comblist(tty t, int c, ucs *o)
{
    int n=0;
    uint32_t j=t->scr[c].comb;
    for (int i=0;i<4;i++) if (j) o[n++]=t->combs[j].ch, j=t->combs[j].next;
    return n;
}
static void same_tty(tty a, tty b, const char *m)
{
    S x, y; snap(&x, a); snap(&y, b);
    v_assert(same_cells(&x, &y), "same screen");
    v_assert(same_rest(&x, &y) && x.cx==y.cx && x.cy==y.cy && x.attr==y.attr, "same cursor, modes and saved state");
    v_assert(a->sx==b->sx && a->sy==b->sy, "same size");
    int ok=1;
    for (int c=0;c<NC;c++)
    {
        ucs p[4], r[4];
        int n=comblist(a, c, p), k=comblist(b, c, r);
        ok&= n==k;
        for (int i=0;i<4;i++) if (i<n) ok&= p[i]==r[i];
    }
    v_assert(ok, "same combining marks");
    v_assert(a->state==b->state, "same parser state");
    v_assert(!!a->title==!!b->title, "same title");
    if (a->title) for (int i=0;i<8;i++) { v_assert(a->title[i]==b->title[i], "same title text"); if (!a->title[i]) break; }
}
static tty mk(void)
{
#ifdef NORESIZE
    tty t=tty_init(TSX, TSY, 0);
#else
    tty t=tty_init(TSX, TSY, 1);
#endif
    v_assume(t!=0);
#ifdef TITLE
    t->title=
# ifdef HOOKMALLOC
    v_strdup("abc");
# else
    malloc(4); v_assume(t->title!=0); t->title[0]='a'; t->title[1]='b'; t->title[2]='c'; t->title[3]=0;
# endif
#endif
    return t;
}
#ifdef SYM
static const int sym[]={SYM};
static int issym(int i) { for (unsigned k=0;k<sizeof sym/sizeof *sym;k++) if (sym[k]==i) return 1; return 0; }
#else
static int issym(int i) { return 0; }
#endif
#ifndef PRE
# define PRE ST_GROUND
#endif
void v_main(void)
{
    tty t=mk();
    havoc(t);
    attach(t);
    t->state=PRE;
#ifdef SIMPLE         /* the property doesn't depend on where on the screen we are */
    t->utf_count=0; t->utf_surrogate=0; t->G=0; t->curG=0;
#endif
#if defined CHK_SPLIT || defined CHK_HIST
    tty u=mk();
    clone(t, u);
    attach(u);
#endif
#ifdef CHK_HIST       /* everything a finished or aborted sequence may leave behind */
    u->ntok=v_range(0, VT100_MAXTOK);
    for (int i=0;i<VT100_MAXTOK;i++) u->tok[i]=v_u32();
    t->ntok=0;
    for (int i=0;i<VT100_MAXTOK;i++) t->tok[i]=0;
    u->osclen=v_range(0, 7);
    if (STALEOSC) { u->oscbuf=malloc(8); v_assume(u->oscbuf!=0); u->oscbuf[0]='Z'; }
    u->utf_char=v_u32();
    t->utf_char=0;
    if (q[0]<0x80) u->utf_count=v_range(0,5), t->utf_count=0;
#endif
    for (int i=0;i<N;i++) if (issym(i)) { q[i]=v_u8(); v_assume(q[i]>=0x20 && q[i]!=0x7f && q[i]<=MAXB); }
#ifdef SYMCOND
    v_assume(SYMCOND(q[0]));
#endif
    S b; snap(&b, t);
#ifdef CHK_SPLIT
    cur=0; tty_write(t, (char*)q, N);
    cur=1;
    tty_write(u, (char*)q, 0);
    for (int i=0;i<N;i++)
    {
        tty_write(u, (char*)q+i, 1);
        tty_write(u, (char*)q+i+1, 0);
    }
    same_tty(t, u, "");
    v_assert(t->utf_count==u->utf_count && t->utf_surrogate==u->utf_surrogate, "same decoder state");
    v_assert(!t->utf_count || t->utf_char==u->utf_char, "same partial character");
    if (t->state!=ST_GROUND)
    {
        v_assert(t->ntok==u->ntok, "same number of parameters");
        for (int i=0;i<VT100_MAXTOK;i++) v_assert(i>t->ntok || t->tok[i]==u->tok[i], "same parameters");
        v_assert(!!t->oscbuf==!!u->oscbuf, "same string");
        if (t->oscbuf)
        {
            v_assert(t->osclen==u->osclen, "same string length");
            for (int i=0;i<8;i++) v_assert(i>=t->osclen || t->oscbuf[i]==u->oscbuf[i], "same string contents");
        }
    }
    v_assert(ev[0].n_char==ev[1].n_char && ev[0].n_comb==ev[1].n_comb && ev[0].n_clear==ev[1].n_clear && ev[0].n_scroll==ev[1].n_scroll
        && ev[0].n_osc==ev[1].n_osc && ev[0].n_bell==ev[1].n_bell && ev[0].n_flag==ev[1].n_flag && ev[0].x==ev[1].x, "same events");
#endif
#ifdef CHK_HIST
    cur=0; tty_write(t, (char*)q, N);
    cur=1; tty_write(u, (char*)q, N);
    same_tty(t, u, "");
    v_assert(t->state==ST_GROUND, "the sequence is over");
    v_assert(ev[0].n_osc==ev[1].n_osc && ev[0].n_char==ev[1].n_char, "same events");
# ifdef OSCLEN
    v_assert(osc_len==OSCLEN, "the string is that of this sequence");
# endif
#endif
#ifdef CHK_NOP
    S a;
# ifdef STEPS
    for (int i=0;i<N;i++)
    {
        static const int steps[]={STEPS};
        tty_write(t, (char*)q+i, 1);
        v_assert(t->state==steps[i], "parser state");
        t->state=steps[i];
    }
# else
    tty_write(t, (char*)q, N);
# endif
    snap(&a, t);
    v_assert(same_cells(&a, &b) && same_rest(&a, &b) && a.cx==b.cx && a.cy==b.cy && a.attr==b.attr && t->sx==TSX && t->sy==TSY, "the sequence has no effect");
    v_assert(t->state==ST_GROUND, "the sequence is over");
    v_assert(!ev[0].n_char && !ev[0].n_scroll && !ev[0].n_clear && !ev[0].n_bell, "nothing is shown");
# ifdef TITLE
    v_assert(t->title && t->title[0]=='a' && t->title[3]==0, "the title stays");
# endif
#endif
#ifdef CHK_TITLE      /* STEPS: parser state after each byte; TSTART, TLEN: the text within q */
    for (int i=0;i<N;i++)
    {
        static const int steps[]={STEPS};
        tty_write(t, (char*)q+i, 1);
        v_assert(t->state==steps[i], "parser state while within a string");
        t->state=steps[i];
        /* not affected by a string: asserted below, kept simple here */
    }
    S a; snap(&a, t);
    v_assert(same_cells(&a, &b) && same_rest(&a, &b) && a.cx==b.cx && a.cy==b.cy && a.attr==b.attr, "the string changes nothing but the title");
    v_assert(ev[0].n_osc==NOSC, "one event per string");
# if NOSC
    v_assert(osc_cmd==CMD, "the event has the right command");
    v_assert(osc_len==TLEN, "the event has the whole string");
    for (int i=0;i<TLEN;i++) v_assert((unsigned char)osc_str[i]==q[TSTART+i], "the event has the exact string");
# endif
# if SETS==1
    v_assert(t->title || !TLEN, "there is a title");
    if (t->title)
    {
        for (int i=0;i<TLEN;i++) v_assert((unsigned char)t->title[i]==q[TSTART+i], "the title is the string");
        v_assert(t->title[TLEN]==0, "the title is as long as the string");
    }
# elif SETS==0
    v_assert(t->title && t->title[0]=='a' && t->title[1]=='b' && t->title[2]=='c' && t->title[3]==0, "the title stays");
# endif
#endif
    v_reach("end");
#ifdef HOOKMALLOC
    tty_free(t);
    v_assert(live==0, "nothing leaks once the terminal is freed");
#endif
}
