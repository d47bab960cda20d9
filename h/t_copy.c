/* tty_copy: an equal, independent terminal without listeners; tty_reset: like new */
#include "tstate.h"
#if COMBS
# include "combs.h"
#endif
static int called;
static void e_free(tty t) { called++; }
static void e_char(tty t, int x, int y, ucs c, uint64_t a, int w) { called++; }
static void e_cursor(tty t, int x, int y) { called++; }
static int list(tty t, int c, ucs *o)
{
    int n=0; uint32_t j=t->combs? t->scr[c].comb : 0;
    for (int i=0;i<4;i++) if (j) o[n++]=t->combs[j].ch, j=t->combs[j].next;
    return n;
}
void v_main(void)
{
    tty t=tty_init(TSX, TSY, 1);
    v_assume(t!=0);
    havoc(t);
#if COMBS
    havoc_combs(t);
#endif
#ifdef TITLE
    t->title=malloc(4); v_assume(t->title!=0); t->title[0]='a'; t->title[1]='b'; t->title[2]=0;
#endif
    t->state=PRE;
#ifdef OSC
    t->state=ST_OSCSTR; t->oscbuf=malloc(8); v_assume(t->oscbuf!=0); t->osclen=2; t->oscbuf[0]='p'; t->oscbuf[1]='q';
    t->tok[0]=0;
#endif
    S b; snap(&b, t);
    ucs m[NC][4]; int mn[NC];
    for (int i=0;i<NC;i++) mn[i]=list(t, i, m[i]);
#ifdef COPY
    t->l_free=e_free; t->l_char=e_char; t->l_cursor=e_cursor;
    tty u=tty_copy(t);
    v_assert(u!=0 && u!=t, "there is a copy");
    v_assert(u->scr!=t->scr && (!t->combs || u->combs!=t->combs) && (!t->title || u->title!=t->title) && (!t->oscbuf || u->oscbuf!=t->oscbuf), "nothing is shared");
    S s; snap(&s, u);
    v_assert(u->sx==TSX && u->sy==TSY && same_cells(&s, &b) && same_rest(&s, &b) && s.cx==b.cx && s.cy==b.cy && s.attr==b.attr && !!u->allow_resize, "the copy is equal");
    int ok=1;
    for (int i=0;i<NC;i++)
    {
        ucs o[4]; int n=list(u, i, o);
        ok&= n==mn[i];
        for (int k=0;k<4;k++) if (k<n) ok&= o[k]==m[i][k];
    }
    v_assert(ok, "combining marks are copied");
    v_assert(!!t->title==!!u->title, "title copied");
    if (t->title) v_assert(u->title[0]=='a' && u->title[1]=='b' && !u->title[2], "title text copied");
    v_assert(u->state==t->state && u->utf_count==t->utf_count && u->utf_char==t->utf_char && u->utf_surrogate==t->utf_surrogate, "mid-sequence state copied");
    v_assert(t->state==ST_GROUND || u->ntok==t->ntok, "parameters copied");
    for (int i=0;i<VT100_MAXTOK;i++) ok&= t->state==ST_GROUND || u->tok[i]==t->tok[i];
    v_assert(ok, "parameters copied");
    v_assert(!u->l_free && !u->l_char && !u->l_cursor && !u->l_comb && !u->l_clear && !u->l_scroll && !u->l_flag && !u->l_osc
        && !u->l_resize && !u->l_flush && !u->l_bell && !u->l_data, "the copy has no listeners");
    /* independence: use and free the copy; the original must not notice */
# ifdef OSC
    tty_write(u, "r\007", 2);
    v_assert(u->title && u->title[0]=='p' && u->title[1]=='q' && u->title[2]=='r' && !u->title[3], "a string begun before the copy continues in it");
    v_assert(t->oscbuf && t->oscbuf[0]=='p' && t->osclen==2, "but not in the original");
# else
    for (int i=0;i<NC;i++) u->scr[i].ch='#', u->scr[i].attr=0;
#  if COMBS
    u->combs[1].ch='#';
#  endif
# endif
    tty_free(u);
    snap(&s, t);
    v_assert(!called, "the copy calls no listener of the original");
    v_assert(same_cells(&s, &b) && same_rest(&s, &b), "the original is unaffected");
    for (int i=0;i<NC;i++)
    {
        ucs o[4]; int n=list(t, i, o);
        ok&= n==mn[i];
        for (int k=0;k<4;k++) if (k<n) ok&= o[k]==m[i][k];
    }
    v_assert(ok, "its marks are unaffected");
    if (t->title) v_assert(t->title[0]=='a', "its title is unaffected");
#else
# ifdef VIAESC
    t->state=ST_PAR; t->ntok=0;
    tty_write(t, "c", 1);
# else
    tty_reset(t);
# endif
    int cp=t->cp437;
    tty n=tty_init(TSX, TSY, 1);
    v_assume(n!=0);
    S s, w; snap(&s, t); snap(&w, n);
    s.cp437=w.cp437; s.save_attr=w.save_attr;
    v_assert(same_cells(&s, &w), "reset: blank screen");
    v_assert(s.cx==0 && s.cy==0 && s.attr==w.attr, "reset: cursor home, default attributes");
    v_assert(same_rest(&s, &w), "reset: all modes as in a new terminal");
    v_assert(t->state==ST_GROUND && t->utf_count==0, "reset: nothing pending");
    v_assert(t->sx==TSX && t->sy==TSY, "reset keeps the size");
    for (int i=0;i<NC;i++) v_assert(!t->scr[i].comb, "reset: no marks");
# if COMBS
    inv_combs(t, 2*NCMB);
# endif
    /* ESC 8 restores power-on defaults, too */
    tty_write(t, "\x1b" "8", 2);
    tty_write(n, "\x1b" "8", 2);
    snap(&s, t); snap(&w, n);
    v_assert(s.cx==w.cx && s.cy==w.cy && s.attr==w.attr && s.G==w.G && s.curG==w.curG, "reset: saved state as in a new terminal");
#endif
    v_reach("end");
}
