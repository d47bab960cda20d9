/* Resizing: the common part of the screen survives, the rest is blank. */
#include "tstate.h"
#if COMBS
# include "combs.h"
#endif
#ifdef INVONLY     /* just the invariant */
# define v_check(c,m)
#else
# define v_check(c,m) v_assert(c,m)
#endif
static int n_resize, r_x, r_y;
static void e_resize(tty t, int x, int y) { n_resize++; r_x=x; r_y=y; }
static int chainlen(tty t, uint32_t j) { int l=0; for (int i=0;i<5;i++) if (j) l++, j=t->combs[j].next; return l; }
void v_main(void)
{
    tty t=tty_init(TSX, TSY, 1);
    v_assume(t!=0);
    havoc(t);
#if COMBS
    havoc_combs(t);
#endif
    t->l_resize=e_resize;
    S b; snap(&b, t);
    ucs firstmark[NC]; int marks[NC];
    for (int i=0;i<NC;i++)
    {
        marks[i]=t->combs? chainlen(t, t->scr[i].comb) : 0;
        firstmark[i]=marks[i]? t->combs[t->scr[i].comb].ch : 0;
    }
#ifdef VIAESC
    t->allow_resize=ALLOW? ~0 : 0;
    t->state=ST_PAR; t->ntok=2; t->tok[0]=8; t->tok[1]=NSY; t->tok[2]=NSX;
# ifdef SHORT      /* missing parameters keep the old size */
    t->ntok=SHORT;
    t->tok[1]=SHORT>0?NSY:v_u32(); t->tok[2]=v_u32();
# endif
    tty_write(t, "t", 1);
    v_check(t->state==ST_GROUND, "the sequence is over");
# ifdef REFUSED
    v_check(n_resize==0, "no event for a refused resize");
# else
    v_check(n_resize==1 && r_x==NX && r_y==NY, "resize reported once, with the new size");
# endif
#else
    tty_resize(t, NSX, NSY);
#endif
    v_check(t->sx==NX && t->sy==NY, "the screen has the requested size");
    int ok=1, okblank=1, okm=1;
    for (int y=0;y<NY;y++) for (int x=0;x<NX;x++)
    {
        attrchar *a=&t->scr[y*NX+x];
        if (x<TSX && y<TSY)
        {
            rc o=b.c[y][x];
            int cut= x==NX-1 && NX<TSX && isright(b.c[y][NX<TSX?NX:0]);
            if (cut) o.ch=' ', o.attr&=~VT100_ATTR_CJK;
            ok&= a->ch==o.ch && a->attr==o.attr;
            int m=marks[y*TSX+x];
            if (cut) m=0;
            okm&= m? a->comb && chainlen(t, a->comb)==m && t->combs[a->comb].ch==firstmark[y*TSX+x] : !a->comb;
        }
        else
            okblank&= a->ch==' ' && a->attr==b.attr && !a->comb;
    }
    v_check(ok, "what fits both sizes stays in place (a cut wide character becomes a blank)");
    v_check(okblank, "new cells are blanks");
    v_check(okm, "combining marks stay with their cells");
    v_check(t->cx==(b.cx<NX?b.cx:NX) && t->cy==(b.cy<NY?b.cy:NY-1), "the cursor moves only if it has to");
    v_check(t->save_cx==(b.save_cx<NX?b.save_cx:NX) && t->save_cy==(b.save_cy<NY?b.save_cy:NY-1), "nor does the saved one");
    S a; a=b;
    v_check(t->attr==b.attr && t->save_attr==b.save_attr && t->G==b.G && t->curG==b.curG && !!t->opt_auto_wrap==b.wrap
        && !!t->opt_cursor==b.cursor && !!t->opt_kpad==b.kpad && !!t->cp437==b.cp437, "modes survive");
    if (NX!=TSX || NY!=TSY)
        v_check(t->s1==0 && t->s2==NY, "the scrolling region is the whole screen");
    inv_screen_n(t, NX, NY);
#if COMBS
    inv_combs_n(t, NX*NY, 2*NCMB);
#endif
    v_reach("end");
}
