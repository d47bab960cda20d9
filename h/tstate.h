/* Arbitrary valid terminal states (pre-states), snapshots and invariants. */
#ifndef TSTATE_H
#define TSTATE_H
#include "v.h"
#include <stdlib.h>
#include <string.h>
#include "tty.h"
#ifndef TSX
# define TSX 4
#endif
#ifndef TSY
# define TSY 3
#endif
#define NC (TSX*TSY)
#define PEN_ATTRS 0x0fffffff7fffffffULL     /* every bit a pen can carry */
int v_width(ucs c);                          /* model of mk_wcwidth, proven equal to it by C14 */

typedef struct { ucs ch; uint64_t attr; } rc;
typedef struct
{
    rc c[TSY][TSX];
    int cx, cy, s1, s2, save_cx, save_cy;
    uint64_t attr, save_attr;
    int G, curG, save_G, save_curG, cp437, wrap, cursor, kpad;
} S;

static int isleft(rc a)  { return (a.attr&VT100_ATTR_CJK) && a.ch!=VT100_CJK_RIGHT; }
static int isright(rc a) { return a.ch==VT100_CJK_RIGHT; }

/* the visible + saved state of a real terminal */
static void snap(S *s, tty t)
{
    for (int y=0;y<TSY;y++) for (int x=0;x<TSX;x++)
    {
        s->c[y][x].ch=t->scr[y*TSX+x].ch;
        s->c[y][x].attr=t->scr[y*TSX+x].attr;
    }
    s->cx=t->cx; s->cy=t->cy; s->s1=t->s1; s->s2=t->s2;
    s->save_cx=t->save_cx; s->save_cy=t->save_cy;
    s->attr=t->attr; s->save_attr=t->save_attr;
    s->G=t->G; s->curG=t->curG; s->save_G=t->save_G; s->save_curG=t->save_curG;
    s->cp437=!!t->cp437; s->wrap=!!t->opt_auto_wrap; s->cursor=!!t->opt_cursor; s->kpad=!!t->opt_kpad;
}
/* cells as seen by a user: character, colours, attributes */
static int same_cells(const S *a, const S *b)
{
    int ok=1;
    for (int y=0;y<TSY;y++) for (int x=0;x<TSX;x++)
        ok&=a->c[y][x].ch==b->c[y][x].ch && a->c[y][x].attr==b->c[y][x].attr;
    return ok;
}
static int same_rest(const S *a, const S *b)
{
    return a->s1==b->s1 && a->s2==b->s2 && a->save_cx==b->save_cx && a->save_cy==b->save_cy
        && a->save_attr==b->save_attr && a->G==b->G && a->curG==b->curG && a->save_G==b->save_G
        && a->save_curG==b->save_curG && a->cp437==b->cp437 && a->wrap==b->wrap
        && a->cursor==b->cursor && a->kpad==b->kpad;
}
#ifndef WIDE
# define WIDE 1
#endif
/* put the terminal into an arbitrary valid state (no combining marks) */
static void havoc(tty t)
{
    for (int y=0;y<TSY;y++)
    {
        int right=0;
        for (int x=0;x<TSX;x++)
        {
            attrchar *a=&t->scr[y*TSX+x];
            uint64_t at=v_u64()&PEN_ATTRS;
            ucs c=v_u32();
            int wide=WIDE && !right && x<TSX-1 && v_bool();
            if (right)
                c=VT100_CJK_RIGHT, at=a[-1].attr;
            else if (wide)
                { v_assume(c>=0x4e00 && c<=0x9fff); at|=VT100_ATTR_CJK; }
            else
                v_assume((c>=0x20 && c<=0x7e) || (c>=0x2500 && c<=0x25ff));
            a->ch=c; a->attr=at; a->comb=0;
            right=wide;
        }
    }
    t->attr=v_u64()&PEN_ATTRS;
#ifdef FIX_CX
    t->cx=FIX_CX;
#else
    t->cx=v_range(0,TSX);
#endif
#ifdef FIX_CY
    t->cy=FIX_CY;
#else
    t->cy=v_range(0,TSY-1);
#endif
#ifdef FIX_S1
    t->s1=FIX_S1; t->s2=FIX_S2;
#else
    t->s1=v_range(0,TSY-1); t->s2=v_range(1,TSY); v_assume(t->s1<t->s2-1 || TSY==1);
#endif
    t->save_cx=v_range(0,TSX); t->save_cy=v_range(0,TSY-1);
    t->save_attr=v_u64()&PEN_ATTRS;
    t->G=v_u64()&3; t->curG=v_bool(); t->save_G=v_u64()&3; t->save_curG=v_bool();
    /* CBMC does not propagate constants through bit-fields: leave the one tty_init() set */
#ifndef UTF8ONLY
    t->cp437=v_bool();
#endif
#ifndef WRAPONLY
    t->opt_auto_wrap=v_bool();
#endif
    t->opt_cursor=v_bool(); t->opt_kpad=v_bool();
    t->utf_count=v_range(0,5); t->utf_char=v_u32();
    t->utf_surrogate=v_u32(); v_assume(t->utf_surrogate==0 || (t->utf_surrogate>=0xd800 && t->utf_surrogate<0xdc00));
    t->state=ST_GROUND;
    t->ntok=v_range(0,VT100_MAXTOK-1);
    for (int i=0;i<VT100_MAXTOK;i++) t->tok[i]=v_u32();
}
/* structural invariants of the screen */
static void inv_screen_n(tty t, int sx, int sy)
{
    v_assert(t->sx==sx && t->sy==sy, "INV screen size");
    v_assert(t->cx>=0 && t->cx<=sx, "INV cursor column within the screen");
    v_assert(t->cy>=0 && t->cy<sy, "INV cursor row within the screen");
    v_assert(t->s1>=0 && t->s1<t->s2 && t->s2<=sy, "INV scrolling region valid");
    v_assert(t->s2-t->s1>=2 || sy==1, "INV scrolling region of at least two lines");
    v_assert(t->save_cx>=0 && t->save_cx<=sx && t->save_cy>=0 && t->save_cy<sy, "INV saved cursor within the screen");
    v_assert(!(t->attr&~PEN_ATTRS) && !(t->save_attr&~PEN_ATTRS), "INV no stray attribute bits in the pen");
    int ok=1, oka=1;
    for (int y=0;y<sy;y++) for (int x=0;x<sx;x++)
    {
        attrchar *a=&t->scr[y*sx+x];
        int cjk=!!(a->attr&VT100_ATTR_CJK);
        oka&=!(a->attr&~(PEN_ATTRS|VT100_ATTR_CJK));
        if (a->ch==VT100_CJK_RIGHT)
            ok&= cjk && x>0 && a[-1].attr==a->attr && a[-1].ch!=VT100_CJK_RIGHT;
        else if (cjk)
            ok&= x+1<sx && a[1].ch==VT100_CJK_RIGHT && v_width(a->ch)==2;
        else
            ok&= v_width(a->ch)==1;
    }
    v_assert(ok, "INV every cell is one narrow character or half of an intact wide pair");
    v_assert(oka, "INV no stray attribute bits on the screen");
}
#define inv_screen(t) inv_screen_n(t, TSX, TSY)
#endif
