/* Reference semantics of the terminal operations, over S. */
#include "tstate.h"
static void orphans(S *s)
{
    for (int y=0;y<TSY;y++)
    {
        rc n[TSX];
        for (int x=0;x<TSX;x++)
        {
            rc a=s->c[y][x];
            int bad=0;
            if (isright(a)) bad= x==0 || !isleft(s->c[y][x-1]);
            else if (isleft(a)) bad= x==TSX-1 || !isright(s->c[y][x+1]);
            if (bad) a.ch=' ', a.attr&=~VT100_ATTR_CJK;
            n[x]=a;
        }
        for (int x=0;x<TSX;x++) s->c[y][x]=n[x];
    }
}
/* cells (linear, row-major) [from,to) become blanks of the current pen */
static void r_blank(S *s, int from, int to)
{
    for (int y=0;y<TSY;y++) for (int x=0;x<TSX;x++)
        if (y*TSX+x>=from && y*TSX+x<to)
            s->c[y][x].ch=' ', s->c[y][x].attr=s->attr;
}
/* lines top..bot-1 move up by n (down if n<0), blanks come in */
static void r_scroll(S *s, int top, int bot, int n)
{
    S o=*s;
    for (int y=0;y<TSY;y++)
        if (y>=top && y<bot)
        {
            int from=-1;
            for (int k=0;k<TSY;k++)
                if ((long)k==(long)y+n && k>=top && k<bot) from=k;
            for (int x=0;x<TSX;x++)
            {
                rc v; v.ch=' '; v.attr=s->attr;
                for (int k=0;k<TSY;k++) if (k==from) v=o.c[k][x];
                s->c[y][x]=v;
            }
        }
}
static void r_down(S *s)
{
    if (s->cy==s->s2-1) r_scroll(s, s->s1, s->s2, 1);
    else if (s->cy<TSY-1) s->cy++;
}
static void r_up(S *s)
{
    if (s->cy==s->s1) r_scroll(s, s->s1, s->s2, -1);
    else if (s->cy>0) s->cy--;
}
static void r_put(S *s, ucs c, int w)
{
    if (s->cx+w>TSX)
    {
        if (s->wrap) s->cx=0, r_down(s);
        else s->cx=TSX-w;
    }
    for (int y=0;y<TSY;y++) for (int x=0;x<TSX;x++) if (y==s->cy)
    {
        if (x==s->cx)
            s->c[y][x].ch=c, s->c[y][x].attr=s->attr|(w==2?VT100_ATTR_CJK:0);
        if (w==2 && x==s->cx+1)
            s->c[y][x].ch=VT100_CJK_RIGHT, s->c[y][x].attr=s->attr|VT100_ATTR_CJK;
    }
    s->cx+=w;
    orphans(s);
}
