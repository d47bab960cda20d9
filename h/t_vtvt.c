/* A terminal mirrored by vtvt onto a real one. */
#include "refterm.h"
#include "rcv.h"
#if COMBS
# include "combs.h"
#endif
#ifndef IX
# define IX TSX
# define IY TSY
#endif
static int canon1(uint32_t c)
{
    uint32_t t=c>>24&3, v=c&0xffffff;
    return t==0? v==0 : t==1? v<8 : t==2? v<256 : 1;
}
static int canon(uint64_t a)
{ return canon1(a) && canon1(a>>32) && !((a&VT100_ATTR_BOLD) && (a&VT100_ATTR_DIM)); }
static unsigned char q[]={SEQ};
static int dummy;
void v_main(void)
{
    tty t=tty_init(IX, IY, 0);
    v_assume(t!=0);
    FILE *f=(FILE*)&dummy;
#ifdef ODD      /* the emulated screen has another size */
    R.attr=0; R.wrap=1; R.s1=0; R.s2=TSY; R.cx=v_range(0, TSX-1); R.cy=v_range(0, TSY-1);
    for (int y=0;y<TSY;y++) for (int x=0;x<TSX;x++) R.c[y][x].ch=' ', R.c[y][x].attr=0;
    for (int y=0;y<IY;y++) for (int x=0;x<IX;x++)
    {
        attrchar *a=&t->scr[y*IX+x];
        a->ch=v_range(0x21, 0x7e); a->attr=v_range(0,1)*VT100_ATTR_BOLD;
        if (x<TSX && y<TSY) R.c[y][x].ch=a->ch, R.c[y][x].attr=a->attr;
    }
    t->cx=FIX_CX; t->cy=FIX_CY; t->attr=v_range(0,1)*VT100_ATTR_INVERSE;
#else
    havoc(t);
    v_assume(canon(t->attr) && canon(t->save_attr));
    for (int i=0;i<NC;i++) v_assume(canon(t->scr[i].attr&~VT100_ATTR_CJK));
# if COMBS
    havoc_combs(t);
# endif
    snap(&R, t);
    R.attr=0; R.s1=0; R.s2=TSY; R.wrap=1; R.cx=t->cx<TSX? t->cx : TSX-1; R.cy=t->cy;
#endif
#if DUMP
# ifdef PLAINATTR
    for (int i=0;i<NC;i++) v_assume(!(t->scr[i].attr&~(VT100_ATTR_BOLD|VT100_ATTR_CJK)));
# endif
    for (int y=0;y<TSY;y++) for (int x=0;x<TSX;x++) R.c[y][x].ch=v_u32()%2?'#':'@', R.c[y][x].attr=0;
    R.s1=v_range(0,TSY-2); R.s2=TSY;
    vtvt_attach(t, f, 1);
    v_assert(q_flush==1, "the dump is flushed");
#else
    vtvt_attach(t, f, 0);
# ifdef REJECT
    q_reject_wide=1;
# endif
# ifdef PRE
    t->state=PRE;
# endif
    tty_write(t, (char*)q, sizeof q);
    v_assert(q_flush==1, "a write is flushed");
#endif
    v_assert(!q_bad && q_st==0, "only complete, well-known sequences are written");
    int ok=1;
    for (int y=0;y<TSY && y<IY;y++) for (int x=0;x<TSX && x<IX;x++)
    {
        attrchar *a=&t->scr[y*IX+x];
#ifdef REJECT
        if (y!=t->cy || x!=REJX) continue;
        ok&= R.c[y][x].ch=='?';
#else
        ok&= R.c[y][x].ch==a->ch;
#endif
        ok&= (R.c[y][x].attr&PEN_ATTRS)==(a->attr&PEN_ATTRS);
    }
#ifndef NOCONTENT
    v_assert(ok, "the real terminal shows what the emulated one does");
#endif
    int wx=t->cx<TSX? t->cx : TSX-1, rx=R.cx<TSX? R.cx : TSX-1;
    int wy=t->cy<TSY? t->cy : TSY-1;
#ifndef NOCURSOR
    v_assert(rx==wx && R.cy==wy, "its cursor is where it should be");
#endif
    v_assert(R.s1==0 && R.s2==TSY, "no scrolling region is left behind");
#ifdef BELL
    v_assert(q_bell==1, "bell passed on");
#endif
#ifdef TITLELEN
    v_assert(q_title_len==TITLELEN+2 && q_title[0]=='0' && q_title[1]==';' && q_title[2]=='x', "the title is passed on");
#endif
    v_reach("end");
}
