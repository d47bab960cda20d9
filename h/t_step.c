/* One step of the terminal from an arbitrary valid state.
   -DPRE=<state code>  parser state before the byte
   -DBYTE=<value> or -DCLASS(b)=<predicate on unsigned byte b>
   -DNTOK=<n>     parameters present (default: any)
   -DOP_<x>       reference operation (with CHK_REF)
   -DCHK_REF      compare the whole screen and state with the reference
   -DCHK_INV      structural invariants
   -DCHK_EV       listener events alone suffice to mirror the screen
*/
#if defined PR_ASCII || defined PR_UTF
# define UTF8ONLY
#endif
#include "refterm.h"
#ifndef MAXP
# define MAXP 99999
#endif
#ifdef CHK_EV
# include "mirror.h"
#endif
#if defined COMBS && COMBS>0
# include "combs.h"
#endif

static S r;          /* reference */
static uint32_t p0, p1; static int np;

static int P1(uint32_t p) { return p? (int)p : 1; }
static int clampi(int x, int lo, int hi) { return x<lo? lo : x>hi? hi : x; }

static void ref_op(ucs c, int w)
{
#if defined OP_PRINT
    r_put(&r, c, w);
#elif defined OP_BS
    if (r.cx>0) r.cx--;
#elif defined OP_TAB
    if (r.cx<TSX)
    {
        int to=clampi((r.cx/8+1)*8, 0, TSX);
        r_blank(&r, r.cy*TSX+r.cx, r.cy*TSX+to);
        r.cx=to;
        orphans(&r);
    }
#elif defined OP_NEL
    r.cx=0; r_down(&r);
#elif defined OP_IND
    r_down(&r);
#elif defined OP_RI
    r_up(&r);
#elif defined OP_FF
    r.cx=r.cy=0; r_blank(&r, 0, NC);
#elif defined OP_CR
    r.cx=0;
#elif defined OP_SO
    r.curG=1;
#elif defined OP_SI
    r.curG=0;
#elif defined OP_NOP
#elif defined OP_SC
    r.save_cx=r.cx; r.save_cy=r.cy; r.save_attr=r.attr; r.save_G=r.G; r.save_curG=r.curG;
#elif defined OP_RC
    r.cx=r.save_cx; r.cy=r.save_cy; r.attr=r.save_attr; r.G=r.save_G; r.curG=r.save_curG;
#elif defined OP_KPAM
    r.kpad=1;
#elif defined OP_KPNM
    r.kpad=0;
#elif defined OP_CUB
    r.cx=clampi(r.cx-P1(p0), 0, TSX);
#elif defined OP_CUF
    r.cx=clampi(r.cx+P1(p0), 0, TSX);
#elif defined OP_CUU
    r.cy=clampi(r.cy-P1(p0), 0, TSY-1);
#elif defined OP_CPL
    r.cx=0; r.cy=clampi(r.cy-P1(p0), 0, TSY-1);
#elif defined OP_CUD
    r.cy=clampi(r.cy+P1(p0), 0, TSY-1);
#elif defined OP_CNL
    r.cx=0; r.cy=clampi(r.cy+P1(p0), 0, TSY-1);
#elif defined OP_CUP
    r.cy=clampi((int)p0-1, 0, TSY-1);
    r.cx=np>1? clampi((int)p1-1, 0, TSX-1) : 0;
#elif defined OP_CHA
    r.cx=clampi((int)p0-1, 0, TSX-1);
#elif defined OP_VPA
    r.cy=clampi((int)p0-1, 0, TSY-1);
#elif defined OP_STBM
    {
        int top=p0? p0 : 1, bot=np>1&&p1? p1 : TSY;
        if (top<bot && bot<=TSY)
            r.s1=top-1, r.s2=bot, r.cx=0, r.cy=r.s1;
    }
#elif defined OP_ED
    if (p0==0) r_blank(&r, r.cy*TSX+r.cx, NC);
    else if (p0==1) r_blank(&r, 0, r.cy*TSX+(r.cx<TSX?r.cx+1:TSX));
    else if (p0==2) r_blank(&r, 0, NC);
    orphans(&r);
#elif defined OP_EL
    if (p0==0) r_blank(&r, r.cy*TSX+r.cx, (r.cy+1)*TSX);
    else if (p0==1) r_blank(&r, r.cy*TSX, r.cy*TSX+(r.cx<TSX?r.cx+1:TSX));
    else if (p0==2) r_blank(&r, r.cy*TSX, (r.cy+1)*TSX);
    orphans(&r);
#elif defined OP_IL
    if (r.cy>=r.s1 && r.cy<r.s2) r_scroll(&r, r.cy, r.s2, -P1(p0));
#elif defined OP_DL
    if (r.cy>=r.s1 && r.cy<r.s2) r_scroll(&r, r.cy, r.s2, P1(p0));
#elif defined OP_ICH || defined OP_DCH
    {
        int n=clampi(P1(p0), 0, TSX-r.cx);
        /* a wide pair straddling the cursor, or the edge of what gets deleted,
           falls apart before the move */
        for (int y=0;y<TSY;y++) if (y==r.cy)
        {
            rc o[TSX], v;
            for (int x=0;x<TSX;x++) o[x]=r.c[y][x];
            if (n>0)
            {
                for (int x=0;x<TSX;x++)
                {
                    int cut= x==r.cx;
# ifdef OP_DCH
                    cut|= x==r.cx+n;
# endif
                    if (cut && isright(o[x]))
                    {
                        o[x].ch=' ', o[x].attr&=~VT100_ATTR_CJK;
                        if (x>0) o[x-1].ch=' ', o[x-1].attr&=~VT100_ATTR_CJK;
                    }
                }
                for (int x=0;x<TSX;x++)
                {
                    v=o[x];
# ifdef OP_ICH
                    int from= x<r.cx? x : x<r.cx+n? -1 : x-n;
# else
                    int from= x<r.cx? x : x+n<TSX? x+n : -1;
# endif
                    if (from<0) v.ch=' ', v.attr=r.attr;
                    for (int k=0;k<TSX;k++) if (k==from) v=o[k];
                    r.c[y][x]=v;
                }
            }
        }
        orphans(&r);
    }
#elif defined OP_ECH
    {
        int n=clampi(P1(p0), 0, TSX-r.cx);
        r_blank(&r, r.cy*TSX+r.cx, r.cy*TSX+r.cx+n);
        orphans(&r);
    }
#elif defined OP_WRAPON
    r.wrap=1;
#elif defined OP_WRAPOFF
    r.wrap=0;
#elif defined OP_CURON
    r.cursor=1;
#elif defined OP_CUROFF
    r.cursor=0;
#elif defined OP_G0GRAPH
    r.G|=1;
#elif defined OP_G0TEXT
    r.G&=~1;
#elif defined OP_G1GRAPH
    r.G|=2;
#elif defined OP_G1TEXT
    r.G&=~2;
#elif defined OP_UTF
    r.cp437=0;
#elif defined OP_437
    r.cp437=1;
#endif
}

void v_main(void)
{
    tty t=tty_init(TSX, TSY, 1);
    v_assume(t!=0);
    havoc(t);
#ifdef COMBS
# if COMBS>0
    havoc_combs(t);
# endif
#endif
    t->state=PRE;
#ifdef NORESIZE
    t->allow_resize=0;
#endif
#ifdef OSCBUF
    t->oscbuf=malloc(OSCBUF); v_assume(t->oscbuf!=0);
    t->osclen=v_range(0, OSCBUF-1);
#endif
#ifdef TITLE
    t->title=malloc(4); v_assume(t->title!=0);
    strcpy(t->title, "abc");
#endif
    unsigned char b;
    ucs c=0; int w=0;
#ifdef BYTE
    b=BYTE;
#else
    b=v_u8();
    v_assume(CLASS(b));
#endif
#ifdef NTOK
    t->ntok=NTOK;
#endif
#ifdef TOK0
    t->tok[0]=TOK0;
#endif
#ifdef CHK_REF
    np=t->ntok+1; p0=t->tok[0]; p1=t->tok[1];
    v_assume(p0<=MAXP && p1<=MAXP);
#endif
#if defined PR_ASCII          /* printable ASCII, text charset */
    v_assume(!(t->G>>t->curG&1));
    c=b; w=1;
#elif defined PR_CP437
    t->cp437=1; v_assume(!(t->G>>t->curG&1) || b>=0x80);
    extern unsigned short charset_cp437[256];
    c=charset_cp437[b];
    w=1;
    v_assume(c>=128 || !(t->G>>t->curG&1));
#elif defined PR_UTF          /* last byte of a multi-byte character */
    t->utf_count=1;
    c=v_u32();
    v_assume(c>=0xa0 && c<=0x10ffff && !(c>=0xd800 && c<=0xdfff) && !(c>=0xfdd0 && c<0xfdf0) && (c&0xffff)<0xfffe && c!=0xfeff);
    t->utf_char=c>>6;
    v_assume(b==(0x80|(c&0x3f)));
    w=v_width(c);
    v_assume(w==PR_UTF);
#endif
#ifdef EXTRA
    v_assume(EXTRA);
#endif
    snap(&r, t);
#ifdef CHK_EV
    mirror_attach(t, &r);
#endif
    tty_write(t, (char*)&b, 1);
#ifdef CHK_INV
    inv_screen(t);
# if defined COMBS && COMBS>0
    inv_combs(t, 2*NCMB);
# endif
    v_assert(t->utf_count>=0 && t->utf_count<=5, "INV pending UTF-8 bytes in range");
# ifdef OSCBUF
    v_assert(!t->oscbuf || t->state!=ST_OSCSTR || (t->osclen>=0 && t->osclen<OSCBUF), "INV string length within its buffer");
# endif
    v_assert(t->ntok>=0 && (t->ntok<VT100_MAXTOK || t->state==ST_GROUND), "INV parser parameter count in range");
#endif
#ifdef CHK_EV
    mirror_check(t, &r);
#endif
#ifdef CHK_REF
    ref_op(c, w);
    S a; snap(&a, t);
    v_assert(same_cells(&a, &r), "screen contents as specified");
    v_assert(a.cx==r.cx && a.cy==r.cy, "cursor position as specified");
    v_assert(a.attr==r.attr, "current attributes as specified");
    v_assert(same_rest(&a, &r), "rest of the terminal state as specified");
    v_assert(t->state==POST, "parser state after the sequence");
#endif
    v_reach("end");
}
