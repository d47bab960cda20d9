/* SGR: the attribute is a function of the old attribute and the parameters. */
#include "tstate.h"
#ifndef NP
# define NP 4
#endif
static uint64_t fg(uint64_t a, int type, uint32_t v) { return (a&~0x3ffffffULL) | (uint64_t)type<<24 | (v&0xffffff); }
static uint64_t bg(uint64_t a, int type, uint32_t v) { return (a&~(0x3ffffffULL<<32)) | ((uint64_t)type<<24 | (v&0xffffff))<<32; }
static uint64_t sgr(uint64_t a, const uint32_t *p, int n)
{
    int skip=0;
    for (int i=0;i<n;i++)
    {
        if (skip) { skip--; continue; }
        uint32_t v=p[i];
        if (v==0) a=0;
        else if (v==1) a=(a|VT100_ATTR_BOLD)&~(uint64_t)VT100_ATTR_DIM;
        else if (v==2) a=(a|VT100_ATTR_DIM)&~(uint64_t)VT100_ATTR_BOLD;
        else if (v==3) a|=VT100_ATTR_ITALIC;
        else if (v==4) a|=VT100_ATTR_UNDERLINE;
        else if (v==5) a|=VT100_ATTR_BLINK;
        else if (v==7) a|=VT100_ATTR_INVERSE;
        else if (v==9) a|=VT100_ATTR_STRIKE;
        else if (v==21 || v==22) a&=~(uint64_t)(VT100_ATTR_BOLD|VT100_ATTR_DIM);
        else if (v==23) a&=~(uint64_t)VT100_ATTR_ITALIC;
        else if (v==24) a&=~(uint64_t)VT100_ATTR_UNDERLINE;
        else if (v==25) a&=~(uint64_t)VT100_ATTR_BLINK;
        else if (v==27) a&=~(uint64_t)VT100_ATTR_INVERSE;
        else if (v==29) a&=~(uint64_t)VT100_ATTR_STRIKE;
        else if (v>=30 && v<=37) a=fg(a, VT100_COLOR_16, v-30);
        else if (v==39) a=fg(a, VT100_COLOR_OFF, 0);
        else if (v>=40 && v<=47) a=bg(a, VT100_COLOR_16, v-40);
        else if (v==49) a=bg(a, VT100_COLOR_OFF, 0);
        else if (v>=90 && v<=97) a=fg(a, VT100_COLOR_256, 8+v-90);
        else if (v>=100 && v<=107) a=bg(a, VT100_COLOR_256, 8+v-100);
        else if (v==38 || v==48)
        {   /* parameters that are missing count as 0 */
            uint32_t q[5]={0,0,0,0,0};
            for (int k=0;k<5;k++) if (i+k<n) q[k]=p[i+k];
            if (q[1]==5) { a= v==38? fg(a, VT100_COLOR_256, q[2]) : bg(a, VT100_COLOR_256, q[2]); skip=2; }
            else if (q[1]==2)
            {
                uint32_t c=(q[2]&255)<<16|(q[3]&255)<<8|(q[4]&255);
                a= v==38? fg(a, VT100_COLOR_RGB, c) : bg(a, VT100_COLOR_RGB, c); skip=4;
            }
            else if (q[1]==3) skip=4;
            else if (q[1]==4) skip=5;
            else skip=1;
        }
    }
    return a;
}
void v_main(void)
{
    tty t=tty_init(TSX, TSY, 1);
    v_assume(t!=0);
    havoc(t);
    t->state=ST_PAR;
    t->ntok=v_range(0, NP-1);
#ifdef NPFIX
    t->ntok=NP-1;
#endif
    uint32_t p[16];
    for (int i=0;i<16;i++)
    {
        p[i]=0;
        if (i<NP) { p[i]=v_u32(); if (i>t->ntok) p[i]=0; v_assume(p[i]<=MAXP); }
#ifdef FIXP
        static const int fixp[16]={FIXP};
        if (i<NP && fixp[i]) { v_assume(p[i]==fixp[i]); p[i]=fixp[i]; }
#endif
        t->tok[i]=p[i];
    }
    int n=t->ntok+1;
    S b, a; snap(&b, t);
    uint64_t want=sgr(b.attr, p, n);
    tty_write(t, "m", 1);
    snap(&a, t);
    v_assert(a.attr==want, "SGR: attributes as specified");
    v_assert(same_cells(&a, &b) && same_rest(&a, &b) && a.cx==b.cx && a.cy==b.cy, "SGR changes nothing else");
    v_assert(t->state==ST_GROUND, "SGR ends the sequence");
    v_reach("end");
}
