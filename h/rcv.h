/* The receiving terminal: interprets what is written to a FILE (formats with symbolic
   arguments included) and keeps its screen R in the reference model. */
#include <stdarg.h>
#include <stdio.h>
#include <wchar.h>
static S R;
static int q_st, q_np, q_p[3], q_osc, q_sgr, q_type, q_bell, q_title_len, q_so, q_bad, q_flush;
static char q_title[8];
static uint64_t q_tent; static unsigned q_cur, q_rgb;
static int q_sgrbad;
static int q_reject_wide;     /* a locale that can't show anything but ASCII */
static void sgr1(unsigned v)
{
    uint64_t a=q_tent;
    if (q_sgr==1) { q_sgr= v==5? 2 : v==2? 3 : 0; return; }
    if (q_sgr==2 || q_sgr==5)
    {
        uint32_t c= q_sgr==2? (VT100_COLOR_256<<24 | (v&0xff)) : (VT100_COLOR_RGB<<24 | q_rgb<<8 | (v&0xff));
        q_tent= q_type==38? (a&~0x3ffffffULL)|c : (a&~(0x3ffffffULL<<32))|(uint64_t)c<<32;
        q_sgr=0; return;
    }
    if (q_sgr==3) { q_rgb=v&0xff; q_sgr=4; return; }
    if (q_sgr==4) { q_rgb=q_rgb<<8|(v&0xff); q_sgr=5; return; }
    if (v==0) a=0;
    else if (v==1) a=(a|VT100_ATTR_BOLD)&~(uint64_t)VT100_ATTR_DIM;
    else if (v==2) a=(a|VT100_ATTR_DIM)&~(uint64_t)VT100_ATTR_BOLD;
    else if (v==3) a|=VT100_ATTR_ITALIC;
    else if (v==4) a|=VT100_ATTR_UNDERLINE;
    else if (v==5) a|=VT100_ATTR_BLINK;
    else if (v==7) a|=VT100_ATTR_INVERSE;
    else if (v==9) a|=VT100_ATTR_STRIKE;
    else if (v>=30 && v<=37) a=(a&~0x3ffffffULL)|VT100_COLOR_16<<24|(v-30);
    else if (v>=40 && v<=47) a=(a&~(0x3ffffffULL<<32))|(uint64_t)(VT100_COLOR_16<<24|(v-40))<<32;
    else if (v==39) a=a&~0x3ffffffULL;
    else if (v==49) a=a&~(0x3ffffffULL<<32);
    else if (v==38 || v==48) q_sgr=1, q_type=v;
    else q_sgrbad=1;
    q_tent=a;
}
static void q_sep(void)
{
    if (q_np==0) q_p[0]=q_cur; else if (q_np==1) q_p[1]=q_cur; else if (q_np==2) q_p[2]=q_cur;
    sgr1(q_cur);
    q_np++; q_cur=0;
}
static int q_lim(int x, int lo, int hi) { return x<lo? lo : x>hi? hi : x; }
static void q_num(unsigned v)
{
    if (q_st!=2) { q_bad|= q_st==0; return; }
    unsigned m= v<10? 10 : v<100? 100 : v<1000? 1000 : 10000;
    q_cur= q_cur? q_cur*m+v : v;
}
static void q_print(ucs c)
{
    r_put(&R, c, v_width(c));
}
static void q_char(int c)
{
    if (q_st==0)
    {
        if (c==27) q_st=1;
        else if (c==7) q_bell++;
        else if (c==14) q_so=1;
        else if (c==15) q_so=0;
        else if (c>=0x20 && c!=0x7f) q_print(c);
        else q_bad=1;
    }
    else if (q_st==1)
    {
        q_st=0;
        if (c=='[') q_st=2, q_np=0, q_p[0]=q_p[1]=q_p[2]=0, q_cur=0, q_tent=R.attr, q_sgr=0, q_sgrbad=0;
        else if (c==']') q_st=3, q_title_len=0;
        else if (c=='c')
        {
            R.attr=0; R.cx=R.cy=0; R.s1=0; R.s2=TSY; R.wrap=1; r_blank(&R, 0, NC);
        }
        else if (c!='\\') q_bad=2;
    }
    else if (q_st==2)
    {
        if (c>='0' && c<='9') q_cur=q_cur*10+c-'0';
        else if (c==';') q_sep();
        else
        {
            q_sep();
            q_st=0;
            int n=q_p[0], x=R.cx<TSX?R.cx:TSX-1;
            if (c=='m') { q_bad|=q_sgrbad||q_sgr||q_np>VT100_MAXTOK; R.attr=q_tent; }
            else if (c=='f' || c=='H') R.cy=q_lim(n-1, 0, TSY-1), R.cx=q_lim(q_p[1]-1, 0, TSX-1);
            else if (c=='J')
            {
                if (n==0) r_blank(&R, R.cy*TSX+x, NC);
                else if (n==1) r_blank(&R, 0, R.cy*TSX+x+1);
                else r_blank(&R, 0, NC);
                orphans(&R);
            }
            else if (c=='K')
            {
                if (n==0) r_blank(&R, R.cy*TSX+x, R.cy*TSX+TSX);
                else if (n==1) r_blank(&R, R.cy*TSX, R.cy*TSX+x+1);
                else r_blank(&R, R.cy*TSX, R.cy*TSX+TSX);
                orphans(&R);
            }
            else if (c=='X')
            {
                if (n<1) n=1;
                r_blank(&R, R.cy*TSX+x, R.cy*TSX+q_lim(x+n, 0, TSX));
                orphans(&R);
            }
            else if (c=='r')
            {
                int top=n? n : 1, bot= q_p[1]? q_p[1] : TSY;
                if (top<bot && bot<=TSY) R.s1=top-1, R.s2=bot, R.cx=R.cy=0;
                else q_bad= q_bad || top!=bot || bot>TSY;
            }
            else if (c=='M' || c=='L')
            {
                if (n<1) n=1;
                if (R.cy>=R.s1 && R.cy<R.s2) r_scroll(&R, R.cy, R.s2, c=='M'? n : -n);
            }
            else if (c=='t') ;
            else q_bad=3;
        }
    }
    else
    {
        if (c==27) q_st=1;
        else if (c==7) q_st=0;
        else { if (q_title_len<8) q_title[q_title_len]=c; q_title_len++; }
    }
}
int v_fprintf(FILE *f, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int r=1;
    for (;*fmt;fmt++)
    {
        if (*fmt!='%') { q_char((unsigned char)*fmt); continue; }
        fmt++;
        if (*fmt=='d' || *fmt=='u') q_num(va_arg(ap, unsigned));
        else if (*fmt=='s') { const char *s=va_arg(ap, const char*); for (int i=0;i<8 && s[i];i++) q_char((unsigned char)s[i]); }
        else if (*fmt=='c') { int c=va_arg(ap, int); q_char(c); }
        else if (*fmt=='l' && fmt[1]=='c')
        {
            fmt++;
            unsigned c=va_arg(ap, unsigned);
            if (q_reject_wide && c>=0x80) r=-1;
            else if (q_st==0) q_print(c);
            else q_bad=4;
        }
        else q_bad=5;
    }
    va_end(ap);
    return r;
}
int v_fputs(const char *s, FILE *f) { for (int i=0;s[i];i++) q_char((unsigned char)s[i]); return 1; }
int v_putc(int c, FILE *f) { q_char(c); return c; }
int v_fflush(FILE *f) { q_flush++; return 0; }
int v_fileno(FILE *f) { return 1; }
void v_clearerr(FILE *f) {}
int v_get_tty_size(int fd, int *x, int *y) { *x=TSX; *y=TSY; return 1; }
