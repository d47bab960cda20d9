/* Playing asciicasts: the file is PRE, SYM symbolic bytes, POST.
   WANT: 0 nothing but sanity; 1 the symbolic bytes are within a string (of an
   event shown at TIME_S/TIME_U); 2 they are a number, the delay of an event (shown at its time plus
   PLUS seconds); 3 they are digits of the width, 4 the height, 5 the timestamp.
   EXPECT: what is shown before.  SX, SY: the size. */
#include "fio.h"
static const char pre[]=PRE, post[]=POST;
#define NP ((int)sizeof pre-1)
#define NQ ((int)sizeof post-1)
#ifndef WANT
# define WANT 0
#endif
#ifndef STRPRE  /* the beginning of the string, concrete */
# define STRPRE ""
#endif
#ifndef STRPOST
# define STRPOST ""
#endif
#ifndef EXPECT
# define EXPECT ""
#endif
#ifndef AFTER
# define AFTER ""
#endif
#ifndef SX
# define SX 80
#endif
#ifndef SY
# define SY 25
#endif
int v_sprintf(char *s, const char *fmt, ...)
{
    va_list ap; int n=0;
    va_start(ap, fmt);
    for (;*fmt;fmt++)
    {
        if (*fmt!='%') { s[n++]=*fmt; continue; }
        fmt++;
        if (*fmt=='d')
        {
            /* any fixed form will do, decimal digits make too many paths */
            unsigned u=va_arg(ap, int);
            for (int k=28;k>=0;k-=4) s[n++]='a'+(u>>k&15);
        }
        else s[n++]=*fmt;
    }
    va_end(ap);
    s[n]=0;
    return n;
}
int v_strcmp(const char *a, const char *b) { for (;*a && *a==*b;a++,b++); return (unsigned char)*a-(unsigned char)*b; }
size_t v_strlen(const char *a) { size_t n=0; while (a[n]) n++; return n; }
static const signed char hextab[256]={[0 ... 255]=-1,
 ['0']=0,['1']=1,['2']=2,['3']=3,['4']=4,['5']=5,['6']=6,['7']=7,['8']=8,['9']=9,
 ['a']=10,['b']=11,['c']=12,['d']=13,['e']=14,['f']=15,['A']=10,['B']=11,['C']=12,['D']=13,['E']=14,['F']=15};
/* without branches, which would multiply the paths */
static int hexd(unsigned char c)
{
    unsigned d=c-'0', l=(c|32)-'a', a=d<10, b=l<6;
    return (-a&d) | (-b&(l+10)) | -(1^(a|b));
}
static unsigned char O[SYM*2+sizeof STRPRE+sizeof STRPOST+4]; static int on;
static void utf(unsigned c)
{
    if (c<0x80) O[on++]=c;
    else if (c<0x800) O[on++]=0xc0|c>>6, O[on++]=0x80|c&63;
    else if (c<0x10000) O[on++]=0xe0|c>>12, O[on++]=0x80|c>>6&63, O[on++]=0x80|c&63;
    else O[on++]=0xf0|c>>18, O[on++]=0x80|c>>12&63, O[on++]=0x80|c>>6&63, O[on++]=0x80|c&63;
}
#ifdef HEX
/* exactly one \uXXXX escape, or (HEX==2) a pair; no branches */
static int string(const unsigned char *s, int n)
{
    unsigned x=0, hi=0, c; int bad= n!=6*HEX;
    for (int j=2;j<6;j++) { int h=hexd(s[j]); bad|= h<0; x=x<<4|h&15; }
# if HEX==2
    hi=x; x=0;
    for (int j=8;j<12;j++) { int h=hexd(s[j]); bad|= h<0; x=x<<4|h&15; }
    bad|= (hi<0xd800)|(hi>0xdbff)|(x<0xdc00)|(x>0xdfff);
    c=0x10000+((hi-0xd800)<<10)+(x-0xdc00);
# else
    c=x;
    bad|= (c>=0xd800)&(c<=0xdfff);
# endif
    unsigned m1=-(c<0x80), m2=-((c>=0x80)&(c<0x800)), m3=-((c>=0x800)&(c<0x10000)), m4=-(c>=0x10000), t=0x80;
    O[0]=m1&c | m2&(0xc0|c>>6) | m3&(0xe0|c>>12) | m4&(0xf0|c>>18);
    O[1]=m2&(t|c&63) | m3&(t|c>>6&63) | m4&(t|c>>12&63);
    O[2]=m3&(t|c&63) | m4&(t|c>>6&63);
    O[3]=m4&(t|c&63);
    on=1-m2-2*m3-3*m4;
    return !bad;
}
#else
/* a part of a JSON string: 1 if it is valid and complete */
static int string(const unsigned char *s, int n)
{
    unsigned hi=0;
    for (int i=0;i<n;i++)
    {
        unsigned c=s[i];
        if (c<' ' || c=='"') return 0;
        if (c!='\\') { if (hi) return 0; O[on++]=c; continue; }
        if (++i>=n) return 0;
        c=s[i];
        if (c!='u' && hi) return 0;
        if (c=='"' || c=='\\' || c=='/') O[on++]=c;
        else if (c=='b') O[on++]=8;
        else if (c=='f') O[on++]=12;
        else if (c=='n') O[on++]=10;
        else if (c=='r') O[on++]=13;
        else if (c=='t') O[on++]=9;
        else if (c=='u')
        {
            int x=0;
            if (i+4>=n) return 0;
            for (int j=1;j<=4;j++) x=x*16|hexd(s[i+j]);
            if (x<0) return 0;
            i+=4;
            if (x>=0xd800 && x<0xdc00) { if (hi) return 0; hi=x; }
            else if (x>=0xdc00 && x<0xe000)
            {
                if (!hi) return 0;
                utf(0x10000+((hi-0xd800)<<10|x-0xdc00));
                hi=0;
            }
            else { if (hi) return 0; utf(x); }
        }
        else return 0;
    }
    return !hi;
}
#endif
#ifdef PAT
/* a JSON number: PAT, with a symbolic digit for each "d"; the value in millionths */
static const char pat[]=PAT;
static long number(const unsigned char *dig)
{
    int i=0, n=0, k=0, e=0, en=0; long m=0;
    for (;pat[i]=='d' || pat[i]>='0' && pat[i]<='9';i++) m=m*10+(pat[i]=='d'? dig[n++] : pat[i]-'0');
    if (pat[i]=='.')
        for (i++;pat[i]=='d' || pat[i]>='0' && pat[i]<='9';i++, k++) m=m*10+(pat[i]=='d'? dig[n++] : pat[i]-'0');
    if (pat[i]=='e' || pat[i]=='E')
    {
        i++;
        if (pat[i]=='+' || pat[i]=='-') en= pat[i]=='-', i++;
        for (;pat[i];i++) e=e*10+pat[i]-'0';
    }
    for (int j=k;j<6;j++) m*=10;
    for (int j=0;j<e;j++) if (en) m/=10; else m*=10;
    return m;
}
#else
# define PAT ""
static const char pat[]="";
static long number(const unsigned char *dig) { return 0; }
#endif
void v_main(void)
{
    play_func *p=player("asciicast");
    v_assert(p!=0, "there's a player");
    unsigned char s[SYM+1], dig[sizeof pat];
    for (int i=0;i<SYM;i++) s[i]=v_u8();
    for (int i=0;i<NP;i++) F[fn++]=pre[i];
    for (int i=0;i<SYM;i++) F[fn++]=s[i];
    for (int i=0,n=0;i<(int)sizeof pat-1;i++)
        if (pat[i]=='d') dig[n]=v_range(0,9), F[fn++]='0'+dig[n++];
        else F[fn++]=pat[i];
    for (int i=0;i<NQ;i++) F[fn++]=post[i];
    p(THEFILE, l_init, l_wait, l_print, 0, 0);
    v_assert(!p_over && !p_badwait, "delays are sane, and not too much is played");
    v_assert(p_inits<=1, "the date is reported once");
    /* what has to be there: the size, then EXPECT, then what the symbolic bytes stand for */
    static const char expect[]=EXPECT, after[]=AFTER;
    char want[200]; int wn=0, ok=1;
    int sx=SX, sy=SY, valid=0; long num=0;
#if WANT==1
    static const char strpre[]=STRPRE, strpost[]=STRPOST;
    unsigned char s2[sizeof strpre+SYM+sizeof strpost];
    for (int i=0;i<(int)sizeof strpre-1;i++) s2[i]=strpre[i];
    for (int i=0;i<SYM;i++) s2[sizeof strpre-1+i]=s[i];
    for (int i=0;i<(int)sizeof strpost-1;i++) s2[sizeof strpre-1+SYM+i]=strpost[i];
    valid=string(s2, sizeof strpre-1+SYM+sizeof strpost-1);
#elif WANT==6
    valid= s[0]>=' ' && s[0]!='"' && s[0]!='\\';
#elif WANT>=2
    valid=1;
    num=number(dig);
    if (valid && WANT==3) sx=num/1000000;
    if (valid && WANT==4) sy=num/1000000;
#endif
#if WANT
    if (valid)
    {
        v_reach("valid");
        want[0]=0;
        wn=v_sprintf(want, "\033%%G\033[8;%d;%dt", sy, sx);
        for (int i=0;i<(int)sizeof expect-1;i++) want[wn++]=expect[i];
# if WANT==6
        if (s[0]=='o') for (int i=0;i<(int)sizeof after-1;i++) want[wn++]=after[i];
        v_assert(pn==wn && !p_msgs, "the amount shown is right");
        for (int i=0;i<PMAX;i++) ok&= (P[i]==(unsigned char)want[i])|(i>=pn);
        v_assert(ok, "output is shown, other events are not");
        v_assert(c_sec==TIME_S && c_usec==TIME_U, "at the right times");
# elif WANT==1
        v_assert((pn==wn+on)&!p_msgs, "the amount shown is right");
        for (int i=0;i<wn;i++) ok&= P[i]==(unsigned char)want[i];
        for (int i=0;i<(int)sizeof O && wn+i<PMAX;i++) ok&= (P[wn+i]==O[i])|(i>=on);
        v_assert(ok, "what is shown is what the recording says");
#  ifdef TIME_S
        v_assert(c_sec==TIME_S && c_usec==TIME_U, "at the right times");
#  endif
# elif WANT==2
        for (int i=0;i<(int)sizeof after-1;i++) want[wn++]=after[i];
        v_assert(pn==wn && !p_msgs, "the amount shown is right");
        for (int i=0;i<PMAX;i++) ok&= (P[i]==(unsigned char)want[i])|(i>=pn);
        v_assert(ok, "what is shown is what the recording says");
        v_assert(c_sec*1000000+c_usec==num+PLUS, "at the right time");
# else
        v_assert(pn==wn && !p_msgs, "the amount shown is right");
        for (int i=0;i<PMAX;i++) ok&= (P[i]==(unsigned char)want[i])|(i>=pn);
        v_assert(ok, "the size is given as in the recording");
#  if WANT==5
        v_assert(p_inits==1 && p_init.tv_sec==num/1000000 && p_init.tv_usec==0, "the date of the recording is reported");
#  endif
# endif
    }
#endif
    v_reach("end");
}
