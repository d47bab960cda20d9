/* Decoding of characters. */
#ifndef TABLES
# define UTF8ONLY
#endif
#define WRAPONLY
#include "tstate.h"
static int n_char; static ucs last_ch; static int last_w;
static void e_char(tty t, int x, int y, ucs ch, uint64_t attr, int w) { n_char++; last_ch=ch; last_w=w; }
static void e_comb(tty t, int x, int y, ucs ch, uint64_t attr) { n_char++; last_ch=ch; last_w=0; }
static void put(tty t, unsigned char b)
{
    tty_write(t, (char*)&b, 1);
    v_assert(t->state==ST_GROUND, "bytes of a character don't disturb the parser");
    t->state=ST_GROUND;
}
/* a byte that may not show anything; what it must not change is asserted, then made
   concrete again so that the following byte starts from a simple state */
static void put0(tty t, unsigned char b)
{
    put(t, b);
    v_assert(n_char==0, "nothing is shown before a character is complete");
    v_assert(t->cx==0 && t->cy==0 && !t->cp437 && t->opt_auto_wrap && t->s1==0 && t->s2==1
        && t->scr[0].ch=='x' && t->scr[1].ch=='x' && !t->scr[0].comb && !t->scr[1].comb && !t->combs,
        "an incomplete character changes nothing");
    n_char=0; t->cx=t->cy=0; t->s1=0; t->s2=1; t->combs=0;
    for (int i=0;i<2;i++) t->scr[i].ch='x', t->scr[i].comb=0;
}
static void feed(tty t, ucs c)
{
#if LEN==2
    put0(t, 0xc0|c>>6);
#elif LEN==3
    put0(t, 0xe0|c>>12); put0(t, 0x80|(c>>6&0x3f));
#elif LEN==4
    put0(t, 0xf0|c>>18); put0(t, 0x80|(c>>12&0x3f)); put0(t, 0x80|(c>>6&0x3f));
#endif
    put(t, 0x80|(c&0x3f));
}
#ifdef TABLES
# include "tables.h"
#endif
void v_main(void)
{
    tty t=tty_init(2, 1, 0);
    v_assume(t!=0);
    havoc(t);
    for (int i=0;i<2;i++) t->scr[i].ch='x', t->scr[i].attr&=PEN_ATTRS;
    t->cx=0; t->cy=0;
    t->l_char=e_char; t->l_comb=e_comb;
#ifdef LEN
    ucs c=v_u32();
    v_assume(c>=0xa0 && c<=0x10ffff && !(c>=0xd800 && c<=0xdfff) && !(c>=0xfdd0 && c<0xfdf0) && (c&0xffff)<0xfffe);
    v_assume(c!=0xfeff);
    v_assume(LEN==2? c<0x800 : LEN==3? c>=0x800 && c<0x10000 : c>=0x10000);
    int w=v_width(c);
    v_assume(w>0);
    feed(t, c);
    v_assert(n_char==1 && last_ch==c && last_w==w, "a valid UTF-8 sequence shows exactly its character");
    v_assert(t->scr[0].ch==c, "it is on the screen");
#elif defined BOM
    put0(t, 0xef); put0(t, 0xbb); put0(t, 0xbf);
    v_assert(n_char==0 && t->cx==0 && t->scr[0].ch=='x', "a byte order mark shows nothing");
#elif defined SURR          /* UTF-16 surrogate pair, each half in UTF-8 */
    ucs c=v_u32();
    v_assume(c>=0x10000 && c<=0x10ffff && (c&0xffff)<0xfffe);
    v_assume(v_width(c)>0);
    ucs h=0xd800+((c-0x10000)>>10), l=0xdc00+((c-0x10000)&0x3ff);
    put0(t, 0xed); put0(t, 0x80|(h>>6&0x3f)); put0(t, 0x80|(h&0x3f));
    put0(t, 0xed); put0(t, 0x80|(l>>6&0x3f)); put(t, 0x80|(l&0x3f));
    v_assert(n_char==1 && last_ch==c, "an encapsulated surrogate pair shows its character");
#elif defined ANYBYTE       /* any byte in any state of the decoder */
    int k=t->utf_count; ucs before=t->scr[0].ch;
    unsigned char b=v_u8();
    v_assume(b>=0x20);
    v_assume(!(t->G>>t->curG&1));
    put(t, b);
    ucs c=last_ch;
    v_assert(n_char<=1, "at most one character per byte");
    v_assert(!n_char || !((c>=0x80 && c<0xa0) || c<0x20 || c==0x7f), "never shows a control character");
    v_assert(!n_char || b<0x80 || c>=0xa0, "never shows overlong ASCII");
    v_assert(!n_char || !(c>=0xd800 && c<=0xdfff), "never shows a surrogate");
    v_assert(!n_char || (c<=0x10ffff && (c&0xffff)<0xfffe && !(c>=0xfdd0 && c<0xfdf0) && c!=0xfeff), "never shows a non-character");
    v_assert(b>=0x80 || b==0x7f || (n_char==1 && c==b), "ASCII resynchronizes");
    v_assert(!(b>=0x80 && b<0xc0 && k==0) || n_char==0, "a stray continuation byte shows nothing");
    v_assert(t->utf_count>=0 && t->utf_count<=5, "decoder state in range");
#elif defined TABLES
    unsigned char b=v_u8();
    v_assume(b>=0x20 && b!=0x7f);
# if TABLES==1
    t->cp437=1; v_assume(!(t->G>>t->curG&1) || b>=0x80);
    put(t, b);
    v_assert(n_char==1 && last_ch==ref_cp437[b], "CP437 byte shows its glyph");
# else
    v_assume((t->G>>t->curG&1) && b<0x7f);
    put(t, b);
    v_assert(n_char==1 && last_ch==ref_graph[b], "graphics charset shows its glyph");
# endif
#endif
    v_reach("end");
}
