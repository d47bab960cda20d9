/* tty_color_convert() over whole domains.  PART=1..6 */
#include "v.h"
#include "tty.h"
#define BARE(x) ((x)&0xffffff)
#define T16 (1u<<24)
#define T256 (2u<<24)
#define TRGB (3u<<24)
/* the published palette: VGA text colours, xterm's cube and ramp */
static uint32_t palette(unsigned i)
{
    static const uint32_t vga[16]={ 0x000000,0xaa0000,0x00aa00,0xaa5500,0x0000aa,0xaa00aa,0x00aaaa,0xaaaaaa,
        0x555555,0xff5555,0x55ff55,0xffff55,0x5555ff,0xff55ff,0x55ffff,0xffffff };
    static const unsigned char cube[6]={0,95,135,175,215,255};
    if (i<16) return vga[i];
    if (i<232) return cube[(i-16)/36]<<16 | cube[(i-16)/6%6]<<8 | cube[(i-16)%6];
    uint32_t g=8+10*(i-232);
    return g<<16|g<<8|g;
}
static uint32_t to_(uint32_t x) { return v_bool()? x : x<<24; }     /* both ways of naming a type */
void v_main(void)
{
    uint32_t c=v_u32();
#if PART==1     /* any colour to any type */
    uint32_t to=v_range(0,3), from=c>>24&3;
    uint32_t r=tty_color_convert(c, to_(to));
    if (!to) v_assert(!r, "no colour is no colour");
    else if (from==to) v_assert(BARE(r)==BARE(c), "converting to the same type changes nothing");
    else if (from==1 && to==2) v_assert(BARE(r)==BARE(c), "the 16 colours are the first of the 256");
    else if (from)
    {
        if (to==1) v_assert(r<16, "one of 16 colours is given");
        if (to==2) v_assert(r<256, "one of 256 colours is given");
        if (to==3) v_assert(r<=0xffffff, "an RGB value is given");
    }
#elif PART==2   /* palettes to RGB */
    unsigned i=v_range(0,255);
    v_assert(tty_color_convert(T256|i, to_(3))==palette(i), "the 256 colours are the published ones");
    if (i<16) v_assert(tty_color_convert(T16|i, to_(3))==palette(i), "the 16 colours are the published ones");
#elif PART==3   /* and back */
    unsigned i=v_range(0,255);
    uint32_t r=tty_color_convert(TRGB|palette(i), to_(2));
    if (i==3)   /* brown is not what three bits would give: the nearest entry will do */
        v_assert(r<256, "brown");
    else
        v_assert(r<256 && palette(r)==palette(i), "a colour that is in the palette is kept exact");
    if (i<16 && i!=3)
        v_assert(tty_color_convert(TRGB|palette(i), to_(1))==i, "the 16 colours are recognized");
    v_assert(tty_color_convert(T256|i, to_(1))==tty_color_convert(TRGB|palette(i), 1), "going through the palette makes no difference");
#elif PART==4   /* RGB to 16 */
    uint32_t r=tty_color_convert(TRGB|BARE(c), to_(1));
    unsigned ch[3]={c>>16&255, c>>8&255, c&255}, m=0;
    for (int i=0;i<3;i++) if (ch[i]>m) m=ch[i];
    v_assert(r<16, "one of 16 colours is given");
    for (int i=0;i<3;i++)
    {
        if (!ch[i]) v_assert(!(r>>i&1), "a primary colour that is not there is not shown");
        if (ch[i]==m && m>=72) v_assert(r>>i&1 || r==8, "the dominant primary colour is shown");
    }
    if (m<=64) v_assert(r==0, "very dark colours are black");
    if (m>=208) v_assert(r>=9, "light colours are bright");
    if (r>8) v_assert(m>=128, "dark colours are not bright");
#elif PART==5   /* RGB to 256 is not far off */
    uint32_t r=tty_color_convert(TRGB|BARE(c), to_(2));
    v_assert(r<256, "one of 256 colours is given");
    uint32_t p=palette(r);
    for (int s=0;s<24;s+=8)
    {
        int e=(int)(p>>s&255)-(int)(c>>s&255);
        v_assert(e<=112 && e>=-112, "the colour given is similar");
    }
#elif PART==6   /* grays stay gray */
    uint32_t g=c&255;
    uint32_t r=tty_color_convert(TRGB|g<<16|g<<8|g, to_(2)), p=palette(r);
    v_assert((p&255)==(p>>8&255) && (p&255)==(p>>16&255), "grays stay gray");
    int e=(int)(p&255)-(int)g;
    v_assert(e<=10 && e>=-10, "grays are matched closely");
#endif
    v_reach("end");
}
