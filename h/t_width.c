/* Column widths, for all 2^32 code points. */
#include "v.h"
#include "width_ref.h"
int mk_wcwidth(uint32_t c);
#define NZ (sizeof zero_width/sizeof *zero_width)
static int ref(uint32_t c)
{
    if (!c) return 0;
    if (c<0x20 || (c>=0x7f && c<0xa0)) return -1;
    int z=0;
    for (unsigned i=0;i<NZ;i++) z|= c>=zero_width[i][0] && c<=zero_width[i][1];
    if (z) return 0;
    static const uint32_t wide[][2]={{0x1100,0x115f},{0x2329,0x232a},{0x2e80,0x303e},{0x3040,0xa4cf},{0xac00,0xd7a3},{0xf900,0xfaff},
        {0xfe10,0xfe19},{0xfe30,0xfe6f},{0xff00,0xff60},{0xffe0,0xffe6},{0x20000,0x2fffd},{0x30000,0x3fffd}};
    int w=0;
    for (unsigned i=0;i<sizeof wide/sizeof *wide;i++) w|= c>=wide[i][0] && c<=wide[i][1];
    return 1+w;
}
void v_main(void)
{
    uint32_t c=v_u32();
    v_assume(c>=LO && c<=HI);
    int w=mk_wcwidth(c);
    v_assert(w==ref(c), "the width is that of the Unicode tables");
    v_reach("end");
}
