#include "v.h"
int v_width(uint32_t c)
{
    if (!c) return 0;
    if (c<32 || (c>=0x7f && c<0xa0)) return -1;
    if ((c>=0x300 && c<=0x36f) || (c>=0x200b && c<=0x200f)) return 0;
    return 1+(c>=0x1100 && (c<=0x115f || (c>=0x2e80 && c<=0xa4cf && c!=0x303f)));
}
