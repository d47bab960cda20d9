#include <stdio.h>
#include <string.h>
#include "tty.h"
static void l(const char *n, const char *s)
{
    tty t=tty_init(2,1,0);
    tty_write(t,s,strlen(s));
    printf("%s=%d\n", n, t->state);
    tty_free(t);
}
int main(void)
{
    l("ST_GROUND","x"); l("ST_ESC","\x1b"); l("ST_CSI","\x1b["); l("ST_PAR","\x1b[1"); l("ST_QUES","\x1b[?");
    l("ST_G0","\x1b("); l("ST_G1","\x1b)"); l("ST_PCT","\x1b%"); l("ST_OSC","\x1b]"); l("ST_OSCSTR","\x1b]0;");
    return 0;
}
