/* tty_printf(): LEN bytes of text however it compares to the buffer (scaled to 8) */
#include "v.h"
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include "tty.h"
static char text[LEN+2];
static int bad, calls, fails;
/* instead of the real one (which does not care how its input is split: C03) */
static char out[LEN+8]; static int on; static tty who;
void tty_write(tty vt, const char *buf, int len)
{
    who=vt;
    for (int i=0;i<len;i++) if (on<LEN+8) out[on++]=buf[i];
}
static int format(char *s, size_t n, const char *fmt, va_list ap)
{
    calls++;
    if (fmt[0]!='x' || va_arg(ap, int)!=12345 || va_arg(ap, char*)!=text) bad=1;
    if (n) for (size_t i=0;i<n;i++) { s[i]= i+1<n? text[i] : 0; if (!s[i]) break; }
    return LEN;
}
int v_vsnprintf(char *s, size_t n, const char *fmt, va_list ap) { return format(s, n, fmt, ap); }
int v_vasprintf(char **s, const char *fmt, va_list ap)
{
    *s=malloc(LEN+1);
    return format(*s, LEN+1, fmt, ap);
}
int v_vsprintf(char *s, const char *fmt, va_list ap) { return format(s, LEN+1, fmt, ap); }
void v_main(void)
{
    struct tty t;
    for (int i=0;i<LEN;i++) { text[i]=v_u8(); v_assume(text[i]); }
    tty_printf(&t, "x", 12345, text);
    v_assert(!bad, "the format and its arguments are used as given");
    int ok=1;
    v_assert(on==LEN && who==(LEN? &t : 0), "the text is written in full, nothing else is");
    for (int i=0;i<LEN;i++) ok&= out[i]==text[i];
    v_assert(ok, "the text is written as it is");
    v_reach("end");
}
