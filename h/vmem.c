#include "v.h"
#include "tty.h"
void *v_memmove(void *d, const void *s, size_t n)
{
    attrchar *a=d; const attrchar *b=s;
    size_t k=n/sizeof(attrchar);
    if (a<b) for (size_t i=0;i<k;i++) a[i]=b[i];
    else for (size_t i=k;i-->0;) a[i]=b[i];
    return d;
}
