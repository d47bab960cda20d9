/* asprintf() of up to six strings, without "..." */
#include <stdio.h>
int v_asprintf(char **r, const char *f, const char *a, const char *b, const char *c, const char *d, const char *e, const char *g);
#define V_ASPRINTF(r,f,a,b,c,d,e,g,...) v_asprintf(r,f,a,b,c,d,e,g)
#define V_asprintf(r,...) V_ASPRINTF(r,__VA_ARGS__,0,0,0,0,0,0,0)
