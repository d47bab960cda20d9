/* runtime for v.h */
#include "v.h"
#ifdef VERIF_CBMC
uint64_t v_u64(void) { uint64_t verif_in = nondet_verif_u64(); return verif_in; }
#else
#include <string.h>
#include <unistd.h>
static FILE *vf; 
uint64_t v_u64(void)
{
    if (!vf) {
        const char *n=getenv("VERIF_INPUT");
        vf = n? fopen(n, "r") : 0;
        if (!vf) { fprintf(stderr, "no input\n"); _exit(78); }
    }
    unsigned long long x;
    if (fscanf(vf, "%llu", &x)!=1) x=0;
    return x;
}
void v_fail(const char *msg, const char *file, int line)
{ printf("REPLAY-FAIL %s (%s:%d)\n", msg, file, line); fflush(stdout); _exit(1); }
void v_assume_failed(const char *file, int line)
{ printf("REPLAY-ASSUME %s:%d\n", file, line); fflush(stdout); _exit(77); }
void v_reached(const char *msg) { printf("REPLAY-REACH %s\n", msg); fflush(stdout); }
int main(void) { v_main(); printf("REPLAY-END\n"); fflush(stdout); return 0; }
#endif
