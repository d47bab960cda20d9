#include <stddef.h>
#include <string.h>
#define memmove v_memmove
void *v_memmove(void *d, const void *s, size_t n);
