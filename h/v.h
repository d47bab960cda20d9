/* common harness header: symbolic inputs, assertions, reachability.
   Same text is compiled by goto-cc (CBMC) and by gcc (native replay). */
#ifndef V_H
#define V_H
#include <stdint.h>
#include <stddef.h>
#ifdef VERIF_CBMC
uint64_t nondet_verif_u64(void);
uint64_t v_u64(void);
# define v_assume(c) __CPROVER_assume(c)
# define v_assert(c, msg) __CPROVER_assert(c, msg)
# define v_reach(msg) __CPROVER_assert(0, "REACH " msg)
#else
# include <stdio.h>
# include <stdlib.h>
uint64_t v_u64(void);
void v_fail(const char *msg, const char *file, int line);
void v_reached(const char *msg);
void v_assume_failed(const char *file, int line);
# define v_assume(c) do { if (!(c)) v_assume_failed(__FILE__, __LINE__); } while (0)
# define v_assert(c, msg) do { if (!(c)) v_fail(msg, __FILE__, __LINE__); } while (0)
# define v_reach(msg) v_reached(msg)
#endif
static inline int v_int(void) { return (int)v_u64(); }
static inline uint32_t v_u32(void) { return (uint32_t)v_u64(); }
static inline unsigned char v_u8(void) { return (unsigned char)v_u64(); }
static inline int v_bool(void) { return (int)(v_u64()&1); }
static inline int v_range(int lo, int hi) { int x=(int)v_u64(); v_assume(x>=lo && x<=hi); return x; }
void v_main(void);
#endif
