/* the time arithmetic of ttyrec.h.  OP=1..5 M= */
#include "v.h"
#include <sys/time.h>
#include "ttyrec.h"
static struct timeval any(int bits)
{
    struct timeval t;
    t.tv_sec=(int32_t)v_u32();
    if (bits<32) v_assume(t.tv_sec>=-(1l<<bits) && t.tv_sec<(1l<<bits));
    t.tv_usec=v_range(0,999999);
    return t;
}
#define OK(t) v_assert((t).tv_usec>=0 && (t).tv_usec<1000000, "the result is normalized")
void v_main(void)
{
    struct timeval a=any(BITS), b=any(BITS), r=a;
#if OP==1
    tadd(r, b);
    OK(r);
    long u=a.tv_usec+b.tv_usec, s=a.tv_sec+b.tv_sec;
    if (u>=1000000) u-=1000000, s++;
    v_assert(r.tv_sec==s && r.tv_usec==u, "tadd adds");
#elif OP==2
    tsub(r, b);
    OK(r);
    long u=a.tv_usec-b.tv_usec, s=a.tv_sec-b.tv_sec;
    if (u<0) u+=1000000, s--;
    v_assert(r.tv_sec==s && r.tv_usec==u, "tsub subtracts");
    tadd(r, b);
    v_assert(r.tv_sec==a.tv_sec && r.tv_usec==a.tv_usec, "tadd undoes tsub");
#elif OP==3
    long s=a.tv_sec-b.tv_sec, u=a.tv_usec-b.tv_usec;
    int e= s>0 || !s && u>0 ? 1 : s<0 || u<0 ? -1 : 0;
    v_assert(tcmp(a,b)==e, "tcmp compares");
#elif OP==4
    tmul1000(r, M);
    OK(r);
    long got=r.tv_sec*1000000+r.tv_usec, x=a.tv_sec*1000000+a.tv_usec;
    v_assert(got*1000-x*M<1000 && got*1000-x*M>-1000, "tmul1000 multiplies by thousandths, to a microsecond");
#elif OP==5
    tdiv1000(r, M);
    OK(r);
    long got=r.tv_sec*1000000+r.tv_usec, x=a.tv_sec*1000000+a.tv_usec;
    v_assert(got*M-x*1000<M && got*M-x*1000>-M, "tdiv1000 divides by thousandths, to a microsecond");
#endif
    v_reach("end");
}
