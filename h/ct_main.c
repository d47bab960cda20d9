/* termcat (CAT=1) and termtime: FILES says for each how many frames it has, or x if it can't be played */
#include "v.h"
#include <stdio.h>
#include <stdarg.h>
#include <errno.h>
#include <sys/time.h>
#include "ttyrec.h"
static const char files[]=FILES;
#define NF ((int)sizeof files-1)
#define MAXF 24
static struct timeval tot, at[MAXF]; static int frames, wrote, opened, closed, close_ok, bad, played, printed, msgs;
static char data[MAXF];
static struct { long s, u; const char *name; int n; } line;
static char *names[]={"prog","f1","f2","f3","f4","f5","f6"};
int ct_main(int argc, char **argv);
static struct rr { int x; } R;
void die(const char *f, ...) { v_assert(0, "doesn't die"); v_assume(0); }
#ifndef OPENFAIL
# define OPENFAIL 0
#endif
recorder ttyrec_w_open(int fd, const char *format, const char *filename, const struct timeval *tm)
{
    v_assert(fd==-1 && !format && filename==names[NF+1], "the last name is where to");
    v_assert(!played, "before anything is played");
    opened++;
    return (recorder)&R;
}
int ttyrec_w_write(recorder r, const struct timeval *t, const char *b, int n)
{
    if (r!=(recorder)&R || closed) bad=1;
    if (wrote<MAXF) { v_assert(b==&data[wrote] && n==wrote+1, "frames are passed on as they are, in order"); v_assert(t->tv_sec==at[wrote].tv_sec && t->tv_usec==at[wrote].tv_usec, "at the right time, going on through all files"); }
    wrote++;
    return 1;
}
int ttyrec_w_close(recorder r) { closed++; return close_ok; }
int ttyrec_r_play(int fd, const char *format, const char *filename, void (*init)(const struct timeval*, void*), void (*wait)(const struct timeval*, void*), void (*print)(const char*, int, void*), void *arg)
{
    v_assert(fd==-1 && !format && filename==names[1+played], "each file in order, by its name");
    char k=files[played++];
#ifndef CAT
    tot.tv_sec=tot.tv_usec=0;
#endif
    struct timeval date={v_u32(), 5};
    if (k=='x') { errno=ENOENT; return 0; }
    if (init) init(&date, arg);
    for (int i=0;i<k-'0';i++)
    {
        struct timeval d;
        d.tv_sec=v_u32()&0xffffff; d.tv_usec=v_u32()&0xfffff; v_assume(d.tv_usec<1000000);
        if (wait) wait(&d, arg);
        tot.tv_sec+=d.tv_sec; tot.tv_usec+=d.tv_usec; if (tot.tv_usec>=1000000) tot.tv_usec-=1000000, tot.tv_sec++;
        at[frames]=tot; frames++;
        if (print) print(&data[frames-1], frames, arg);
    }
    return 1;
}
int v_fprintf(FILE *f, const char *m, ...) { msgs++; return 0; }
int v_printf(const char *f, ...)
{
    va_list ap; va_start(ap, f);
    int n=0;
    line.n=0; line.name=0;
    for (;*f;f++) if (*f=='%')
    {
        while (*++f!='l' && *f!='s');
        if (*f=='s') { line.name=va_arg(ap, const char*); continue; }
        if (n++) line.u=va_arg(ap, long); else line.s=va_arg(ap, long);
    }
    va_end(ap);
    v_assert(n==2, "seconds and their parts");
    v_assert(line.s==tot.tv_sec && line.u==tot.tv_usec, "the length is the sum of all delays");
    v_assert(line.name==names[played], "of that file");
    printed++;
    return 0;
}
char *v_strerror(int e) { return "why"; }
void v_main(void)
{
    int good=0, r;
    close_ok=v_bool();
    for (int i=0;i<NF;i++) good+= files[i]!='x';
#ifdef CAT
    r=ct_main(NF+2, names);
    v_assert(opened==1 && closed==1 && !bad, "one recording is made");
    v_assert(wrote==frames, "all frames are written");
    v_assert(!r==(close_ok && good), "success means something was written, for good");
#else
    r=ct_main(NF+1, names);
    v_assert(printed==good, "a line for each file");
    v_assert(!r==!!good, "failure is reported if there was none");
#endif
    v_assert(played==NF && msgs==NF-good, "every file is used, or complained about");
    v_reach("end");
}
