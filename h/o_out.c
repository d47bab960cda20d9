/* open_out(): MODE 1: a name has to be found; 2: a name is given; 3: open_file() */
#include "v.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <time.h>
#include "libstream/stream.h"
#include "ttyrec.h"
#ifndef NAME
# define NAME "x"
#endif
#ifndef LAST
# define LAST 0
#endif
#ifndef APP
# define APP 0
#endif
#ifndef TRIES
# define TRIES 30
#endif
int open_file(const char *url, int mode, const char **error);
int open_out(char **file_name, const char *format_ext, int append);
static int tries, flags[TRIES+2], perms, good, other, dead, append, streams, sfd, smode, sfail, mem;
static const char *sname;
static char DATE[]="2020-01-02.03-04-05";
time_t v_time(time_t *t) { *t=12345; return 12345; }
struct tm *v_localtime(const time_t *t) { static struct tm x; v_assert(*t==12345, "the time now"); return &x; }
size_t v_strftime(char *b, size_t n, const char *f, const struct tm *t)
{
    v_assert(n>=sizeof DATE, "room for the date");
    const char *w="%Y-%m-%d.%H-%M-%S"; int ok=1;
    for (int i=0;i<18;i++) if (ok) ok&= f[i]==w[i];
    v_assert(ok, "the date is complete");
    for (int i=0;i<(int)sizeof DATE;i++) b[i]=DATE[i];
    return sizeof DATE-1;
}
static char names[TRIES+2][40];
static int nn;
int v_asprintf(char **r, const char *f, const char *a0, const char *a1, const char *a2, const char *a3, const char *a4, const char *a5)
{
    const char *ar[6]={a0,a1,a2,a3,a4,a5}; int an=0;
    v_assert(nn<TRIES+2, "it doesn't try forever");
    char *b=&names[nn++][0]; int k=0;
    for (;*f;f++)
        if (*f=='%') { f++; v_assert(*f=='s', "strings"); for (const char *s=ar[an++];*s;s++) if (k<39) b[k++]=*s; }
        else if (k<39) b[k++]=*f;
    b[k]=0;
    mem++;
    *r=b;
    return k;
}
void v_free(void *p) { if (p) mem--; }
/* "", a, b ... z, aa, ab ... */
static int want(const char *s, int n)
{
    char w[4]; int l=0, ok=1, k=0;
    for (;n;n=(n-1)/26) w[l++]='a'+(n-1)%26;
    for (int i=0;i<(int)sizeof DATE-1;i++) ok&= s[k++]==DATE[i];
    while (l--) ok&= s[k++]==w[l];
    const char *e=append? ".ext" : ".ext.bz2";
    for (int i=0;e[i];i++) ok&= s[k++]==e[i];
    return ok && !s[k];
}
static const char *oname;
int v_open(const char *n, int fl, int perm)
{
    v_assert(!good && !other, "one file is opened");
    oname=n;
    int w=v_u8()%3;
#if MODE==1
    v_assert(tries<TRIES, "bounded");
    v_assert(want(n, tries), "names are tried in order");
    v_assert(fl&O_CREAT, "the file is created");
    v_assert(append? (fl&O_APPEND) && !(fl&O_TRUNC) : fl&O_EXCL, "nothing that exists is overwritten");
    v_assert((fl&O_ACCMODE)==O_WRONLY && perm==0666, "for writing");
    if (tries==TRIES-1 || append) { tries++; flags[0]=fl; if (LAST) { other=1; errno=EACCES; return -1; } good=1; return 4; }
#endif
    tries++;
    flags[0]=fl;
    if (w==1) { good=1; return 4; }
    if (w==2) other=1;
    errno= w==2? EACCES : EEXIST;
#if MODE!=1
    other=1;
#endif
    return -1;
}
char *v_strerror(int e) { return "why"; }
int v_strcmp(const char *a, const char *b) { while (*a && *a==*b) a++, b++; return (unsigned char)*a-(unsigned char)*b; }
static const char *msg="failed";
int open_stream(int fd, const char *n, int mode, const char **error)
{
    streams++; sfd=fd; sname=n; smode=mode;
    v_assert(error!=0, "asks why");
    if (sfail) { *error=msg; return -1; }
    return 9;
}
static void end(void);
void die(const char *f, ...)
{
    dead=1;
    v_assert(other || sfail, "gives up only for a reason");
    v_assert(MODE!=1 || other || streams==1, "nothing but what failed is touched");
    v_assert(!good || sfail, "a file that was opened is used");
#if MODE==1
    v_reach("die");
#endif
    v_assume(0);
}
void v_main(void)
{
    append=APP; sfail=v_bool();
#if MODE==3
    const char *error=0; int mode=v_range(0,4);
    int fd=open_file("n", mode, &error);
    v_assert(mode<4 || (fd==-1 && error && !tries), "unknown modes are refused");
    if (mode<4)
    {
        v_assert(tries==1 && oname[0]=='n' && !oname[1], "just that file");
        v_assert(good? fd==4 : fd==-1 && error, "failure is reported, with a message");
        int fl=flags[0];
        if (mode==SM_READ || mode==SM_REPREAD) v_assert((fl&(O_ACCMODE|O_CREAT|O_TRUNC))==O_RDONLY, "what is read is left alone");
        if (mode==SM_WRITE) v_assert((fl&O_ACCMODE)==O_WRONLY && fl&O_CREAT && fl&O_TRUNC && !(fl&O_APPEND), "written anew");
        if (mode==SM_APPEND) v_assert((fl&O_ACCMODE)==O_WRONLY && fl&O_CREAT && fl&O_APPEND && !(fl&O_TRUNC), "appended to");
    }
#else
    static char given[]=NAME;
    char *name= MODE==1? (char*)0 : &given[0];
    int fd=open_out(&name, ".ext", append);
    v_assert(streams==1 && !sfail && fd==9, "what is to be written goes to the stream");
    v_assert(smode==(append? SM_APPEND : SM_WRITE) && sname==name, "by its name, in the right way");
# if MODE==1
    v_assert(good && sfd==4, "the file that was created");
    v_assert(name==oname, "its name is known");
    v_assert(mem==1, "other names are freed");
# else
    v_assert(name==given, "the name is the one given");
    if (given[0]=='-' && !given[1]) v_assert(sfd==-1 && !tries, "standard output");
    else
    {
        v_assert(sfd==(good? 4 : -1), "the file, or what only streams know");
        if (tries) v_assert(oname==name && (append? !(flags[0]&O_TRUNC) && flags[0]&O_APPEND : flags[0]&O_TRUNC) && (flags[0]&O_ACCMODE)==O_WRONLY, "replaced or appended to as told");
    }
# endif
#endif
    v_reach("end");
}
