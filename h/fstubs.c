/* parts of formats.c that the obligation does not reach */
#include "v.h"
#include <stdio.h>
#include <sys/time.h>
#ifndef DOS
void play_dosrecorder(FILE *f, void *a, void *b, void *c, void *arg, const struct timeval *cont) {}
#endif
#ifndef ASCIICAST
void play_asciicast(FILE *f, void *a, void *b, void *c, void *arg, const struct timeval *cont) {}
void do_play_asciicast(int fd, const char *obuf, int olen, void *a, void *b, void *c, void *arg, const struct timeval *cont) {}
void *record_asciicast_init(FILE *f, const struct timeval *tm) { return 0; }
void record_asciicast(FILE *f, void *state, const struct timeval *tm, const char *buf, int len) {}
void record_asciicast_finish(FILE *f, void *state) {}
void *record_asciicast_v1_init(FILE *f, const struct timeval *tm) { return 0; }
void record_asciicast_v1_finish(FILE *f, void *state) {}
#endif
#ifndef CLOCK
int v_gettimeofday(struct timeval *t, void *z) { t->tv_sec=0; t->tv_usec=0; return 0; }
int v_select(int n, void *r, void *w, void *e, struct timeval *t) { return 0; }
#endif
#ifdef ASCIICAST
# ifndef TTYS
void *tty_init(int sx, int sy, int resizable) { return 0; }
void tty_write(void *vt, const char *buf, int len) {}
void tty_free(void *vt) {}
# endif
#endif
