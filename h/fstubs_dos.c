#include <stdio.h>
#include <sys/time.h>
void play_dosrecorder(FILE *f, void *a, void *b, void *c, void *arg, const struct timeval *cont) {}
