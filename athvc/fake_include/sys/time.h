#ifndef FAKE_SYSTIME
#define FAKE_SYSTIME
struct timeval { long tv_sec; long tv_usec; }; struct timezone { int a; int b; };
int gettimeofday(struct timeval *t, void *z);
#endif
