#ifndef FAKE_TIME
#define FAKE_TIME
#include <stddef.h>
typedef long time_t; typedef long clock_t;
struct tm { int tm_sec; int tm_min; int tm_hour; int tm_mday; int tm_mon; int tm_year; };
#define CLOCKS_PER_SEC 1000000
time_t time(time_t *t); char *ctime(const time_t *t); clock_t clock(void); struct tm *localtime(const time_t *t); double difftime(time_t a, time_t b);
size_t strftime(char *s, size_t m, const char *f, const struct tm *t);
#endif
