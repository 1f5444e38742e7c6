#ifndef FAKE_STDLIB
#define FAKE_STDLIB
#include <stddef.h>
#define EXIT_FAILURE 1
#define EXIT_SUCCESS 0
#define RAND_MAX 2147483647
void *malloc(size_t n); void *calloc(size_t n, size_t m); void *realloc(void *p, size_t n); void free(void *p);
void exit(int n); void abort(void); int abs(int x); long labs(long x); int atoi(const char *s); double atof(const char *s); long atol(const char *s);
double strtod(const char *s, char **e); long strtol(const char *s, char **e, int b); int rand(void); void srand(unsigned s);
void qsort(void *b, size_t n, size_t s, int (*c)(const void *, const void *)); int system(const char *s); char *getenv(const char *s);
typedef struct { int quot; int rem; } div_t; div_t div(int a, int b);
double drand48(void); int atexit(void (*f)(void));
#endif
