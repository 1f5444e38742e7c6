#ifndef FAKE_STRING
#define FAKE_STRING
#include <stddef.h>
size_t strlen(const char *s); char *strcpy(char *d, const char *s); char *strncpy(char *d, const char *s, size_t n);
int strcmp(const char *a, const char *b); int strncmp(const char *a, const char *b, size_t n); char *strcat(char *a, const char *b);
char *strncat(char *a, const char *b, size_t n); char *strchr(const char *a, int c); char *strrchr(const char *a, int c); char *strstr(const char *a, const char *b);
char *strtok(char *a, const char *b); void *memcpy(void *d, const void *s, size_t n); void *memset(void *d, int c, size_t n);
void *memmove(void *d, const void *s, size_t n); int memcmp(const void *a, const void *b, size_t n); char *strdup(const char *s); char *strerror(int n);
size_t strspn(const char *a, const char *b); size_t strcspn(const char *a, const char *b);
#endif
