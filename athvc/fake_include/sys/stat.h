#include <sys/types.h>
int mkdir(const char *s, mode_t m);
struct stat { int a; }; int stat(const char *s, struct stat *b);
