#ifndef FAKE_UNISTD
#define FAKE_UNISTD
#include <sys/types.h>
int chdir(const char *s); int access(const char *s, int m); unsigned sleep(unsigned s); char *getcwd(char *b, size_t n); int unlink(const char *s);
#endif
