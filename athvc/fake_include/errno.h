extern int errno;
#define EEXIST 17
#define ENOENT 2
