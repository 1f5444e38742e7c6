#ifndef FAKE_SYSTYPES
#define FAKE_SYSTYPES
#include <stddef.h>
typedef unsigned int mode_t; typedef int pid_t;
#endif
