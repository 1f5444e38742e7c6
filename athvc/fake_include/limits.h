#ifndef FAKE_LIMITS
#define FAKE_LIMITS
#define INT_MAX 2147483647
#define INT_MIN (-2147483647-1)
#define LONG_MAX 9223372036854775807L
#define UINT_MAX 4294967295U
#endif
