#ifndef FAKE_STDDEF
#define FAKE_STDDEF
#define NULL ((void*)0)
typedef unsigned long size_t;
typedef long ptrdiff_t;
#endif
