#ifndef FAKE_STDARG
#define FAKE_STDARG
typedef int va_list;
#define va_start(a,b) fake_va_start(a)
#define va_end(a) fake_va_end(a)
#define va_arg(a,t) (*(t*)fake_va_arg(a))
#define va_copy(a,b) fake_va_start(a)
void fake_va_start(va_list a); void fake_va_end(va_list a); void *fake_va_arg(va_list a);
#endif
