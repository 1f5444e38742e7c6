#ifndef FAKE_SIGNAL
#define FAKE_SIGNAL
#define SIGTERM 15
#define SIGINT 2
#define SIGHUP 1
#define SIGUSR1 10
#define SIG_ERR ((void (*)(int))-1)
#define SIG_DFL ((void (*)(int))0)
#define SIG_IGN ((void (*)(int))1)
void (*signal(int n, void (*f)(int)))(int);
typedef int sig_atomic_t;
#endif
