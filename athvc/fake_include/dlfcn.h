void *dlopen(const char *a,int b); void *dlsym(void *h,const char *n); int dlclose(void *h); char *dlerror(void);
#define RTLD_NOW 2
