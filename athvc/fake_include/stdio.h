#ifndef FAKE_STDIO
#define FAKE_STDIO
#include <stddef.h>
typedef struct _FILE_s { int fd; } FILE;
typedef long off_t;
extern FILE *stdin; extern FILE *stdout; extern FILE *stderr;
#define EOF (-1)
#define SEEK_SET 0
#define SEEK_CUR 1
#define SEEK_END 2
#define BUFSIZ 8192
int printf(const char *f, ...); int fprintf(FILE *p, const char *f, ...); int sprintf(char *s, const char *f, ...);
int snprintf(char *s, size_t n, const char *f, ...); int scanf(const char *f, ...); int fscanf(FILE *p, const char *f, ...);
int sscanf(const char *s, const char *f, ...);
FILE *fopen(const char *a, const char *b); int fclose(FILE *p); int fflush(FILE *p); FILE *freopen(const char *a,const char *b,FILE *c);
size_t fread(void *p, size_t a, size_t b, FILE *f); size_t fwrite(const void *p, size_t a, size_t b, FILE *f);
char *fgets(char *s, int n, FILE *f); int fgetc(FILE *f); int getc(FILE *f); int fputc(int c, FILE *f); int fputs(const char *s, FILE *f);
int putc(int c, FILE *f); int puts(const char *s); int getchar(void); int putchar(int c);
int fseek(FILE *f, long o, int w); long ftell(FILE *f); void rewind(FILE *f); int feof(FILE *f); int ferror(FILE *f);
int remove(const char *s); int rename(const char *a, const char *b); void perror(const char *s); FILE *tmpfile(void);
#include <stdarg.h>
int vfprintf(FILE *f, const char *s, va_list ap); int vprintf(const char *s, va_list ap); int vsprintf(char *b, const char *s, va_list ap);
int vsnprintf(char *b, size_t n, const char *s, va_list ap);
int fileno(FILE *f);
#endif
