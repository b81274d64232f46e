#ifndef SHIM_STDIO_H
#define SHIM_STDIO_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct shim_FILE FILE;
extern FILE *stdout, *stderr, *stdin;
#define stdout stdout
#define stderr stderr
int fprintf(FILE *, const char *, ...); int printf(const char *, ...); int sprintf(char *, const char *, ...); int snprintf(char *, size_t, const char *, ...);
int fputs(const char *, FILE *); int puts(const char *); int fflush(FILE *); int fputc(int, FILE *);
#ifdef __cplusplus
}
#endif
#endif
