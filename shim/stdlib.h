#ifndef SHIM_STDLIB_H
#define SHIM_STDLIB_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void *malloc(size_t); void free(void *); void *calloc(size_t, size_t); void *realloc(void *, size_t); void abort(void); int abs(int); long labs(long);
#ifdef __cplusplus
}
#endif
#endif
