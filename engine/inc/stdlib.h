/* declarations only: units compiled for another target are analysed, never linked */
#ifndef KAI_STDLIB_H
#define KAI_STDLIB_H
#include <stddef.h>
void *malloc(size_t); void *calloc(size_t, size_t); void *realloc(void *, size_t); void free(void *); void abort(void); void exit(int); char *getenv(const char *); int atoi(const char *); int abs(int);
#define EXIT_FAILURE 1
#define EXIT_SUCCESS 0
#endif
