#ifndef KAI_STDIO_H
#define KAI_STDIO_H
#include <stddef.h>
typedef struct kai_FILE FILE;
FILE *fopen(const char *, const char *); int fclose(FILE *); size_t fread(void *, size_t, size_t, FILE *); int setvbuf(FILE *, char *, int, size_t); void perror(const char *);
int ferror(FILE *); int feof(FILE *); int printf(const char *, ...); int fprintf(FILE *, const char *, ...); int snprintf(char *, size_t, const char *, ...);
extern FILE *stderr, *stdout;
#define EOF (-1)
#define _IONBF 2
#endif
