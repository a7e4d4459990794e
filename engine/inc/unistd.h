#ifndef KAI_UNISTD_H
#define KAI_UNISTD_H
#include <stddef.h>
#include <stdint.h>
long read(int, void *, size_t); int close(int);
#endif
