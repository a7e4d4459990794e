#ifndef KAI_ERRNO_H
#define KAI_ERRNO_H
#include <stddef.h>
#include <stdint.h>
extern int errno;
#endif
