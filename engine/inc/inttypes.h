#ifndef KAI_INTTYPES_H
#define KAI_INTTYPES_H
#include <stddef.h>
#include <stdint.h>
#endif
