#ifndef KAI_CTYPE_H
#define KAI_CTYPE_H
#include <stddef.h>
#include <stdint.h>
int isdigit(int); int isspace(int); int toupper(int); int tolower(int);
#endif
