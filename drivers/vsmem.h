/* force-included into instrumented code: block operations are seen by the race detector */
#ifndef VSMEM_H
#define VSMEM_H
#include <string.h>
void *vs_memcpy(void *, const void *, size_t);
void *vs_memmove(void *, const void *, size_t);
void *vs_memset(void *, int, size_t);
#undef memcpy
#undef memmove
#undef memset
#define memcpy vs_memcpy
#define memmove vs_memmove
#define memset vs_memset
#endif
