/* underlying allocator replaced by the driver's */
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
void *vd_malloc(size_t); void *vd_calloc(size_t, size_t); void vd_free(void *);
#define malloc vd_malloc
#define calloc vd_calloc
#define free vd_free
