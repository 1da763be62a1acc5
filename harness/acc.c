/* accessors to the library's internal structures */
#include <string.h>
#include "image.h"
#include "resdet_internal.h"
size_t hx_params_size(void) { return sizeof(struct RDParameters); }
void hx_params_get(const void* q, size_t* r, float* t, unsigned* c) { const struct RDParameters* p = q; *r = p->range; memcpy(t, &p->threshold, sizeof(*t)); *c = p->compression_filter; }
size_t hx_default_range(void) { return DEFAULT_RANGE; }
