/* reads the fields of an analysis */
#include <string.h>
#include "resdet_internal.h"
void hx_analysis_get(const void* q, unsigned long long* o, float* th) {
	const struct RDAnalysis* a = q;
	o[0] = a->width; o[1] = a->height; o[2] = a->nimages; o[3] = a->params.range; o[4] = a->params.compression_filter;
	o[5] = !!a->xresult; o[6] = !!a->yresult; o[7] = (unsigned long long)(size_t)a->method; *th = a->params.threshold;
}
