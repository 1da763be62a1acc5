/* Linked with the command line tool (-Wl,--wrap): scripted failures and detection outcomes, and a count of what was called. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <unistd.h>
#include "resdet.h"

extern long hx_fail_at;
static long created, analyzed, got, afail = -1, aerr, rfail = -1, rerr, xerr, cerr;
static char* script;
static void num(const char* n, long* v) { char* s = getenv(n); if(s) *v = atol(s); }
__attribute__((constructor)) static void start(void) {
	num("HX_FAIL_AT", &hx_fail_at);
	num("HX_AFAIL", &afail); num("HX_AERR", &aerr);
	num("HX_RFAIL", &rfail); num("HX_RERR", &rerr);
	num("HX_XERR", &xerr); num("HX_CERR", &cerr);
	script = getenv("HX_RES");
}
__attribute__((destructor)) static void end(void) {
	char* f = getenv("HX_FD");
	if(!f) return;
	char b[100];
	int n = snprintf(b, sizeof(b), "%ld %ld %ld\n", created, analyzed, got);
	if(write(atoi(f), b, n) != n) _exit(99);
}
RDAnalysis* __real_resdet_create_analysis(RDMethod*, size_t, size_t, const RDParameters*, RDError*);
RDAnalysis* __wrap_resdet_create_analysis(RDMethod* m, size_t w, size_t h, const RDParameters* p, RDError* e) {
	created++;
	if(cerr) { if(e) *e = cerr; return NULL; }
	return __real_resdet_create_analysis(m, w, h, p, e);
}
RDError __real_resdet_analyze_image(RDAnalysis*, const float*);
RDError __wrap_resdet_analyze_image(RDAnalysis* a, const float* f) {
	if(++analyzed == afail) return aerr;
	return __real_resdet_analyze_image(a, f);
}
bool __real_resdet_read_image_frame(RDImage*, float*, RDError*);
bool __wrap_resdet_read_image_frame(RDImage* i, float* f, RDError* e) {
	if(++got == rfail) { if(e) *e = rerr; return false; }
	return __real_resdet_read_image_frame(i, f, e);
}
static RDResolution* list(char* s, size_t* n) {
	RDResolution* r = NULL;
	for(*n = 0; *s; ++*n) {
		r = realloc(r, sizeof(*r) * (*n + 1));
		r[*n].index = strtoull(s, &s, 10);
		r[*n].confidence = strtof(s + 1, &s);
		if(*s) s++;
	}
	return r;
}
RDError __real_resdet_analysis_results(RDAnalysis*, RDResolution**, size_t*, RDResolution**, size_t*);
RDError __wrap_resdet_analysis_results(RDAnalysis* a, RDResolution** rw, size_t* cw, RDResolution** rh, size_t* ch) {
	if(xerr) return xerr;
	if(!script) return __real_resdet_analysis_results(a, rw, cw, rh, ch);
	char* s = strdup(script),* m = strchr(s, ';');
	*m = 0;
	if(rw) *rw = list(s, cw);
	if(rh) *rh = list(m + 1, ch);
	return RDEOK;
}
