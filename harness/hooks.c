/* Allocation and stream accounting for the library under test (linked with -Wl,--wrap). */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>

#define N (1 << 16)
static void* tab[N];
static char kind[N];
long hx_live, hx_count, hx_fail_at = -1, hx_bad_free, hx_files, hx_seek_fail_at = -1, hx_seeks, hx_plans, hx_frees;
size_t hx_max_alloc = (size_t)1 << 32;
size_t hx_biggest;

static char lock;
#define LOCK while(__atomic_test_and_set(&lock, __ATOMIC_ACQUIRE))
#define UNLOCK __atomic_clear(&lock, __ATOMIC_RELEASE)
static void put(void* p, char k) {
	if(!p) return;
	LOCK;
	size_t i = ((uintptr_t)p >> 4) * 2654435761u % N;
	while(tab[i] && tab[i] != (void*)1) i = (i + 1) % N;
	tab[i] = p; kind[i] = k; hx_live++;
	UNLOCK;
}
static int del(void* p, char k) {
	LOCK;
	size_t i = ((uintptr_t)p >> 4) * 2654435761u % N;
	for(int c = 0; tab[i] && c < N; c++, i = (i + 1) % N)
		if(tab[i] == p && kind[i] == k) { tab[i] = (void*)1; hx_live--; UNLOCK; return 1; }
	UNLOCK;
	return 0;
}
static int fails(size_t n) {
	hx_count++;
	if(n > hx_biggest) hx_biggest = n;
	if(n > hx_max_alloc || hx_count == hx_fail_at) { errno = ENOMEM; return 1; }
	return 0;
}
void hx_reset(void) { memset(tab, 0, sizeof(tab)); hx_live = hx_count = hx_bad_free = hx_files = hx_seeks = hx_plans = hx_frees = 0; hx_fail_at = hx_seek_fail_at = -1; hx_biggest = 0; }

void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
void* __wrap_malloc(size_t n) {
	if(fails(n)) return NULL;
	void* p = __real_malloc(n);
	if(p) memset(p, 0xA5, n);
	put(p, 'm'); return p;
}
void* __wrap_calloc(size_t m, size_t n) {
	if(n && m > SIZE_MAX / n) { hx_count++; return NULL; }
	if(fails(m * n)) return NULL;
	void* p = __real_calloc(m, n); put(p, 'm'); return p;
}
void* __wrap_realloc(void* q, size_t n) {
	if(!q) return __wrap_malloc(n);
	if(fails(n)) return NULL;
	if(!del(q, 'm')) hx_bad_free++;
	void* p = __real_realloc(q, n); put(p, 'm'); return p;
}
void __wrap_free(void* p) {
	if(!p) return;
	hx_frees++;
	if(!del(p, 'm')) { hx_bad_free++; return; }
	__real_free(p);
}
void hx_free(void* p) { __wrap_free(p); }

FILE* __real_fopen(const char*, const char*);
FILE* __real_freopen(const char*, const char*, FILE*);
int __real_fclose(FILE*);
int __real_fseek(FILE*, long, int);
int __real_fseeko(FILE*, off_t, int);
FILE* __wrap_fopen(const char* a, const char* b) { FILE* f = __real_fopen(a, b); if(f) { put(f, 'f'); hx_files++; } return f; }
int __wrap_fclose(FILE* f) { if(f == stdin) { hx_bad_free++; return 0; } if(!del(f, 'f')) { hx_bad_free++; return 0; } hx_files--; return __real_fclose(f); }
int __wrap_fseek(FILE* f, long o, int w) { if(++hx_seeks == hx_seek_fail_at) { errno = ESPIPE; return -1; } return __real_fseek(f, o, w); }
int __wrap_fseeko(FILE* f, off_t o, int w) { if(++hx_seeks == hx_seek_fail_at) { errno = ESPIPE; return -1; } return __real_fseeko(f, o, w); }

#ifdef HX_FFTW
typedef void* plan;
void* __real_fftwf_malloc(size_t);
void __real_fftwf_free(void*);
float* __real_fftwf_alloc_real(size_t);
plan __real_fftwf_plan_r2r_2d(int, int, float*, float*, int, int, unsigned);
plan __real_fftwf_plan_r2r(int, const int*, float*, float*, const int*, unsigned);
void __real_fftwf_destroy_plan(plan);
void* __wrap_fftwf_malloc(size_t n) { if(fails(n)) return NULL; void* p = __real_malloc(n); if(p) memset(p, 0xA5, n); put(p, 'w'); return p; }
float* __wrap_fftwf_alloc_real(size_t n) { if(n > SIZE_MAX / sizeof(float)) n = SIZE_MAX; return __wrap_fftwf_malloc(n * sizeof(float)); }
void __wrap_fftwf_free(void* p) { if(!p) return; if(!del(p, 'w')) { hx_bad_free++; return; } __real_free(p); }
plan __wrap_fftwf_plan_r2r_2d(int a, int b, float* i, float* o, int k, int l, unsigned f) { if(fails(0)) return NULL; plan p = __real_fftwf_plan_r2r_2d(a, b, i, o, k, l, f); if(p) { put(p, 'p'); hx_plans++; } return p; }
plan __wrap_fftwf_plan_r2r(int r, const int* n, float* i, float* o, const int* k, unsigned f) { if(fails(0)) return NULL; plan p = __real_fftwf_plan_r2r(r, n, i, o, (void*)k, f); if(p) { put(p, 'p'); hx_plans++; } return p; }
void __wrap_fftwf_destroy_plan(plan p) { if(!del(p, 'p')) { hx_bad_free++; return; } hx_plans--; __real_fftwf_destroy_plan(p); }
#endif
