/* The most general client of the public image functions: open, any sequence of reads and seeks, close.
 * spec_* are the points at which the specification looks (they are contracts, not code). */
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include "resdet.h"

void spec_opened(RDImage*, size_t*, size_t*, float**, RDError*);
bool spec_more(void);
bool spec_choice(void);
uint64_t spec_count(void);
void (*spec_progress(void))(void*, uint64_t);
void* spec_context(void);
void spec_read(bool, float*, RDError*);
void spec_seek(bool, RDError*);

void client(const char* name, const char* type) {
	size_t width, height;
	float* image;
	RDError e;
	RDImage* img = resdet_open_image(name, type, &width, &height, &image, &e);
	spec_opened(img, &width, &height, &image, &e);
	if(!img)
		return;
	while(spec_more()) {
		if(spec_choice())
			spec_read(resdet_read_image_frame(img, image, &e), image, &e);
		else {
			uint64_t n = spec_count();
			spec_seek(resdet_seek_frame(img, n, spec_progress(), spec_context(), &e), &e);
		}
	}
	resdet_close_image(img);
	free(image);
}

/* One operation in any state that satisfies the representation invariant (spec_any), which opening establishes. */
void spec_any(RDImage*, float*);

void client_one(const char* name, const char* type) {
	size_t width, height;
	float* image;
	RDError e;
	RDImage* img = resdet_open_image(name, type, &width, &height, &image, &e);
	spec_opened(img, &width, &height, &image, &e);
	if(!img)
		return;
	spec_any(img, image);
	if(spec_choice())
		spec_read(resdet_read_image_frame(img, image, &e), image, &e);
	else {
		uint64_t n = spec_count();
		spec_seek(resdet_seek_frame(img, n, spec_progress(), spec_context(), &e), &e);
	}
	resdet_close_image(img);
	free(image);
}
