/* The most general client of one image reader: open, any sequence of reads and seeks, close.
 * spec_* are the points at which the specification looks (they are contracts, not code). */
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include "resdet.h"

void spec_opened(void*, size_t*, size_t*, RDError*);
bool spec_more(void);
bool spec_choice(void);
uint64_t spec_count(void);
void (*spec_progress(void))(void*, uint64_t);
void* spec_context(void);
void spec_read(bool, float*, RDError*);
void spec_seek(bool, RDError*);

void media_client(void* (*open)(const char*, size_t*, size_t*, RDError*), bool (*read)(void*, float*, size_t, size_t, RDError*),
                  bool (*seek)(void*, uint64_t, void (*)(void*, uint64_t), void*, size_t, size_t, RDError*), void (*close)(void*),
                  const char* name, float* image) {
	size_t width, height;
	RDError e = RDEOK;
	void* ctx = open(name, &width, &height, &e);
	spec_opened(ctx, &width, &height, &e);
	if(!ctx)
		return;
	while(spec_more()) {
		e = RDEOK;
		if(spec_choice())
			spec_read(read(ctx, image, width, height, &e), image, &e);
		else {
			uint64_t n = spec_count();
			spec_seek(seek(ctx, n, spec_progress(), spec_context(), width, height, &e), &e);
		}
	}
	close(ctx);
}
