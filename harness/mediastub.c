/* Scripted stand-ins for libavformat, libavcodec, libswscale and MagickWand, against which the two readers are run (h_c26.py). */
#include "image.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <libavutil/opt.h>
#include <libavformat/avformat.h>
#include <libavcodec/avcodec.h>
#include <libswscale/swscale.h>
#include <wand/MagickWand.h>

void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void __real_free(void*);

extern struct image_reader resdet_image_reader_ffmpeg, resdet_image_reader_magickwand;

/* script */
int mx_w, mx_h, mx_fmt, mx_stream, mx_npackets, mx_delay, mx_pad, mx_badframe, mx_badkind, mx_nimages, mx_extype, mx_errno, mx_ndemux, mx_after;
int mx_streams[256], mx_perpacket[256];
long mx_calls, mx_fail_at, mx_sites, mx_live;
int mx_fail_code;
char mx_failed[64], mx_broken[256], mx_name[64], mx_demux[16][32];
int mx_got;

int __xpg_strerror_r(int, char*, size_t);
static void broken(const char* s) { if(!*mx_broken) { strncpy(mx_broken, s, 255); } }
static int fails(const char* f) {
	if(++mx_calls != mx_fail_at) return 0;
	strncpy(mx_failed, f, 63);
	return 1;
}
#define TRY(f) do { if(fails(f)) return mx_fail_code; } while(0)

static struct AVFormatContext_* unused;
static AVStream* streams[16];
static AVCodecParameters* pars[16];
static int pos, emitted, queued, flushed, hungry, cur, eof, infoed;
static int opts[6], inited, opened;
static uint8_t decoder_[8];
static AVPacket* held;
static int heldstream, sent, isheld;

void mx_reset(void) {
	pos = emitted = queued = flushed = eof = infoed = inited = opened = isheld = sent = hungry = 0;
	mx_calls = mx_live = 0; mx_got = 0; cur = 0;
	mx_fail_at = -1; mx_fail_code = -5; mx_delay = mx_pad = 0; mx_badframe = -1; mx_badkind = 0; mx_extype = 0; mx_errno = 0; mx_after = 1;
	*mx_failed = *mx_broken = *mx_name = 0;
	memset(opts, -1, sizeof(opts));
}

int avformat_open_input(AVFormatContext** f, const char* name, const AVInputFormat* i, AVDictionary** o) {
	strncpy(mx_name, name, 63);
	TRY("avformat_open_input");
	*f = __real_calloc(1, sizeof(**f));
	(*f)->streams = streams;
	(*f)->nb_streams = 16;
	for(int k = 0; k < 16; k++) {
		streams[k] = __real_calloc(1, sizeof(AVStream));
		streams[k]->codecpar = __real_calloc(1, sizeof(AVCodecParameters));
		streams[k]->codecpar->codec_id = 1000 + k;
	}
	mx_live++;
	return 0;
}
int avformat_find_stream_info(AVFormatContext* f, AVDictionary** o) { TRY("avformat_find_stream_info"); infoed = 1; return mx_calls % 2; }
int av_find_best_stream(AVFormatContext* f, enum AVMediaType t, int a, int b, const AVCodec** d, int fl) {
	if(t != AVMEDIA_TYPE_VIDEO || !infoed) broken("av_find_best_stream");
	TRY("av_find_best_stream");
	if(d) *d = (const AVCodec*)decoder_;
	return mx_stream;
}
AVCodecContext* avcodec_alloc_context3(const AVCodec* c) {
	if(c != (const AVCodec*)decoder_) broken("avcodec_alloc_context3 of another decoder");
	if(fails("avcodec_alloc_context3")) return NULL;
	mx_live++;
	return __real_calloc(1, sizeof(AVCodecContext));
}
int avcodec_parameters_to_context(AVCodecContext* c, const AVCodecParameters* p) {
	if((int)p->codec_id != 1000 + mx_stream) broken("parameters of another stream");
	TRY("avcodec_parameters_to_context");
	return 0;
}
int avcodec_open2(AVCodecContext* c, const AVCodec* d, AVDictionary** o) {
	TRY("avcodec_open2");
	c->width = mx_w; c->height = mx_h; c->pix_fmt = mx_fmt; opened = 1;
	return 0;
}
void avcodec_free_context(AVCodecContext** c) { if(*c) { mx_live--; __real_free(*c); *c = NULL; } }
struct SwsContext* sws_alloc_context(void) { if(fails("sws_alloc_context")) return NULL; mx_live++; return __real_calloc(1, 64); }
void sws_freeContext(struct SwsContext* s) { if(s) { mx_live--; __real_free(s); } }
AVFrame* av_frame_alloc(void) { if(fails("av_frame_alloc")) return NULL; mx_live++; AVFrame* f = __real_calloc(1, sizeof(*f)); f->format = -1; return f; }
void av_frame_unref(AVFrame* f) { __real_free(f->data[0]); memset(f, 0, sizeof(*f)); f->format = -1; }
void av_frame_free(AVFrame** f) { if(*f) { mx_live--; av_frame_unref(*f); __real_free(*f); *f = NULL; } }
AVPacket* av_packet_alloc(void) { if(fails("av_packet_alloc")) return NULL; mx_live++; return __real_calloc(1, sizeof(AVPacket)); }
void av_packet_unref(AVPacket* p) {
	if(isheld && heldstream == mx_stream && !sent && !eof) broken("a packet was dropped");
	isheld = 0;
	memset(p, 0, sizeof(*p));
}
void av_packet_free(AVPacket** p) { if(*p) { mx_live--; av_packet_unref(*p); __real_free(*p); *p = NULL; } }
int av_opt_set_int(void* s, const char* n, int64_t v, int fl) {
	static const char* names[] = {"srcw", "srch", "src_format", "dstw", "dsth", "dst_format"};
	for(int i = 0; i < 6; i++) if(!strcmp(n, names[i])) opts[i] = v;
	return 0;
}
int sws_init_context(struct SwsContext* s, SwsFilter* a, SwsFilter* b) {
	TRY("sws_init_context");
	if(opts[0] != mx_w || opts[1] != mx_h || opts[2] != mx_fmt || opts[3] != mx_w || opts[4] != mx_h || opts[5] != AV_PIX_FMT_GRAYF32LE) broken("the scaler is set up otherwise");
	inited = 1;
	return 0;
}
int av_read_frame(AVFormatContext* f, AVPacket* p) {
	if(isheld) broken("av_read_frame into a packet that is not blank");
	if(fails("av_read_frame")) { eof = 1; return mx_fail_code; }
	if(pos == mx_npackets) { eof = 1; return AVERROR_EOF; }
	isheld = 1; sent = 0;
	heldstream = p->stream_index = mx_streams[pos];
	p->pts = pos++;
	return 0;
}
int avcodec_send_packet(AVCodecContext* c, const AVPacket* p) {
	if(flushed) return AVERROR_EOF;
	if(!hungry) return AVERROR(EAGAIN);
	if(!p) {
		if(!eof) broken("drained before the end");
		TRY("avcodec_send_packet");
		flushed = 1; hungry = 0;
		return 0;
	}
	if(!isheld || heldstream != mx_stream || sent) broken("another packet is decoded");
	sent = 1; hungry = 0;
	TRY("avcodec_send_packet");
	queued += mx_perpacket[p->pts];
	return 0;
}
int avcodec_receive_frame(AVCodecContext* c, AVFrame* f) {
	if(!opened) broken("decoder not open");
	av_frame_unref(f);
	if(fails("avcodec_receive_frame")) return mx_fail_code;
	if(emitted >= queued - (flushed ? 0 : mx_delay)) {
		if(flushed) return AVERROR_EOF;
		hungry = 1;
		return AVERROR(EAGAIN);
	}
	f->width = mx_w; f->height = mx_h; f->format = mx_fmt;
	if(emitted == mx_badframe) {
		if(mx_badkind == 0) f->width /= 2;
		else if(mx_badkind == 1) f->height += 1;
		else f->format += 1;
	}
	f->pts = emitted++;
	mx_got++;
	return 0;
}
static float value(int k, int i) { return (k * 1000 + i + 1) / 1048576.f; }
int sws_scale_frame(struct SwsContext* s, AVFrame* d, const AVFrame* f) {
	if(!inited) broken("scaler not initialised");
	if(f->width != mx_w || f->height != mx_h || f->format != mx_fmt) broken("the scaler reads a frame of another size or format out of bounds");
	if(d->width != mx_w || d->height != mx_h || d->format != AV_PIX_FMT_GRAYF32LE) broken("the scaler writes a frame of another size or format");
	TRY("sws_scale_frame");
	if(!d->data[0]) { d->linesize[0] = 4 * (mx_w + mx_pad); d->data[0] = __real_malloc((size_t)d->linesize[0] * mx_h); }
	for(int y = 0; y < mx_h; y++)
		for(int x = 0; x < mx_w + mx_pad; x++)
			((float*)(d->data[0] + (size_t)y * d->linesize[0]))[x] = x < mx_w ? value(f->pts, y * mx_w + x) : -1;
	return mx_calls % 2 * mx_h;
}
int av_strerror(int e, char* b, size_t n) {
	if(e > -200 && e < 200) { return __xpg_strerror_r(-e, b, n); }
	strncpy(b, "other", n);
	return -1;
}
void avformat_close_input(AVFormatContext** f) {
	if(*f) {
		mx_live--;
		for(int k = 0; k < 16; k++) { __real_free(streams[k]->codecpar); __real_free(streams[k]); streams[k] = NULL; }
		__real_free(*f); *f = NULL;
	}
}
const AVInputFormat* av_demuxer_iterate(void** st) {
	static AVInputFormat f;
	uintptr_t i = (uintptr_t)*st;
	if((int)i >= mx_ndemux) return NULL;
	*st = (void*)(i + 1);
	f.extensions = mx_demux[i];
	return &f;
}
int av_match_name(const char* n, const char* l) {
	size_t k = strlen(n);
	for(const char* p = l; p && *p;) {
		const char* q = strchr(p, ',');
		size_t m = q ? (size_t)(q - p) : strlen(p);
		if(m == k && !strncmp(n, p, m)) return 1;
		p = q ? q + 1 : NULL;
	}
	return 0;
}

/* MagickWand */
struct _MagickWand { int cur, read; };
MagickWand* NewMagickWand(void) { mx_live++; MagickWand* w = __real_calloc(1, sizeof(*w)); return w; }
MagickWand* DestroyMagickWand(MagickWand* w) { if(!w) { broken("DestroyMagickWand(NULL)"); return NULL; } mx_live--; __real_free(w); return NULL; }
MagickBooleanType MagickReadImage(MagickWand* w, const char* n) {
	strncpy(mx_name, n, 63);
	if(fails("MagickReadImage")) { errno = mx_errno; return MagickFalse; }
	w->cur = mx_nimages - 1; w->read = 1;
	return MagickTrue;
}
char* MagickGetException(const MagickWand* w, ExceptionType* t) { *t = mx_extype; mx_live++; errno = mx_errno; return __real_calloc(1, 16); }
void* RelinquishMagickMemory(void* p) { if(p) { mx_live--; __real_free(p); } return NULL; }
size_t MagickGetImageWidth(MagickWand* w) { if(!w->read) broken("no image"); return mx_w; }
size_t MagickGetImageHeight(MagickWand* w) { if(!w->read) broken("no image"); return mx_h; }
void MagickResetIterator(MagickWand* w) { w->cur = -1; }
MagickBooleanType MagickNextImage(MagickWand* w) {
	if(w->cur >= mx_nimages) return mx_after ? MagickTrue : MagickFalse;
	w->cur++;
	if(w->cur >= mx_nimages) return MagickFalse;
	mx_got++;
	return MagickTrue;
}
MagickBooleanType MagickExportImagePixels(MagickWand* w, const ssize_t x, const ssize_t y, const size_t cols, const size_t rows, const char* map, const StorageType t, void* p) {
	if(w->cur < 0) broken("no image was reached");
	if(x || y || (int)cols != mx_w || (int)rows != mx_h || strcmp(map, "I") || t != FloatPixel) broken("something else is exported");
	if(fails("MagickExportImagePixels")) return MagickFalse;
	int k = w->cur < mx_nimages ? w->cur : mx_nimages - 1;
	for(size_t i = 0; i < cols * rows; i++) ((float*)p)[i] = value(k, i);
	return MagickTrue;
}
int mx_extypes(int k) { int t[] = {BlobError, FileOpenError, ResourceLimitError, ResourceLimitFatalError, MissingDelegateError, CorruptImageError}; return t[k]; }

static struct image_reader* R(int which) { return which ? &resdet_image_reader_magickwand : &resdet_image_reader_ffmpeg; }
void* mx_open(int r, const char* n, size_t* w, size_t* h, RDError* e) { return R(r)->open(n, w, h, e); }
bool mx_read(int r, void* c, float* im, size_t w, size_t h, RDError* e) { return R(r)->read_frame(c, im, w, h, e); }
bool mx_seek(int r, void* c, uint64_t n, void (*p)(void*, uint64_t), void* pc, size_t w, size_t h, RDError* e) { return R(r)->seek_frame(c, n, p, pc, w, h, e); }
void mx_close(int r, void* c) { R(r)->close(c); }
bool mx_ext(int r, const char* x) { return R(r)->supports_ext(x); }
