From 69a7ce6fe8566543663a51abf0d9608bf24f86f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 01/13] fix: reject PGM files without the P5 magic number

fscanf with no conversions only fails at end of file, so any file with numbers
in the right places, such as a plain (P2) or color (P6) netpbm, was read as a
binary graymap.
---
 lib/image/pgm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/image/pgm.c b/lib/image/pgm.c
index 51e6ed1..42b85bf 100644
--- a/lib/image/pgm.c
+++ b/lib/image/pgm.c
@@ -51,7 +51,9 @@ static void* pgm_reader_open(const char* filename, size_t* width, size_t* height
 	}
 
 	if(
-	   fscanf(ctx->f,"P5 ") < 0 ||
+	   fgetc(ctx->f) != 'P' ||
+	   fgetc(ctx->f) != '5' ||
+	   fscanf(ctx->f," ") == EOF ||
 	   !skip_comments(ctx->f) ||
 	   fscanf(ctx->f,"%zu %zu %" SCNu16,width,height,&ctx->depth) != 3 ||
 	   !isspace(fgetc(ctx->f)) ||
-- 
2.43.0


From 712bb6a37faa0e80e86ea1249cfeb182b1c0af8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 02/13] fix: reject PGM maxval of 0 and values wrapping around
 16 bits

A maxval of 0 divided every pixel by zero and a maxval of 65536+n was taken as n.
---
 lib/image/pgm.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/image/pgm.c b/lib/image/pgm.c
index 42b85bf..d97b332 100644
--- a/lib/image/pgm.c
+++ b/lib/image/pgm.c
@@ -50,18 +50,20 @@ static void* pgm_reader_open(const char* filename, size_t* width, size_t* height
 		goto error;
 	}
 
+	size_t depth;
 	if(
 	   fgetc(ctx->f) != 'P' ||
 	   fgetc(ctx->f) != '5' ||
 	   fscanf(ctx->f," ") == EOF ||
 	   !skip_comments(ctx->f) ||
-	   fscanf(ctx->f,"%zu %zu %" SCNu16,width,height,&ctx->depth) != 3 ||
+	   fscanf(ctx->f,"%zu %zu %zu",width,height,&depth) != 3 ||
 	   !isspace(fgetc(ctx->f)) ||
-	   ctx->depth > 255
+	   !depth || depth > 255
 	) {
 		*error = RDEINVAL;
 		goto error;
 	}
+	ctx->depth = depth;
 
 	return ctx;
 
-- 
2.43.0


From a5c69951719843e2faab51eacbd75f0b858f6515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 03/13] fix: seeking a PFM by 0 frames no longer loses the
 consumed header

The next read expected another header in the raster and failed with RDEINVAL.
---
 lib/image/pfm.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/image/pfm.c b/lib/image/pfm.c
index da1f103..9d0d880 100644
--- a/lib/image/pfm.c
+++ b/lib/image/pfm.c
@@ -197,8 +197,6 @@ static bool pfm_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progr
 			progress(progress_ctx,i+1);
 	}
 
-	ctx->header_consumed = false;
-
 	if(!seekable)
 		free(buf);
 
-- 
2.43.0


From d66214ac2d9bfb9cf481437bc50a039c1a28fb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 04/13] fix: PFM seeking uses the format of each skipped frame

The frame size was computed once from the format of the last header read, so
skipping over frames of differing formats landed inside a raster.  This also
removes an overflow of the size of very large color frames.
---
 lib/image/pfm.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/lib/image/pfm.c b/lib/image/pfm.c
index 9d0d880..9356612 100644
--- a/lib/image/pfm.c
+++ b/lib/image/pfm.c
@@ -171,13 +171,11 @@ static bool pfm_reader_read_frame(void* reader_ctx, float* image, size_t width,
 static bool pfm_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progress)(void*,uint64_t), void* progress_ctx, size_t width, size_t height, RDError* error) {
 	struct pfm_context* ctx = reader_ctx;
 
-	size_t imgsize = width*height;
-	if(ctx->format == 'F')
-		imgsize *= 3;
+	size_t planesize = width*height*sizeof(float);
 
 	float* buf = NULL;
-	bool seekable = imgsize*sizeof(float) <= (size_t)LONG_MAX && !fseek(ctx->f,0,SEEK_CUR);
-	if(!seekable && !(buf = malloc(imgsize*sizeof(float)))) {
+	bool seekable = planesize <= (size_t)LONG_MAX && !fseek(ctx->f,0,SEEK_CUR);
+	if(!seekable && !(buf = malloc(planesize))) {
 		*error = RDENOMEM;
 		return false;
 	}
@@ -187,10 +185,11 @@ static bool pfm_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progr
 		if(!(ret = read_header(ctx,width,height,error)))
 			break;
 
-		if((*error = resdet_fskip(ctx->f,imgsize*sizeof(float),buf))) {
-			ret = false;
+		// each frame has its own format, and color has three samples per pixel
+		for(int c = ctx->format == 'F' ? 3 : 1; c > 0 && ret; c--)
+			ret = !(*error = resdet_fskip(ctx->f,planesize,buf));
+		if(!ret)
 			break;
-		}
 		ctx->header_consumed = false;
 
 		if(progress)
-- 
2.43.0


From 0b0512fcfe39a34ca2bc50b0246bf1e60f7f9e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 05/13] fix: Y4M 4:1:1 chroma is a quarter of the width at full
 height

The planes were sized as 4:2:0, which only matches for dimensions that divide evenly.
---
 lib/image/y4m.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/image/y4m.c b/lib/image/y4m.c
index 2053c4c..abbc11c 100644
--- a/lib/image/y4m.c
+++ b/lib/image/y4m.c
@@ -86,8 +86,10 @@ static void* y4m_reader_open(const char* filename, size_t* width, size_t* height
 		ctx->uv_plane_size = 0;
 	}
 	else {
-		if(!strncmp(csp,"420",3) || !strncmp(csp,"411",3))
+		if(!strncmp(csp,"420",3))
 			ctx->uv_plane_size = ((*width+1)/2) * ((*height+1)/2) * 2;
+		else if(!strncmp(csp,"411",3))
+			ctx->uv_plane_size = (*width+3)/4 * *height * 2;
 		else if(!strncmp(csp,"422",3))
 			ctx->uv_plane_size = (*width+1)/2 * *height * 2;
 		else if(!strncmp(csp,"444",3))
-- 
2.43.0


From 216b2ccea4966ef3e7455cac065c72ba3fbb4bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 06/13] fix: recognize the alpha plane of Y4M 444alpha

The test for 444 matched first, so the second frame was looked for in the alpha plane of the first.
---
 lib/image/y4m.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/image/y4m.c b/lib/image/y4m.c
index abbc11c..fd2c85e 100644
--- a/lib/image/y4m.c
+++ b/lib/image/y4m.c
@@ -92,10 +92,10 @@ static void* y4m_reader_open(const char* filename, size_t* width, size_t* height
 			ctx->uv_plane_size = (*width+3)/4 * *height * 2;
 		else if(!strncmp(csp,"422",3))
 			ctx->uv_plane_size = (*width+1)/2 * *height * 2;
-		else if(!strncmp(csp,"444",3))
-			ctx->uv_plane_size = *width * *height * 2;
 		else if(!strcmp(csp,"444alpha"))
 			ctx->uv_plane_size = *width * *height * 3;
+		else if(!strncmp(csp,"444",3))
+			ctx->uv_plane_size = *width * *height * 2;
 		else
 			goto invalid;
 
-- 
2.43.0


From 397cadd153c4a1959db2df513fbb5c3c2cb109f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 07/13] fix: keep the JPEG error handler and jump buffer alive
 while they are used

The handler was a compound literal of the open function, used after it returned
while reading; the jump buffers were compound literals of an if statement.
---
 lib/image/libjpeg.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/image/libjpeg.c b/lib/image/libjpeg.c
index 346e8aa..c98c035 100644
--- a/lib/image/libjpeg.c
+++ b/lib/image/libjpeg.c
@@ -18,6 +18,8 @@ struct libjpeg_context {
 	FILE* f;
 	bool eof;
 	struct jpeg_decompress_struct cinfo;
+	struct jpeg_error_mgr err;
+	jmp_buf jmp;
 };
 
 static void libjpeg_reader_close(void* reader_ctx) {
@@ -47,13 +49,15 @@ static void* libjpeg_reader_open(const char* filename, size_t* width, size_t* he
 		return NULL;
 	}
 
-	ctx->cinfo.err = &(struct jpeg_error_mgr){
+	ctx->err = (struct jpeg_error_mgr){
 		.error_exit      = jerr_error_exit,
 		.emit_message    = jerr_emit_message,
 		.reset_error_mgr = jerr_reset_error_mgr
 	};
+	ctx->cinfo.err = &ctx->err;
+	ctx->cinfo.client_data = ctx->jmp;
 
-	if(setjmp(ctx->cinfo.client_data = (jmp_buf){0})) {
+	if(setjmp(ctx->jmp)) {
 		*error = RDEINVAL;
 		goto error;
 	}
@@ -86,7 +90,7 @@ static bool libjpeg_reader_read_frame(void* reader_ctx, float* image, size_t wid
 		goto end;
 	}
 
-	if(setjmp(ctx->cinfo.client_data = (jmp_buf){0})) {
+	if(setjmp(ctx->jmp)) {
 		*error = RDEINVAL;
 		goto end;
 	}
-- 
2.43.0


From b01d2ea3e733f16a39b38e0880eb00c733306c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 08/13] fix: free the second KISS FFT dimension when creating
 the plan fails

The dimensions are not set yet at that point, so the buffers were taken for shared ones and leaked.
---
 lib/transform/kiss_fft.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/transform/kiss_fft.c b/lib/transform/kiss_fft.c
index c2d8edf..419d1fa 100644
--- a/lib/transform/kiss_fft.c
+++ b/lib/transform/kiss_fft.c
@@ -85,10 +85,10 @@ void resdet_free_plan(resdet_plan* p) {
 	if(p) {
 		free(p->cfg[0]);
 		free(p->shift[0]);
-		if(p->width != p->height) {
+		if(p->cfg[1] != p->cfg[0])
 			free(p->cfg[1]);
+		if(p->shift[1] != p->shift[0])
 			free(p->shift[1]);
-		}
 		free(p->mirror);
 		free(p->F);
 		free(p);
-- 
2.43.0


From ea99439db8cdfc6724ce5a00f8a103de89104dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 09/13] fix: mag method counts overflowing ratios as mismatches

frexp leaves the exponent unspecified (0 in practice) for an infinite ratio,
so it was counted as a match.
---
 lib/methods.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lib/methods.c b/lib/methods.c
index 637dc5d..b3a80bc 100644
--- a/lib/methods.c
+++ b/lib/methods.c
@@ -29,11 +29,8 @@ static RDError detect_method_magnitude(const coeff* restrict f, size_t length, s
 	for(rdint_index x = *start; x < *end; x++) {
 		rdint_storage mag_match = 0;
 		for(rdint_index y = 0; y < n; y++)
-			for(rdint_index i = 1; i <= range; i++) {
-				int e;
-				mi(frexp)(f[y*stride+x*dist-i*dist]/mc(copysign)(MAX(mc(fabs)(f[y*stride+x*dist+i*dist]),EPSILON),f[y*stride+x*dist+i*dist])+1,&e);
-				mag_match += e <= 0;
-			}
+			for(rdint_index i = 1; i <= range; i++)
+				mag_match += mi(fabs)(f[y*stride+x*dist-i*dist]/mc(copysign)(MAX(mc(fabs)(f[y*stride+x*dist+i*dist]),EPSILON),f[y*stride+x*dist+i*dist])+1) < 1;
 		result[x-*start] += mag_match / ((intermediate)n*range);
 	}
 	return RDEOK;
-- 
2.43.0


From d6afbedffe5b39eba4a15cb696c66cfad0e6798e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:52 +0000
Subject: [PATCH 10/13] fix: decode interlaced PNG images

png_set_interlace_handling must be called before png_read_update_info:
without it libpng prepares to deliver the rows of the passes separately,
and reading an interlaced image failed or mixed up its pixels.
---
 lib/image/libpng.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/image/libpng.c b/lib/image/libpng.c
index c2faa7e..7720a8e 100644
--- a/lib/image/libpng.c
+++ b/lib/image/libpng.c
@@ -94,6 +94,7 @@ static void* libpng_reader_open(const char* filename, size_t* width, size_t* hei
 	else if(bit_depth < 8)
 		png_set_expand_gray_1_2_4_to_8(ctx->png_ptr);
 
+	png_set_interlace_handling(ctx->png_ptr);
 	png_read_update_info(ctx->png_ptr,ctx->info_ptr);
 
 	return ctx;
-- 
2.43.0


From ab2e8eff9f7ed3bdd6e839cee68e282b2bc916a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:02 +0000
Subject: [PATCH 11/13] fix: report MagickWand failing to export a frame

---
 lib/image/magickwand.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/image/magickwand.c b/lib/image/magickwand.c
index 0cb4f2b..72cebf2 100644
--- a/lib/image/magickwand.c
+++ b/lib/image/magickwand.c
@@ -82,7 +82,10 @@ static bool magickwand_reader_read_frame(void* reader_ctx, float* image, size_t
 	if(MagickNextImage(ctx->wand) == MagickFalse)
 		return false;
 
-	MagickExportImagePixels(ctx->wand,0,0,width,height,"I",FloatPixel,image);
+	if(MagickExportImagePixels(ctx->wand,0,0,width,height,"I",FloatPixel,image) == MagickFalse) {
+		*error = RDEINVAL;
+		return false;
+	}
 	return true;
 }
 
-- 
2.43.0


From aaa18fef1224fef2a72268bd14ae23a0153b57d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:02 +0000
Subject: [PATCH 12/13] fix: MagickWand delivers no frame after the end

---
 lib/image/magickwand.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/image/magickwand.c b/lib/image/magickwand.c
index 72cebf2..258053c 100644
--- a/lib/image/magickwand.c
+++ b/lib/image/magickwand.c
@@ -19,6 +19,7 @@
 
 struct magickwand_context {
 	MagickWand* wand;
+	bool eof;
 };
 
 static void magickwand_reader_close(void* reader_ctx) {
@@ -36,6 +37,8 @@ static void* magickwand_reader_open(const char* filename, size_t* width, size_t*
 		goto error;
 	}
 
+	ctx->eof = false;
+
 	ctx->wand = NewMagickWand();
 	if(MagickReadImage(ctx->wand,filename) == MagickFalse) {
 		ExceptionType ex;
@@ -76,10 +79,17 @@ error:
 	return NULL;
 }
 
+// MagickNextImage delivers the last image again once called after the end
+static bool next_image(struct magickwand_context* ctx) {
+	if(!ctx->eof)
+		ctx->eof = MagickNextImage(ctx->wand) == MagickFalse;
+	return !ctx->eof;
+}
+
 static bool magickwand_reader_read_frame(void* reader_ctx, float* image, size_t width, size_t height, RDError* error) {
 	struct magickwand_context* ctx = reader_ctx;
 
-	if(MagickNextImage(ctx->wand) == MagickFalse)
+	if(!next_image(ctx))
 		return false;
 
 	if(MagickExportImagePixels(ctx->wand,0,0,width,height,"I",FloatPixel,image) == MagickFalse) {
@@ -92,7 +102,7 @@ static bool magickwand_reader_read_frame(void* reader_ctx, float* image, size_t
 static bool magickwand_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progress)(void*,uint64_t), void* progress_ctx, size_t width, size_t height, RDError* error) {
 	struct magickwand_context* ctx = reader_ctx;
 	for(uint64_t i = 0; i < offset; i++) {
-		if(MagickNextImage(ctx->wand) == MagickFalse)
+		if(!next_image(ctx))
 			return false;
 		if(progress)
 			progress(progress_ctx,i+1);
-- 
2.43.0


From f9d2e89428007fb205f9c0de2a02eaf0ed4a9208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:21 +0000
Subject: [PATCH 13/13] fix: refuse FFmpeg frames whose size or format changes
 midway

---
 lib/image/ffmpeg.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/image/ffmpeg.c b/lib/image/ffmpeg.c
index df03733..f38afa3 100644
--- a/lib/image/ffmpeg.c
+++ b/lib/image/ffmpeg.c
@@ -15,6 +15,7 @@ struct ffmpeg_context {
 	AVFormatContext* fmt;
 	AVCodecContext* codec;
 	int stream_index;
+	int pix_fmt;
 	struct SwsContext* sws;
 	AVFrame* swsframe,* frame;
 	AVPacket* packet;
@@ -103,6 +104,8 @@ static void* ffmpeg_reader_open(const char* filename, size_t* width, size_t* hei
 	ctx->frame->height = ctx->codec->height;
 	ctx->frame->format = little_endian() ? AV_PIX_FMT_GRAYF32LE : AV_PIX_FMT_GRAYF32BE;
 
+	ctx->pix_fmt = ctx->codec->pix_fmt;
+
 	*width = ctx->codec->width;
 	*height = ctx->codec->height;
 
@@ -137,7 +140,16 @@ static bool ffmpeg_reader_read_frame(void* reader_ctx, float* image, size_t widt
 	struct ffmpeg_context* ctx = reader_ctx;
 
 	int averr = read_frame(ctx);
-	if(averr || (averr = sws_scale_frame(ctx->sws,ctx->frame,ctx->swsframe)) < 0)
+	if(averr)
+		goto averror;
+
+	// the scaler reads out of bounds if the stream changes midway
+	if(ctx->swsframe->width != ctx->frame->width || ctx->swsframe->height != ctx->frame->height || ctx->swsframe->format != ctx->pix_fmt) {
+		*error = RDEINVAL;
+		return false;
+	}
+
+	if((averr = sws_scale_frame(ctx->sws,ctx->frame,ctx->swsframe)) < 0)
 		goto averror;
 
 	for(size_t y = 0; y < height; y++)
-- 
2.43.0

