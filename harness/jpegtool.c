/* JPEG files to test with, and their reference decoding */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <jpeglib.h>

void __real_free(void *);

unsigned long hx_jpeg_encode(const unsigned char *px, int w, int h, int ch, int quality, int flags, unsigned char *out, unsigned long room) {
	struct jpeg_compress_struct c;
	struct jpeg_error_mgr e;
	unsigned char *buf = NULL;
	unsigned long n = 0;
	memset(&c, 0, sizeof c);
	c.err = jpeg_std_error(&e);
	jpeg_create_compress(&c);
	jpeg_mem_dest(&c, &buf, &n);
	c.image_width = w;
	c.image_height = h;
	c.input_components = ch;
	c.in_color_space = ch == 1 ? JCS_GRAYSCALE : JCS_RGB;
	jpeg_set_defaults(&c);
	jpeg_set_quality(&c, quality, TRUE);
	if(flags & 1)
		jpeg_simple_progression(&c);
	if(flags & 2 && ch == 3)
		c.comp_info[0].h_samp_factor = c.comp_info[0].v_samp_factor = 1;
	if(flags & 4)
		c.restart_interval = 1;
	jpeg_start_compress(&c, TRUE);
	while(c.next_scanline < c.image_height) {
		JSAMPROW r = (JSAMPROW)px + (size_t)c.next_scanline * w * ch;
		jpeg_write_scanlines(&c, &r, 1);
	}
	jpeg_finish_compress(&c);
	jpeg_destroy_compress(&c);
	if(n <= room)
		memcpy(out, buf, n);
	__real_free(buf);	/* not one of the library's */
	return n <= room ? n : 0;
}

int hx_jpeg_decode(const unsigned char *d, unsigned long n, unsigned char *out, int w, int h) {
	struct jpeg_decompress_struct c;
	struct jpeg_error_mgr e;
	memset(&c, 0, sizeof c);
	c.err = jpeg_std_error(&e);
	jpeg_create_decompress(&c);
	jpeg_mem_src(&c, (unsigned char *)d, n);
	jpeg_read_header(&c, TRUE);
	c.out_color_space = JCS_GRAYSCALE;
	jpeg_start_decompress(&c);
	if(c.output_width != w || c.output_height != h)
		return 0;
	while(c.output_scanline < c.output_height) {
		JSAMPROW r = out + (size_t)c.output_scanline * w;
		jpeg_read_scanlines(&c, &r, 1);
	}
	jpeg_finish_decompress(&c);
	jpeg_destroy_decompress(&c);
	return 1;
}
