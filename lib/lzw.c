#import compress/lzw
#import reader
#import writer


// What is compressed comes back when it is decompressed.
int main() {
	int live = OS.vf_live();
	uint8_t in[40] = {};
	uint8_t comp[400] = {};
	uint8_t out[100] = {};
	size_t n = (size_t) OS.vf_in(0);
	size_t alphabet = ALPHABET;
	for (size_t i = 0; i < n; i++) in[i] = OS.vf_u8(OS.vf_i(i) + 1);
	reader.t *r = reader.static_buffer(in, n);
	writer.t *w = writer.static_buffer(comp, 400);
	lzw.compress(r, alphabet, w);
	size_t size = w->nwritten;
	reader.free(r);
	writer.free(w);
	OS.vf_assert(size > 0, "the compressed data is written");
	r = reader.static_buffer(comp, size);
	w = writer.static_buffer(out, 100);
	lzw.dec_t *d = lzw.newdecoder(r, alphabet);
	lzw.decodeinto(d, w);
	OS.vf_eq(w->nwritten, n, "decompression gives as many bytes as were compressed");
	for (size_t i = 0; i < n; i++) OS.vf_eq(out[i], in[i], "decompression gives the bytes that were compressed");
	lzw.freedecoder(d);
	reader.free(r);
	writer.free(w);
	OS.vf_assert(OS.vf_live() == live, "all memory is released");
	OS.vf_cover("end");
	return 0;
}
