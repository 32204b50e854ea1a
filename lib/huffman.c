#import bits
#import compress/huffman
#import reader
#import writer

// A text of n letters is coded with the tree made from it and comes back.
void texttest() {
	int live = OS.vf_live();
	char text[8] = {};
	int n = OS.vf_in(1);
	for (int i = 0; i < n; i++) text[i] = OS.vf_i(254 - 61 * OS.vf_in(i + 2));
	bool different = false;
	for (int i = 1; i < n; i++) if (text[i] != text[0]) different = true;
	OS.vf_assume(OS.vf_i(different));
	uint8_t comp[50] = {};
	huffman.tree_t *t = huffman.buildtree(text);
	writer.t *w = writer.static_buffer(comp, 50);
	huffman.writer_t *hw = huffman.newwriter(t, w);
	for (int i = 0; i < n; i++) OS.vf_assert(OS.vf_i(huffman.write(hw, OS.vf_i(text[i]))), "writing succeeds");
	huffman.closewriter(hw);
	size_t size = w->nwritten;
	writer.free(w);
	reader.t *r = reader.static_buffer(comp, size);
	bits.reader_t *br = bits.newreader(r, bits.STRAIGHT);
	huffman.reader_t *hr = huffman.newreader(t, br);
	for (int i = 0; i < n; i++) {
		int c = huffman.read(hr);
		OS.vf_eq(c, OS.vf_i(text[i]) & 255, "the text comes back");
	}
	huffman.closereader(hr);
	bits.closereader(br);
	reader.free(r);
	huffman.freetree(t);
	OS.vf_assert(OS.vf_live() == live, "all memory is released");
	OS.vf_cover("text");
}

// A canonical tree: the codes of each length are assigned in order, as in RFC 1951 and JPEG.
void canontest() {
	uint8_t counts[4] = {};
	uint8_t vals[16] = {};
	int total = 0;
	int code = 0;
	int codes[16] = {};
	int lens[16] = {};
	int k = 0;
	for (int i = 0; i < 4; i++) {
		int c = OS.vf_in(2 + i);
		counts[i] = OS.vf_u8(2 + i);
		code = code * 2;
		for (int j = 0; j < c; j++) {
			OS.vf_assume(OS.vf_i(k < 16));
			OS.vf_assume(OS.vf_i(code < (1 << (i + 1))));
			codes[k] = code;
			lens[k] = i + 1;
			vals[k] = OS.vf_i(k * 3 + 5);
			code++;
			k++;
		}
		total += c;
	}
	OS.vf_assume(OS.vf_i(total > 0));
	huffman.tree_t *t = huffman.treefrom(counts, 4, vals);
	int which = OS.vf_in(1);
	OS.vf_assume(OS.vf_i(which < total));
	// The bits of the code, then padding.
	int shifted = codes[which] << (8 - lens[which]);
	uint8_t data[2] = {};
	data[0] = shifted;
	reader.t *r = reader.static_buffer(data, 2);
	bits.reader_t *br = bits.newreader(r, bits.STRAIGHT);
	huffman.reader_t *hr = huffman.newreader(t, br);
	int c = huffman.read(hr);
	OS.vf_eq(c, which * 3 + 5, "a canonical code gives its value");
	huffman.closereader(hr);
	bits.closereader(br);
	reader.free(r);
	huffman.freetree(t);
	OS.vf_cover("canon");
}

int main() {
	if (OS.vf_in(0) == 0) texttest();
	else canontest();
	return 0;
}
