#import enc/hex
#import enc/urlencode
#import writer

int val(int c, bool upper) {
	if (c >= 48 && c <= 57) return c - 48;
	if (!upper && c >= 97 && c <= 102) return c - 87;
	if (upper && c >= 65 && c <= 70) return c - 55;
	return -1000;
}

int main() {
	char data[3] = {};
	for (int i = 0; i < 3; i++) data[i] = OS.vf_c(i);
	size_t n = OS.vf_in(3);
	size_t cap = OS.vf_in(4);
	uint8_t out[16] = {};
	char two[3] = {};
	OS.vf_assert(hex.writebyte(OS.vf_u8(0), two) == &two[2], "writebyte returns the next position");
	OS.vf_assert(val(OS.vf_i(two[0]), false) * 16 + val(OS.vf_i(two[1]), false) == OS.vf_in(0) && OS.vf_i(two[2]) == 0, "writebyte writes two hexadecimal digits");

	writer.t *w = writer.static_buffer(out, cap);
	int r = hex.write(w, data, n);
	if (cap >= 2 * n) {
		OS.vf_cover("all");
		OS.vf_assert(r == (int) n, "hex.write returns the number of data bytes written");
	} else if (r >= 0) {
		OS.vf_assert(2 * r <= (int) cap && r < (int) n, "hex.write never claims more than was written");
	}
	OS.vf_assert(w->nwritten <= cap, "hex.write stays within the output");
	for (int i = 0; i < r; i++) OS.vf_assert(val(OS.vf_i(out[2 * i]), false) * 16 + val(OS.vf_i(out[2 * i + 1]), false) == OS.vf_in(i), "hex.write writes each byte as two digits, high one first");
	writer.free(w);

	for (int i = 0; i < 16; i++) out[i] = 0;
	w = writer.static_buffer(out, cap);
	r = urlencode.write(w, data, n);
	if (r < 0) {
		OS.vf_assert(cap < 9, "urlencode.write fails only for lack of space");
		OS.vf_cover("nospace");
	} else {
		OS.vf_assert(r == (int) w->nwritten && r <= (int) cap, "urlencode.write returns the number of bytes written");
		// decode
		size_t p = 0;
		for (size_t i = 0; i < n; i++) {
			int c = OS.vf_in((int) i);
			bool plain = (c >= 48 && c <= 57) || (c >= 97 && c <= 122) || (c >= 65 && c <= 90);
			if (plain) {
				OS.vf_assert(out[p] == OS.vf_u8((int) i), "letters and digits stay as they are");
				p++;
			} else {
				OS.vf_assert(OS.vf_i(out[p]) == 37 && val(OS.vf_i(out[p + 1]), true) * 16 + val(OS.vf_i(out[p + 2]), true) == c, "any other byte becomes % and two digits");
				p += 3;
			}
		}
		OS.vf_assert((int) p == r, "nothing follows the encoded data");
		OS.vf_cover("url");
	}
	writer.free(w);
	return 0;
}
