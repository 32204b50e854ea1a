#import bits
#import reader
#import writer

enum { N = 11 }

void check(int order) {
	uint8_t buf[4] = {};
	uint8_t bit[16] = {};
	for (int i = 0; i < N; i++) bit[i] = OS.vf_u8(i);
	int live = OS.vf_live();
	writer.t *w = writer.static_buffer(buf, 4);
	bits.writer_t *bw = bits.newwriter(w, order);
	OS.vf_assert(bits.write(bw, bit, N), "write succeeds while there is space");
	OS.vf_assert(bits.closewriter(bw), "close succeeds");
	OS.vf_assert(w->nwritten == 2, "the unfinished byte is written on close");
	for (int i = 0; i < N; i++) {
		int shift = i % 8;
		if (order == bits.STRAIGHT) shift = 7 - shift;
		OS.vf_eq((buf[i / 8] >> shift) & 1, bit[i], "bits are packed in the order asked for");
	}
	OS.vf_assert(buf[2] == 0 && buf[3] == 0, "nothing else is written");
	reader.t *r = reader.static_buffer(buf, 2);
	bits.reader_t *br = bits.newreader(r, order);
	for (int i = 0; i < N - 3; i++) {
		OS.vf_eq(bits.read1(br), bit[i], "bits are read back in the order they were written");
	}
	int v = 0;
	for (int i = N - 3; i < N; i++) v = v * 2 + OS.vf_in(i);
	OS.vf_assert(bits.readn(br, 3) == v, "readn gives the value of the next bits, first bit highest");
	for (int i = N; i < 16; i++) OS.vf_assert(bits.read1(br) == 0, "padding bits are zero");
	OS.vf_assert(bits.read1(br) == -1, "read1 returns -1 when there is no next bit");
	OS.vf_assert(bits.readn(br, 2) == -1, "readn returns -1 when there are not enough bits");
	bits.closereader(br);
	reader.free(r);
	writer.free(w);
	OS.vf_assert(OS.vf_live() == live, "all memory is released");
	uint8_t un[8] = {};
	uint8_t um[8] = {};
	bits.getbits_lsfirst(buf[0], un);
	bits.getbits_msfirst(buf[0], um);
	for (int i = 0; i < 8; i++) {
		OS.vf_eq(un[i], (buf[0] >> i) & 1, "getbits_lsfirst unpacks a byte");
		OS.vf_eq(um[i], (buf[0] >> (7 - i)) & 1, "getbits_msfirst unpacks a byte");
	}
}

int main() {
	if (OS.vf_in(N) == 0) check(bits.STRAIGHT);
	else check(bits.REVERSED);
	// a full output is an error
	uint8_t one[1] = {};
	writer.t *w = writer.static_buffer(one, 1);
	bits.writer_t *bw = bits.newwriter(w, bits.STRAIGHT);
	for (int i = 0; i < 8; i++) OS.vf_assert(bits.write1(bw, OS.vf_u8(i)), "the first byte fits");
	for (int i = 0; i < 8; i++) OS.vf_assert(bits.write1(bw, 1) == (i < 7), "write1 fails when the output is full");
	OS.vf_assert(!bits.write1(bw, 1), "a failed writer stays failed");
	OS.vf_assert(!bits.closewriter(bw), "close reports the error");
	writer.free(w);
	OS.vf_cover("end");
	return 0;
}
