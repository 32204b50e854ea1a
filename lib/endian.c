#import enc/endian
#import reader
#import writer

int main() {
	uint32_t v = OS.vf_u32(0);
	uint8_t buf[16] = {};
	writer.t *w = writer.static_buffer(buf, 16);
	OS.vf_assert(endian.write4be(w, v) == 4, "write4be reports 4 bytes");
	OS.vf_assert(endian.write4le(w, v) == 4, "write4le reports 4 bytes");
	OS.vf_assert(endian.write2le(w, v & 0xffff) == 2, "write2le reports 2 bytes");
	OS.vf_assert(endian.write1(w, OS.vf_c(0)) == 1, "write1 reports 1 byte");
	OS.vf_assert(w->nwritten == 11, "11 bytes written");
	OS.vf_assert(buf[0] == OS.vf_u8(3) && buf[1] == OS.vf_u8(2) && buf[2] == OS.vf_u8(1) && buf[3] == OS.vf_u8(0), "write4be puts the most significant byte first");
	OS.vf_assert(buf[4] == OS.vf_u8(0) && buf[5] == OS.vf_u8(1) && buf[6] == OS.vf_u8(2) && buf[7] == OS.vf_u8(3), "write4le puts the least significant byte first");
	OS.vf_assert(buf[8] == OS.vf_u8(0) && buf[9] == OS.vf_u8(1), "write2le puts the least significant byte first");
	OS.vf_assert(buf[10] == OS.vf_u8(0) && buf[11] == 0, "write1 writes its byte");
	reader.t *r = reader.static_buffer(buf, 16);
	uint32_t a = 0;
	uint32_t b = 0;
	uint16_t c = 0;
	uint8_t d = 0;
	OS.vf_assert(endian.read4be(r, &a) == 4 && a == v, "read4be reads back write4be");
	OS.vf_assert(endian.read4le(r, &b) == 4 && b == v, "read4le reads back write4le");
	OS.vf_assert(endian.read2le(r, &c) == 2 && c == OS.vf_in(0) + 256 * OS.vf_in(1), "read2le reads back write2le");
	OS.vf_assert(endian.read1(r, &d) == 1 && d == OS.vf_u8(0), "read1 reads back write1");
	reader.free(r);
	r = reader.static_buffer(buf, 5);
	OS.vf_assert(endian.read2be(r, &c) && c == OS.vf_in(3) * 256 + OS.vf_in(2), "read2be is most significant byte first");
	OS.vf_assert(endian.read3le(r, &a) == 3 && a == OS.vf_in(1) + 256 * OS.vf_in(0) + 65536 * OS.vf_in(0), "read3le is least significant byte first");
	OS.vf_assert(!endian.read2be(r, &c), "read2be fails at the end");
	OS.vf_assert(endian.read2le(r, &c) != 2, "read2le fails at the end");
	OS.vf_assert(endian.read4be(r, &a) != 4, "read4be does not report 4 bytes at the end");
	OS.vf_cover("end");
	reader.free(r);
	writer.free(w);
	return 0;
}
