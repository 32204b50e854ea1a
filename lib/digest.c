#import crypt/md5
#import crypt/sha1

// Reference implementations, written from RFC 1321 and FIPS 180-4, over a whole padded message.

uint32_t K5[64] = {
	0xd76aa478, 0xe8c7b756, 0x242070db, 0xc1bdceee, 0xf57c0faf, 0x4787c62a, 0xa8304613, 0xfd469501,
	0x698098d8, 0x8b44f7af, 0xffff5bb1, 0x895cd7be, 0x6b901122, 0xfd987193, 0xa679438e, 0x49b40821,
	0xf61e2562, 0xc040b340, 0x265e5a51, 0xe9b6c7aa, 0xd62f105d, 0x02441453, 0xd8a1e681, 0xe7d3fbc8,
	0x21e1cde6, 0xc33707d6, 0xf4d50d87, 0x455a14ed, 0xa9e3e905, 0xfcefa3f8, 0x676f02d9, 0x8d2a4c8a,
	0xfffa3942, 0x8771f681, 0x6d9d6122, 0xfde5380c, 0xa4beea44, 0x4bdecfa9, 0xf6bb4b60, 0xbebfbc70,
	0x289b7ec6, 0xeaa127fa, 0xd4ef3085, 0x04881d05, 0xd9d4d039, 0xe6db99e5, 0x1fa27cf8, 0xc4ac5665,
	0xf4292244, 0x432aff97, 0xab9423a7, 0xfc93a039, 0x655b59c3, 0x8f0ccc92, 0xffeff47d, 0x85845dd1,
	0x6fa87e4f, 0xfe2ce6e0, 0xa3014314, 0x4e0811a1, 0xf7537e82, 0xbd3af235, 0x2ad7d2bb, 0xeb86d391
};
int R5[] = {7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21};

uint32_t rot(uint32_t x, int n) {
	return (x << n) | (x >> (32 - n));
}

uint8_t padded[256] = {};

// Pads the message of n bytes in `padded`, returns the number of blocks.
int pad(int n, bool little) {
	padded[n] = 128;
	int blocks = (n + 9 + 63) / 64;
	for (int i = n + 1; i < blocks * 64; i++) padded[i] = 0;
	for (int i = 0; i < 4; i++) {
		int b = ((n * 8) >> (8 * i)) & 255;
		if (little) padded[blocks * 64 - 8 + i] = b;
		else padded[blocks * 64 - 1 - i] = b;
	}
	return blocks;
}

void ref5(int n, uint32_t *out) {
	int blocks = pad(n, true);
	out[0] = 0x67452301;
	out[1] = 0xefcdab89;
	out[2] = 0x98badcfe;
	out[3] = 0x10325476;
	for (int k = 0; k < blocks; k++) {
		uint8_t *p = &padded[64 * k];
		uint32_t m[16] = {};
		for (int i = 0; i < 16; i++) {
			for (int j = 3; j >= 0; j--) m[i] = (m[i] << 8) | p[4 * i + j];
		}
		uint32_t a = out[0];
		uint32_t b = out[1];
		uint32_t c = out[2];
		uint32_t d = out[3];
		for (int i = 0; i < 64; i++) {
			uint32_t f = 0;
			int g = 0;
			if (i < 16) {
				f = (b & c) | ((~b) & d);
				g = i;
			} else if (i < 32) {
				f = (d & b) | ((~d) & c);
				g = (5 * i + 1) % 16;
			} else if (i < 48) {
				f = b ^ c ^ d;
				g = (3 * i + 5) % 16;
			} else {
				f = c ^ (b | (~d));
				g = (7 * i) % 16;
			}
			f = f + a + K5[i] + m[g];
			a = d;
			d = c;
			c = b;
			b = b + rot(f, R5[4 * (i / 16) + i % 4]);
		}
		out[0] = out[0] + a;
		out[1] = out[1] + b;
		out[2] = out[2] + c;
		out[3] = out[3] + d;
	}
}

void ref1(int n, uint32_t *out) {
	int blocks = pad(n, false);
	out[0] = 0x67452301;
	out[1] = 0xefcdab89;
	out[2] = 0x98badcfe;
	out[3] = 0x10325476;
	out[4] = 0xc3d2e1f0;
	for (int k = 0; k < blocks; k++) {
		uint8_t *p = &padded[64 * k];
		uint32_t w[80] = {};
		for (int i = 0; i < 16; i++) {
			for (int j = 0; j < 4; j++) w[i] = (w[i] << 8) | p[4 * i + j];
		}
		for (int i = 16; i < 80; i++) w[i] = rot(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
		uint32_t a = out[0];
		uint32_t b = out[1];
		uint32_t c = out[2];
		uint32_t d = out[3];
		uint32_t e = out[4];
		for (int i = 0; i < 80; i++) {
			uint32_t f = b ^ c ^ d;
			uint32_t q = 0x6ed9eba1;
			if (i < 20) {
				f = (b & c) | ((~b) & d);
				q = 0x5a827999;
			} else if (i >= 40 && i < 60) {
				f = (b & c) | (b & d) | (c & d);
				q = 0x8f1bbcdc;
			} else if (i >= 60) {
				q = 0xca62c1d6;
			}
			uint32_t t = rot(a, 5) + f + e + q + w[i];
			e = d;
			d = c;
			c = rot(b, 30);
			b = a;
			a = t;
		}
		out[0] = out[0] + a;
		out[1] = out[1] + b;
		out[2] = out[2] + c;
		out[3] = out[3] + d;
		out[4] = out[4] + e;
	}
}

uint8_t VALS[] = {0, 255, 128, 127, 10, 26, 1, 254};

int main() {
	int n = OS.vf_pick(0);
	// One byte at any of these places has any value.
	int at = 0;
	switch (OS.vf_pick(1)) {
		case 0: { at = 0; }
		case 1: { at = n / 2; }
		case 2: { at = n - 1; }
		default: { at = n - 2; }
	}
	if (at < 0) at = 0;
	for (int i = 0; i < n; i++) padded[i] = i * 7 + 1;
	int sel = OS.vf_pick(2);
	if (n > 0) padded[at] = VALS[sel];
	int live = OS.vf_live();
	if (OS.vf_in(3) == 0) {
		char copy[256] = {};
		for (int i = 0; i < n; i++) copy[i] = OS.vf_i(padded[i]);
		uint32_t sum[4] = {};
		uint32_t ref[4] = {};
		OS.vf_eq(md5.md5_buf(copy, (size_t) n, sum), 1, "md5 succeeds");
		ref5(n, ref);
		for (int i = 0; i < 4; i++) OS.vf_eq(sum[i], ref[i], "md5 gives the digest of RFC 1321");
		OS.vf_cover("md5");
	} else {
		uint8_t copy[256] = {};
		for (int i = 0; i < n; i++) copy[i] = padded[i];
		sha1.digest_t h = {};
		sha1.reset(&h);
		for (int i = 0; i < n; i++) OS.vf_eq(sha1.add(&h, OS.vf_i(copy[i])), 1, "sha1 takes the next byte");
		OS.vf_eq(sha1.end(&h), 1, "sha1 ends");
		OS.vf_eq(sha1.add(&h, 0), 0, "sha1 takes no byte after the end");
		uint32_t ref[5] = {};
		ref1(n, ref);
		uint8_t sum[20] = {};
		sha1.as_bytes(&h, sum);
		for (int i = 0; i < 20; i++) OS.vf_eq(sum[i], (ref[i / 4] >> (24 - 8 * (i % 4))) & 255, "sha1 gives the digest of FIPS 180-4");
		OS.vf_cover("sha1");
	}
	OS.vf_assert(OS.vf_live() == live, "all memory is released");
	return 0;
}
