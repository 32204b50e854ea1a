#import utf

// The rune at s by the definition of UTF-8 (0 for an error).
int ref(const uint8_t *s, int *len) {
	int a = s[0];
	int b = s[1];
	int c = s[2];
	int d = s[3];
	*len = 1;
	if (a < 128) return a;
	if (a >= 0xC2 && a <= 0xDF && b / 64 == 2) { *len = 2; return (a - 0xC0) * 64 + (b - 128); }
	if (a >= 0xE0 && a <= 0xEF && b / 64 == 2 && c / 64 == 2) {
		int r = ((a - 0xE0) * 64 + (b - 128)) * 64 + (c - 128);
		if (r > 0x7FF) { *len = 3; return r; }
	}
	if (a >= 0xF0 && a <= 0xF7 && b / 64 == 2 && c / 64 == 2 && d / 64 == 2) {
		int r = (((a - 0xF0) * 64 + (b - 128)) * 64 + (c - 128)) * 64 + (d - 128);
		if (r > 0xFFFF && r <= 0x10FFFF) { *len = 4; return r; }
	}
	return 0xFFFD;
}

void decode() {
	char s[8] = {};
	for (int i = 0; i < 4; i++) s[i] = OS.vf_c(i);
	utf.Rune r = 0;
	int n = utf.get_rune(&r, s);
	int len = 0;
	uint8_t *u = (void *) s;
	int want = ref(u, &len);
	OS.vf_assert(n == len, "get_rune returns the length of the sequence");
	OS.vf_assert(r == want, "get_rune gives the encoded rune, or the error rune");
	OS.vf_assert(utf.fullrune(s, 4) != 0 && (want == 0xFFFD || utf.fullrune(s, len) != 0), "a whole sequence is a full rune");
	if (s[0] != '\0' && s[1] != '\0' && s[2] != '\0') {
		size_t count = 0;
		size_t p = 0;
		while (s[p] != '\0') {
			ref(&u[p], &len);
			p += len;
			count++;
		}
		OS.vf_assert(utf.runecount(s) == count, "runecount counts the runes");
		OS.vf_cover("count");
	}
}

void encode() {
	uint32_t c = OS.vf_in(0) + 256 * OS.vf_in(1) + 65536 * OS.vf_in(2);
	utf.Rune r = c;
	char s[8] = {};
	int n = utf.runetochar(s, &r);
	OS.vf_assert(n >= 1 && n <= 4, "runetochar writes one to four bytes");
	for (int i = n; i < 8; i++) OS.vf_assert(s[i] == '\0', "runetochar writes what it says");
	OS.vf_assert(utf.runelen((int) c) == n, "runelen is the length of the encoding");
	OS.vf_assert(utf.runenlen(&r, 1) == n, "runenlen is the length of the encoding");
	utf.Rune back = 0;
	OS.vf_assert(utf.get_rune(&back, s) == n, "get_rune reads as many bytes as runetochar wrote");
	if (c <= 0x10FFFF) {
		OS.vf_assert(back == c, "get_rune reads back what runetochar wrote");
		OS.vf_cover("round");
	} else {
		OS.vf_assert(back == 0xFFFD, "a number that is not a rune is written as the error rune");
		OS.vf_cover("toobig");
	}
	OS.vf_assert(utf.fullrune(s, n) != 0 && utf.fullrune(s, n - 1) == 0, "fullrune tells when the whole sequence is there");
	if (c > 0) {
		OS.vf_assert(utf.utfnlen(s, n) == 1 && utf.utfnlen(s, n - 1) == 0, "utfnlen counts complete runes only");
	}
}

int main() {
	if (OS.vf_in(4) == 0) decode();
	else encode();
	return 0;
}
