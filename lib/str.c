#import linereader
#import mem
#import strbuilder
#import strings

// Fills s with n bytes of input starting at input i, none of them zero.
void text(char *s, int i, n) {
	for (int j = 0; j < n; j++) {
		s[j] = OS.vf_c(i + j);
		OS.vf_assume(OS.vf_in(i + j) != 0);
	}
	s[n] = OS.vf_i(0);
}

// Splitting and joining gives the text back.
void splittest() {
	char s[8] = {};
	int n = OS.vf_pick(1);
	text(s, 2, n);
	const char *sep = ",";
	if (OS.vf_pick(8) == 1) sep = "ab";
	size_t max = (size_t) OS.vf_pick(9) + 1;
	char *parts[9] = {};
	int live = OS.vf_live();
	size_t k = strings.split(sep, s, parts, max);
	OS.vf_assert(k >= 1 && k <= max, "split gives at least one and at most result_size parts");
	char joined[20] = {};
	for (size_t i = 0; i < k; i++) {
		if (i > 0) OS.strcat(joined, sep);
		OS.strcat(joined, parts[i]);
		if (k < max || i + 1 < k) OS.vf_assert(OS.strstr(parts[i], sep) == NULL, "no part has the separator in it, except for the rest");
		OS.free(parts[i]);
	}
	OS.vf_eq(strcmp(joined, s), 0, "the parts and separators are the text");
	OS.vf_assert(OS.vf_live() == live, "nothing but the parts is allocated");
	OS.vf_cover("split");
}

bool space(int c) {
	return c == 32 || c == 9 || c == 10 || c == 13;
}

void trimtest() {
	char s[8] = {};
	char t[8] = {};
	int n = OS.vf_pick(1);
	text(s, 2, n);
	// Vertical tabs and form feeds are spaces on the left only.
	for (int i = 0; i < n; i++) OS.vf_assume(OS.vf_i(OS.vf_in(2 + i) != 11 && OS.vf_in(2 + i) != 12));
	OS.strcpy(t, s);
	int l = 0;
	int r = n;
	while (l < r && space(OS.vf_i(t[l]))) l++;
	while (r > l && space(OS.vf_i(t[r - 1]))) r--;
	strings.trim(s);
	OS.vf_eq(strlen(s), r - l, "trim removes the spaces at both ends");
	for (int i = l; i < r; i++) OS.vf_eq(s[i - l], t[i], "trim keeps what is between");
	OS.vf_cover("trim");
}

int low(int c) {
	if (c >= 65 && c <= 90) return c + 32;
	return c;
}

void cmptest() {
	char a[4] = {};
	char b[4] = {};
	int n = OS.vf_pick(1);
	int m = OS.vf_pick(2);
	text(a, 3, n);
	text(b, 6, m);
	bool eq = n == m;
	bool pre = m <= n;
	bool prei = m <= n;
	bool suf = m <= n;
	bool up = true;
	for (int i = 0; i < m; i++) {
		if (i < n) {
			if (low(OS.vf_in(3 + i)) != low(OS.vf_in(6 + i))) {
				eq = false;
				prei = false;
			}
			if (OS.vf_in(3 + i) != OS.vf_in(6 + i)) pre = false;
		}
		if (m <= n && OS.vf_in(3 + n - m + i) != OS.vf_in(6 + i)) suf = false;
	}
	for (int i = 0; i < n; i++) if (OS.vf_in(3 + i) >= 97 && OS.vf_in(3 + i) <= 122) up = false;
	OS.vf_eq(strings.casecmp(a, b), eq, "casecmp compares ignoring the case");
	OS.vf_eq(strings.starts_with(a, b), pre, "starts_with");
	OS.vf_eq(strings.starts_with_i(a, b), prei, "starts_with_i");
	OS.vf_eq(strings.ends_with(a, b), suf, "ends_with");
	OS.vf_eq(strings.allupper(a), up, "allupper");
	OS.vf_eq(strings.eq(a, b), strcmp(a, b) == 0, "eq");
	OS.vf_cover("cmp");
}

void buildertest() {
	int live = OS.vf_live();
	strbuilder.str *b = strbuilder.new();
	char want[80] = {};
	int n = 0;
	int pre = OS.vf_pick(1) * 7;
	for (int i = 0; i < pre; i++) {
		OS.vf_eq(strbuilder.addc(b, 'x'), 1, "addc succeeds");
		want[n++] = 'x';
	}
	char s[4] = {};
	text(s, 2, 3);
	switch (OS.vf_pick(5)) {
		case 0: {
			OS.vf_eq(strbuilder.adds(b, s), 1, "adds succeeds");
			for (int i = 0; i < 3; i++) want[n++] = s[i];
		}
		case 1: {
			OS.vf_eq(strbuilder.addf(b, "<%s|%d>", s, -42), 1, "addf succeeds");
			want[n++] = '<';
			for (int i = 0; i < 3; i++) want[n++] = s[i];
			OS.strcpy(&want[n], "|-42>");
			n += 5;
		}
		default: {
			strbuilder.clear(b);
			OS.vf_eq(strbuilder.str_len(b), 0, "nothing is left after clear");
			n = 0;
			OS.vf_eq(strbuilder.adds(b, s), 1, "adds succeeds after clear");
			for (int i = 0; i < 3; i++) want[n++] = s[i];
		}
	}
	OS.vf_eq(strbuilder.str_len(b), n, "str_len is the number of characters");
	char *raw = strbuilder.str_raw(b);
	for (int i = 0; i < n; i++) OS.vf_eq(raw[i], want[i], "the builder has what was added, in order");
	OS.vf_eq(raw[n], 0, "the text ends with a zero byte");
	if (OS.vf_pick(6) == 0) strbuilder.free(b);
	else {
		char *u = strbuilder.str_unpack(b);
		OS.vf_assert(u == raw, "str_unpack gives the text");
		OS.free(u);
	}
	OS.vf_assert(OS.vf_live() == live, "all memory is released");
	OS.vf_cover("builder");
}

// A memory stream behaves like a file.
void memtest() {
	int live = OS.vf_live();
	mem.mem_t *m = mem.memopen();
	uint8_t ref[80] = {};
	int pos = 0;
	int len = 0;
	int pre = OS.vf_pick(1) * 10;
	for (int i = 0; i < pre; i++) {
		OS.vf_eq(mem.memputc(7, m), 7, "memputc gives the character");
		ref[pos++] = 7;
	}
	len = pos;
	for (int k = 0; k < 4; k++) {
		int base = 2 + 3 * k;
		int x = OS.vf_in(base + 1);
		switch (OS.vf_pick(base)) {
			case 0: {
				OS.vf_eq(mem.memputc(x, m), x, "memputc gives the character");
				ref[pos++] = OS.vf_u8(base + 1);
				if (pos > len) len = pos;
			}
			case 1: {
				char b[3] = {};
				for (int i = 0; i < 3; i++) b[i] = OS.vf_c(base + 1);
				OS.vf_eq(mem.memwrite(m, b, 3), 3, "memwrite writes everything");
				for (int i = 0; i < 3; i++) ref[pos++] = OS.vf_u8(base + 1);
				if (pos > len) len = pos;
			}
			case 2: {
				int c = mem.memgetc(m);
				if (pos < len) OS.vf_eq(c, ref[pos++], "memgetc gives the next byte");
				else OS.vf_eq(c, -1, "memgetc gives EOF at the end");
			}
			case 3: {
				char b[4] = {};
				b[3] = OS.vf_i(5);
				int want = len - pos;
				if (want > 3) want = 3;
				OS.vf_eq(mem.memread(m, b, 3), want, "memread reads up to the end");
				for (int i = 0; i < want; i++) OS.vf_eq(OS.vf_i(b[i]) & 255, ref[pos++], "memread gives the next bytes");
				OS.vf_eq(b[3], 5, "memread keeps within the size");
			}
			case 4: {
				mem.rewind(m);
				pos = 0;
			}
			default: {
				mem.reset(m);
				pos = 0;
				len = 0;
			}
		}
		OS.vf_eq(mem.memtell(m), pos, "memtell is the position");
	}
	mem.rewind(m);
	for (int i = 0; i < len; i++) OS.vf_eq(mem.memgetc(m), ref[i], "the stream has the bytes that were written");
	OS.vf_eq(mem.memgetc(m), -1, "the stream has no more than that");
	mem.memclose(m);
	OS.vf_assert(OS.vf_live() == live, "all memory is released");
	OS.vf_cover("mem");
}

// Lines come out as they are in the file.
void linetest() {
	char s[8] = {};
	int n = OS.vf_pick(1);
	for (int i = 0; i < n; i++) s[i] = OS.vf_c(2 + i);
	FILE *f = OS.vf_file(s, (size_t) n);
	int live = OS.vf_live();
	linereader.t *r = linereader.new(f);
	int p = 0;
	while (linereader.read(r)) {
		char *l = linereader.line(r);
		OS.vf_assert(p < n, "no more lines than there are in the file");
		int i = 0;
		while (p < n) {
			OS.vf_eq(l[i], s[p], "a line has the bytes of the file");
			i++;
			p++;
			if (s[p - 1] == '\n') break;
		}
		OS.vf_eq(l[i], 0, "a line ends after its newline");
	}
	OS.vf_eq(p, n, "every byte of the file is in a line");
	linereader.free(r);
	OS.vf_assert(OS.vf_live() == live, "all memory is released");
	OS.vf_cover("lines");
}

int main() {
	switch (OS.vf_pick(0)) {
		case 0: { splittest(); }
		case 1: { trimtest(); }
		case 2: { cmptest(); }
		case 3: { buildertest(); }
		case 4: { memtest(); }
		default: { linetest(); }
	}
	return 0;
}
