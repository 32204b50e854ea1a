#import error
#import time

int dig(int i) {
	return OS.vf_in(i);
}
char ch(int i) {
	return OS.vf_i(48 + OS.vf_in(i));
}

// [hh:]mm:ss[.xxx], any digits.
void parsetest() {
	char s[20] = {};
	int p = 0;
	int hk = OS.vf_pick(1);
	int h = 0;
	if (hk == 2) h = 1;
	if (hk == 3) h = 99;
	int m = 0;
	switch (OS.vf_pick(2)) {
		case 0: { m = 0; }
		case 1: { m = 7; }
		case 2: { m = 35; }
		case 3: { m = 36; }
		case 4: { m = 59; }
		default: { m = 99; }
	}
	if (hk > 0) {
		OS.sprintf(s, "%02d:%02d:", h, m);
		p = 6;
	} else {
		OS.sprintf(s, "%02d:", m);
		p = 3;
	}
	s[p++] = ch(6);
	s[p++] = ch(7);
	int64_t us = h * 3600 + m * 60;
	us = us * 1000000 + (dig(6) * 10 + dig(7)) * 1000000;
	int frac = OS.vf_pick(8);
	if (frac > 0) {
		int a = OS.vf_pick(9);
		s[p++] = '.';
		s[p++] = OS.vf_i(48 + a);
		us = us + a * 100000;
	}
	if (frac > 1) {
		int b = OS.vf_pick(10);
		s[p++] = OS.vf_i(48 + b);
		us = us + b * 10000;
	}
	if (frac > 2) {
		int c = OS.vf_pick(11);
		s[p++] = OS.vf_i(48 + c);
		us = us + c * 1000;
	}
	time.duration_t d = {};
	error.t err = {};
	bool ok = time.parse_duration(s, &d, &err);
	OS.vf_eq(ok, 1, "a duration is parsed");
	OS.vf_eq(err.set, 0, "no error is set for a good duration");
	int64_t got = time.dur_us(&d);
	OS.vf_eq(got, us, "the parsed duration is what the text says");
	OS.vf_cover("parse");
}

// Text that is no duration.
void badtest() {
	char s[4] = {};
	for (int i = 0; i < 3; i++) s[i] = OS.vf_c(i + 1);
	bool good = false;
	int n = OS.vf_i(strlen(s));
	// <digits>:<digits>
	int c0 = OS.vf_i(s[0]);
	OS.vf_assume(OS.vf_i(n == 0 || c0 < 48 || c0 > 57));
	time.duration_t d = {};
	error.t err = {};
	OS.vf_eq(time.parse_duration(s, &d, &err), good, "text without a number is no duration");
	OS.vf_eq(err.set, 1, "the error is set");
	OS.vf_cover("bad");
}

void expect(char *buf, const char *want, const char *what) {
	OS.vf_eq(strcmp(buf, want), 0, what);
}

void fmttest() {
	int h = OS.vf_pick(1);
	if (h == 3) h = 100;
	int m = OS.vf_pick(2);
	if (m == 2) m = 59;
	int s = OS.vf_pick(3);
	if (s == 2) s = 59;
	int ms = OS.vf_pick(4);
	if (ms == 1) ms = 5;
	if (ms == 2) ms = 50;
	if (ms == 3) ms = 999;
	int us = 999 * OS.vf_pick(5);
	int64_t val = h * 3600 + m * 60 + s;
	val = val * 1000000 + ms * 1000 + us;
	time.duration_t d = {};
	time.dur_set(&d, val, time.US);
	size_t size = (size_t) OS.vf_pick(6);
	char *buf = calloc!(size + 1, 1);
	char want[40] = {};
	const char *fmt = NULL;
	switch (OS.vf_pick(7)) {
		case 0: {
			fmt = "mm:ss";
			OS.sprintf(want, "%02d:%02d", m + 60 * h, s);
		}
		case 1: {
			fmt = "mm:ss.ms";
			OS.sprintf(want, "%02d:%02d.%03d", m + 60 * h, s, ms);
		}
		case 2: {
			fmt = "hh:mm:ss,ms";
			OS.sprintf(want, "%02d:%02d:%02d,%03d", h, m, s, ms);
		}
		default: {
			fmt = "[h]:mm:ss.mmm";
			if (h > 0) OS.sprintf(want, "%d:%02d:%02d.%03d", h, m, s, ms);
			else OS.sprintf(want, "%d:%02d.%03d", m, s, ms);
		}
	}
	bool ok = time.dur_fmt(&d, buf, size, fmt);
	OS.vf_eq(ok, strlen(want) + 1 <= size, "dur_fmt says whether the text fits");
	if (ok) expect(buf, want, "dur_fmt writes the duration");
	OS.vf_eq(buf[size], 0, "dur_fmt keeps within the buffer");
	free(buf);
	OS.vf_cover("fmt");
}

int main() {
	switch (OS.vf_pick(0)) {
		case 0: { parsetest(); }
		case 1: { badtest(); }
		default: { fmttest(); }
	}
	return 0;
}
