#import opt

// The reference reading of the arguments.
int pos = 0;
bool bad = false;
bool rb = false;
bool rc = false;
int rs = -1;
int rn = 0;
int rz = 0;

// The value of s, or -1000 if it is no number.
int number(const char *s) {
	int sign = 1;
	int i = 0;
	if (s[0] == '-') {
		sign = -1;
		i = 1;
	}
	if (s[i] == '\0') return -1000;
	int v = 0;
	while (s[i] != '\0') {
		if (!isdigit(s[i])) return -1000;
		v = v * 10 + OS.vf_i(s[i]) - 48;
		i++;
	}
	return sign * v;
}

void reference(char **args, int n) {
	while (pos < n) {
		char *a = args[pos];
		if (a[0] != '-' || a[1] == '\0') return;
		pos++;
		if (a[2] != '\0') {
			for (int i = 1; a[i] != '\0'; i++) {
				if (a[i] == 'b') rb = true;
				else if (a[i] == 'c') rc = true;
				else bad = true;
			}
			if (bad) return;
			continue;
		}
		if (a[1] == 'b') rb = true;
		else if (a[1] == 'c') rc = true;
		else if (a[1] == 's' || a[1] == 'n' || a[1] == 'z') {
			if (pos == n) {
				bad = true;
				return;
			}
			if (a[1] == 's') {
				rs = pos;
			} else {
				int v = number(args[pos]);
				if (v == -1000 || (a[1] == 'z' && args[pos][0] == '-')) {
					bad = true;
					return;
				}
				if (a[1] == 'n') rn = v;
				else rz = v;
			}
			pos++;
		} else {
			bad = true;
			return;
		}
	}
}

int main() {
	char t0[4] = {};
	char t1[4] = {};
	char t2[4] = {};
	for (int i = 0; i < 3; i++) {
		t0[i] = OS.vf_c(2 + i);
		t1[i] = OS.vf_c(5 + i);
	}
	t2[0] = OS.vf_c(8);
	t2[1] = OS.vf_c(9);
	char *args[4] = {};
	char *argv[5] = {};
	args[0] = &t0[0];
	args[1] = &t1[0];
	args[2] = &t2[0];
	int n = OS.vf_pick(0);
	argv[0] = &t0[3];
	for (int i = 0; i < n; i++) argv[i + 1] = args[i];
	reference(args, n);
	int nargs = OS.vf_pick(1);
	if (nargs > 0 && n - pos != nargs - 1) bad = true;

	bool b = false;
	bool c = false;
	char *s = NULL;
	int num = 0;
	size_t size = 0;
	opt.flag("b", "b", &b);
	opt.str("s", "s", &s);
	opt.opt_int("n", "n", &num);
	opt.flag("c", "c", &c);
	opt.size("z", "z", &size);
	if (nargs > 0) opt.nargs((size_t) (nargs - 1), "x");
	if (!bad) OS.vf_cover("must not exit");
	char **rest = opt.parse(n + 1, argv);
	OS.vf_eq(bad, 0, "wrong arguments are refused");
	OS.vf_eq(b, rb, "a flag is set if it is given");
	OS.vf_eq(c, rc, "another flag is set if it is given");
	if (rs >= 0) OS.vf_assert(s == args[rs], "a string option has its value");
	else OS.vf_assert(s == NULL, "a string option that is not given keeps its default");
	OS.vf_eq(num, rn, "a number option has its value");
	OS.vf_eq(size, rz, "a size option has its value");
	for (int i = pos; i < n; i++) {
		OS.vf_assert(rest[i - pos] == args[i], "the rest are the positional arguments");
	}
	OS.vf_assert(rest[n - pos] == NULL, "the list of positional arguments ends");
	OS.vf_cover("end");
	return 0;
}
