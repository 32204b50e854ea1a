#import error
#import formats/bencode
#import formats/bencode_writer
#import formats/csv
#import formats/json
#import tokenizer
#import url

int bignum(int k, int off) {
	switch (k) {
		case 0: { return off; }
		case 1: { return 90 + off; }
		case 2: { return 990 + off; }
		case 3: { return 2147483632 + off; }
		case 4: { return -off; }
		case 5: { return -95 - off; }
	}
	return -2147483647 - 1 + off;
}

// What the writer wrote, the reader reads.
void benctest() {
	int live = OS.vf_live();
	uint8_t out[100] = {};
	uint8_t str[4] = {};
	int n = OS.vf_pick(1);
	for (int i = 0; i < n; i++) str[i] = OS.vf_u8(2 + i);
	int x = bignum(OS.vf_pick(5), OS.vf_in(6));
	int y = OS.vf_in(7);
	bencode_writer.t *w = bencode_writer.tobuf(out, 100);
	OS.vf_eq(bencode_writer.begin(w, 'd'), 1, "begin succeeds");
	OS.vf_eq(bencode_writer.buf(w, str, (size_t) n), 1, "buf succeeds");
	OS.vf_eq(bencode_writer.num(w, x), 1, "num succeeds");
	OS.vf_eq(bencode_writer.buf(w, str, 1), 1, "buf succeeds");
	OS.vf_eq(bencode_writer.begin(w, 'l'), 1, "begin succeeds");
	OS.vf_eq(bencode_writer.num(w, y), 1, "num succeeds");
	OS.vf_eq(bencode_writer.buf(w, str, (size_t) n), 1, "buf succeeds");
	OS.vf_eq(bencode_writer.end(w), 1, "end succeeds");
	OS.vf_eq(bencode_writer.end(w), 1, "end succeeds");
	size_t size = bencode_writer.pos(w);
	bencode_writer.free(w);
	char data[100] = {};
	for (size_t i = 0; i < size; i++) data[i] = OS.vf_i(out[i]);
	bencode.reader_t *r = bencode.newreader(data, size);
	OS.vf_eq(bencode.type(r), 'd', "a dictionary is read");
	if (OS.vf_pick(8) == 1) {
		OS.vf_eq(bencode.skip(r), 1, "a dictionary is skipped");
	} else {
		bencode.enter(r);
		uint8_t key[8] = {};
		OS.vf_eq(bencode.more(r), 1, "there are entries");
		OS.vf_eq(bencode.strsize(r), n, "strsize is the length of the string that follows");
		OS.vf_eq(bencode.key(r, key, 8), n, "the key is read");
		for (int i = 0; i < n; i++) OS.vf_eq(key[i], str[i], "the key is what was written");
		OS.vf_eq(bencode.type(r), 'i', "a number is read");
		OS.vf_eq(bencode.readnum(r), x, "the number is what was written");
		OS.vf_eq(bencode.key(r, key, 8), 1, "the second key is read");
		OS.vf_eq(key[0], str[0], "the second key is what was written");
		OS.vf_eq(bencode.type(r), 'l', "a list is read");
		bencode.enter(r);
		if (OS.vf_pick(9) == 1) OS.vf_eq(bencode.skip(r), 1, "a number is skipped");
		else OS.vf_eq(bencode.readnum(r), y, "the number in the list is what was written");
		OS.vf_eq(bencode.more(r), 1, "there is another item");
		OS.vf_eq(bencode.type(r), 's', "a string is read");
		if (OS.vf_pick(9) == 1) OS.vf_eq(bencode.skip(r), 1, "a string is skipped");
		else {
			OS.vf_eq(bencode.readbuf(r, key, 8), n, "the string is read");
			for (int i = 0; i < n; i++) OS.vf_eq(key[i], str[i], "the string is what was written");
		}
		OS.vf_eq(bencode.more(r), 0, "the list ends");
		bencode.leave(r);
		OS.vf_eq(bencode.more(r), 0, "the dictionary ends");
		bencode.leave(r);
	}
	OS.vf_eq(bencode.more(r), 0, "the data ends");
	OS.vf_eq(bencode.pos(r), size, "everything is consumed");
	bencode.freereader(r);
	OS.vf_assert(OS.vf_live() == live, "all memory is released");
	OS.vf_cover("bencode");
}

// Any bytes are read or refused.
void bencanytest() {
	int n = OS.vf_pick(1);
	char *data = calloc!((size_t) n, 1);
	for (int i = 0; i < n; i++) data[i] = OS.vf_c(2 + i);
	bencode.reader_t *r = bencode.newreader(data, (size_t) n);
	uint8_t buf[3] = {};
	int steps = 0;
	if (OS.vf_pick(10) == 1) {
		bool ok = bencode.skip(r);
		OS.vf_eq(ok, n > 0, "skip says whether there was something");
	} else {
		while (bencode.more(r)) {
			OS.vf_assert(steps < 10, "reading ends");
			steps++;
			switch (bencode.type(r)) {
				case 'i': { bencode.readnum(r); }
				case 'l', 'd': { bencode.enter(r); }
				default: { bencode.readbuf(r, buf, 3); }
			}
		}
	}
	OS.vf_assert(bencode.pos(r) <= (size_t) n, "no more is consumed than there is");
	bencode.freereader(r);
	free(data);
	OS.vf_cover("bencode any");
}

bool sameval(json.val_t *a, *b) {
	if (json.type(a) != json.type(b)) return false;
	switch (json.type(a)) {
		case json.TSTR: { return strcmp(json.strval(a), json.strval(b)) == 0; }
		case json.TNUM: { return json.numval(a) == json.numval(b); }
		case json.TARR, json.TOBJ: {
			if (json.len(a) != json.len(b)) return false;
			for (size_t i = 0; i < json.len(a); i++) {
				if (json.type(a) == json.TOBJ && strcmp(json.key(a, i), json.key(b, i)) != 0) return false;
				if (!sameval(json.val(a, i), json.val(b, i))) return false;
			}
		}
	}
	return true;
}

// A value that was read is written so that it reads the same, and a copy is the same.
void again(json.val_t *v, bool exact) {
	char *out = json.format(v);
	error.t err = {};
	json.val_t *w = json.parse(out, &err);
	if (exact) {
		OS.vf_eq(err.set, 0, "what was written can be read");
		OS.vf_assert(w != NULL, "what was written is a value");
		OS.vf_eq(sameval(v, w), 1, "what was written reads as the same value");
	}
	json.val_t *c = json.clone(v);
	OS.vf_eq(sameval(v, c), 1, "a clone is the same value");
	json.json_free(c);
	json.json_free(w);
	free(out);
}

int unesc(int c) {
	switch (c) {
		case 110: { return 10; }
		case 116: { return 9; }
		case 114: { return 13; }
	}
	return c;
}

void jsontest() {
	int live = OS.vf_live();
	char a = OS.vf_c(1);
	char b = OS.vf_c(2);
	OS.vf_assume(OS.vf_i(OS.vf_in(1) != 0 && OS.vf_in(1) != 34 && OS.vf_in(1) != 92));
	OS.vf_assume(OS.vf_i(OS.vf_in(2) != 0));
	// Of the escapes that are letters these three are known.
	OS.vf_assume(OS.vf_i(OS.vf_in(2) != 98 && OS.vf_in(2) != 102 && OS.vf_in(2) != 117));
	char text[60] = {};
	switch (OS.vf_pick(3)) {
		case 0: { OS.sprintf(text, "[\"%c\\%c\", true,null ,-12]", a, b); }
		case 1: { OS.sprintf(text, "{\"%c\\%c\":{\"k\" :false}, \"z\":[ ]}", a, b); }
		default: { OS.sprintf(text, " \"%c\\%c\"", a, b); }
	}
	error.t err = {};
	json.val_t *v = json.parse(text, &err);
	OS.vf_eq(err.set, 0, "a value is read");
	OS.vf_assert(v != NULL, "a value is given");
	const char *s = NULL;
	switch (OS.vf_pick(3)) {
		case 0: {
			OS.vf_eq(json.type(v), json.TARR, "an array is read");
			OS.vf_eq(json.len(v), 4, "the array has its items");
			s = json.strval(json.val(v, 0));
			OS.vf_eq(json.type(json.val(v, 1)), json.TBOOL, "true is read");
			OS.vf_eq(json.type(json.val(v, 2)), json.TNULL, "null is read");
			OS.vf_eq(json.numval(json.val(v, 3)) == -12.0, 1, "a number is read");
		}
		case 1: {
			OS.vf_eq(json.type(v), json.TOBJ, "an object is read");
			OS.vf_eq(json.len(v), 2, "the object has its entries");
			s = json.key(v, 0);
			OS.vf_assert(json.get(v, s) == json.val(v, 0), "get finds a key");
			OS.vf_eq(json.type(json.get(json.get(v, s), "k")), json.TBOOL, "the nested object has its entry");
			OS.vf_eq(json.type(json.get(v, "z")), json.TARR, "the empty array is read");
		}
		default: { s = json.strval(v); }
	}
	OS.vf_assert(s != NULL, "the string is there");
	OS.vf_eq(s[0], a, "a character is read as it is");
	OS.vf_eq(OS.vf_i(s[1]) & 255, unesc(OS.vf_in(2)), "an escaped character is read");
	OS.vf_eq(s[2], 0, "the string ends");
	again(v, true);
	json.json_free(v);
	OS.vf_assert(OS.vf_live() == live, "all memory is released");
	OS.vf_cover("json");
}

// Any text is read or refused with an error.
void jsonanytest() {
	int live = OS.vf_live();
	int n = OS.vf_pick(1);
	char *s = calloc!((size_t) n + 1, 1);
	for (int i = 0; i < n; i++) s[i] = OS.vf_c(2 + i);
	error.t err = {};
	json.val_t *v = json.parse(s, &err);
	OS.vf_eq(v == NULL, err.set, "either there is a value or the error is set");
	// Six decimals are written, no exponents.
	bool exact = true;
	for (int i = 1; i < n; i++) if (isdigit(OS.vf_i(s[i - 1])) && (s[i] == 'e' || s[i] == 'E')) exact = false;
	if (v) again(v, exact);
	json.json_free(v);
	free(s);
	OS.vf_assert(OS.vf_live() == live, "all memory is released");
	OS.vf_cover("json any");
}

// Numbers of any length are read or refused.
void numtest() {
	char s[130] = {};
	int n = 90 + OS.vf_pick(1);
	int dot = OS.vf_pick(2);
	for (int i = 0; i < n; i++) s[i] = '1';
	if (dot == 1) s[1] = '.';
	if (dot == 2) s[1] = 'e';
	if (dot == 3) s[0] = '-';
	char buf[101] = {};
	buf[100] = 'z';
	tokenizer.t *t = tokenizer.from_str(s);
	bool ok = tokenizer.num(t, buf, 100);
	OS.vf_eq(buf[100], 'z', "num keeps within the buffer");
	OS.vf_eq(ok, n < 100, "num reads what fits");
	if (ok) OS.vf_eq(strcmp(buf, s), 0, "num gives the number");
	tokenizer.free(t);
	OS.vf_cover("num");
}

// Rows of values come back.
void csvtest() {
	char a[4] = {};
	char b[4] = {};
	int n = OS.vf_pick(1);
	int m = OS.vf_pick(2);
	for (int i = 0; i < n; i++) a[i] = OS.vf_c(3 + i);
	for (int i = 0; i < m; i++) b[i] = OS.vf_c(6 + i);
	for (int i = 0; i < n; i++) OS.vf_assume(OS.vf_in(3 + i) != 0);
	for (int i = 0; i < m; i++) OS.vf_assume(OS.vf_in(6 + i) != 0);
	FILE *f = OS.vf_sink();
	csv.writer_t w = { .f = f };
	csv.writeval(&w, a);
	csv.writeval(&w, b);
	csv.writeval(&w, NULL);
	csv.writeval(&w, b);
	csv.writeval(&w, NULL);
	char data[100] = {};
	size_t size = OS.vf_sunk(f, data, 100);
	OS.vf_stdin(data, size);
	csv.reader_t *r = csv.newreader();
	OS.vf_eq(csv.readval(r), 1, "the first value is there");
	OS.vf_eq(strcmp(csv.val(r), a), 0, "the first value is what was written");
	if (OS.vf_pick(9) == 0) {
		OS.vf_eq(csv.readval(r), 1, "the second value is there");
		OS.vf_eq(strcmp(csv.val(r), b), 0, "the second value is what was written");
		OS.vf_eq(csv.readval(r), 0, "the row ends");
	}
	OS.vf_eq(csv.nextline(r), 1, "there is a second row");
	OS.vf_eq(csv.readval(r), 1, "the second row has a value");
	OS.vf_eq(strcmp(csv.val(r), b), 0, "the value in the second row is what was written");
	OS.vf_eq(csv.readval(r), 0, "the second row ends");
	csv.nextline(r);
	OS.vf_eq(csv.readval(r), 0, "the file ends");
	csv.freereader(r);
	OS.vf_cover("csv");
}

// Rows without quotes, and any bytes.
void csvanytest() {
	int n = OS.vf_pick(1);
	char s[8] = {};
	for (int i = 0; i < n; i++) s[i] = OS.vf_c(2 + i);
	OS.vf_stdin(s, (size_t) n);
	int live = OS.vf_live();
	csv.reader_t *r = csv.newreader();
	int rows = 0;
	while (true) {
		while (true) {
			if (!csv.readval(r)) break;
			OS.vf_assert(OS.vf_i(strlen(csv.val(r))) <= n, "a value is part of the file");
		}
		rows++;
		OS.vf_assert(rows <= n + 1, "reading ends");
		if (!csv.nextline(r)) break;
	}
	csv.freereader(r);
	OS.vf_assert(OS.vf_live() == live, "all memory is released");
	OS.vf_cover("csv any");
}

void csvlongtest() {
	char s[4110] = {};
	int n = 4090 + OS.vf_pick(1);
	for (int i = 0; i < n; i++) s[i] = 'a';
	if (OS.vf_pick(2) == 1) {
		s[0] = '"';
		s[n - 1] = '"';
	}
	OS.vf_stdin(s, (size_t) n);
	csv.reader_t *r = csv.newreader();
	OS.vf_eq(csv.readval(r), 1, "a long value is there");
	int want = n;
	if (OS.vf_pick(2) == 1) want = n - 2;
	OS.vf_eq(strlen(csv.val(r)), want, "a long value is whole");
	csv.freereader(r);
	OS.vf_cover("csv long");
}

void urltest() {
	int live = OS.vf_live();
	char s[400] = {};
	int sl = 4 + OS.vf_pick(1);
	int hl = 3;
	if (OS.vf_pick(2) > 0) hl = 96 + OS.vf_pick(2);
	int pl = OS.vf_pick(3) * 4;
	int ql = 0;
	if (OS.vf_pick(4) == 1) ql = 5;
	if (OS.vf_pick(4) > 1) ql = 96 + OS.vf_pick(4);
	int p = 0;
	for (int i = 0; i < sl; i++) s[p++] = 'h';
	OS.strcpy(&s[p], "://");
	p += 3;
	for (int i = 0; i < hl; i++) s[p++] = 'd';
	if (pl > 0) s[p++] = ':';
	for (int i = 0; i < pl; i++) s[p++] = '8';
	if (ql > 0) s[p++] = '/';
	for (int i = 1; i < ql; i++) s[p++] = 'q';
	url.t *u = url.parse(s);
	bool fits = sl < 10 && hl < 100 && pl < 10 && ql < 100;
	OS.vf_eq(u != NULL, fits, "a URL is read if its parts fit");
	if (u) {
		OS.vf_eq(strlen(u->schema), sl, "the schema is whole");
		OS.vf_eq(strlen(u->hostname), hl, "the hostname is whole");
		OS.vf_eq(strlen(u->port), pl, "the port is whole");
		int want = ql;
		if (ql == 0) want = 1;
		OS.vf_eq(strlen(u->path), want, "the path is whole");
		OS.vf_eq(u->path[0], '/', "the path starts with a slash");
		free(u);
	}
	OS.vf_assert(OS.vf_live() == live, "all memory is released");
	OS.vf_cover("url");
}

// Any text.
void urlanytest() {
	int live = OS.vf_live();
	int n = OS.vf_pick(1);
	char s[12] = {};
	for (int i = 0; i < n; i++) s[i] = OS.vf_c(2 + i);
	url.t *u = url.parse(s);
	if (u) {
		char again[40] = {};
		OS.strcpy(again, u->schema);
		OS.strcat(again, "://");
		OS.strcat(again, u->hostname);
		size_t k = strlen(again);
		OS.vf_eq(OS.strncmp(again, s, k), 0, "schema and hostname are the beginning of the text");
		if (s[k] == ':') {
			OS.strcat(again, ":");
			OS.strcat(again, u->port);
		} else {
			OS.vf_eq(u->port[0], 0, "there is no port");
		}
		k = strlen(again);
		if (s[k] != '\0') OS.strcat(again, u->path);
		else OS.vf_eq(strcmp(u->path, "/"), 0, "a missing path is /");
		OS.vf_eq(strcmp(again, s), 0, "the parts are the text");
		OS.vf_assert(OS.strchr(u->hostname, '/') == NULL && OS.strchr(u->hostname, ':') == NULL, "the hostname ends before the port and the path");
		free(u);
	} else {
		OS.vf_assert(OS.strchr(s, ':') == NULL || OS.strncmp(OS.strchr(s, ':'), "://", 3) != 0, "a text with schema and hostname is read");
	}
	OS.vf_assert(OS.vf_live() == live, "all memory is released");
	OS.vf_cover("url any");
}

int main() {
	switch (OS.vf_pick(0)) {
		case 0: { benctest(); }
		case 1: { bencanytest(); }
		case 2: { jsontest(); }
		case 3: { jsonanytest(); }
		case 4: { numtest(); }
		case 5: { csvtest(); }
		case 6: { csvanytest(); }
		case 7: { csvlongtest(); }
		case 8: { urltest(); }
		default: { urlanytest(); }
	}
	return 0;
}
