#import clip/map

enum { OPS = 3, KEYS = 4 }

// Key number i: "a", "b", "ab", "a" and a zero byte.
uint8_t keybytes[] = {97, 0, 98, 0, 97, 98, 97, 0};
size_t keysize[] = {1, 1, 2, 2};

int main() {
	int live = OS.vf_live();
	map.map_t *m = map.new(sizeof(int));
	// Entries that are there already, so that the map grows at different points.
	int pre = 0;
	if (OS.vf_in(0) == 1) pre = 14;
	if (OS.vf_in(0) == 2) pre = 30;
	char name[8] = {};
	for (int i = 0; i < pre; i++) {
		OS.sprintf(name, "pre%d", i);
		int v = 1000 + i;
		map.sets(m, name, &v);
	}
	int have[4] = {};
	int ref[4] = {};
	int distinct = 0;
	for (int i = 0; i < OPS; i++) {
		int k = OS.vf_in(1 + 3 * i);
		uint8_t *key = &keybytes[2 * k];
		int v = OS.vf_in(2 + 3 * i);
		if (OS.vf_in(3 + 3 * i) == 0) {
			map.set(m, key, keysize[k], &v);
			if (!have[k]) distinct++;
			have[k] = 1;
			ref[k] = v;
		} else {
			int got = -7;
			bool ok = map.get(m, key, keysize[k], &got);
			OS.vf_eq(ok, have[k], "get finds exactly the keys that were set");
			OS.vf_eq(map.has(m, key, keysize[k]), have[k], "has finds exactly the keys that were set");
			if (ok) OS.vf_assert(got == ref[k], "get gives the value set last");
			else OS.vf_assert(got == -7, "get leaves the buffer alone when there is no value");
		}
	}
	for (int k = 0; k < KEYS; k++) {
		int got = -7;
		bool ok = map.get(m, &keybytes[2 * k], keysize[k], &got);
		OS.vf_eq(ok, have[k], "the keys that were set are there at the end");
		if (ok) OS.vf_assert(got == ref[k], "at the end each key has the value set last");
	}
	for (int i = 0; i < pre; i++) {
		OS.sprintf(name, "pre%d", i);
		int got = 0;
		OS.vf_assert(map.gets(m, name, &got) && got == 1000 + i, "other entries are kept");
	}
	OS.vf_eq(map.size(m), distinct + pre, "size is the number of different keys");
	// The iterator gives each entry once.
	int n = 0;
	map.iter_t *it = map.iter(m);
	int seen[4] = {};
	while (map.next(it)) {
		uint8_t buf[16] = {};
		size_t ks = map.itkey(it, buf, 16);
		int got = -7;
		map.itval(it, &got);
		for (int k = 0; k < KEYS; k++) {
			if (ks == keysize[k] && !memcmp(buf, &keybytes[2 * k], ks)) {
				OS.vf_assert(seen[k] == 0 && have[k] == 1 && got == ref[k], "the iterator gives each entry once, with its value");
				seen[k] = 1;
			}
		}
		OS.vf_assert(map.itkey(it, buf, ks - 1) == 0, "itkey refuses a buffer that is too small");
		n++;
		OS.vf_assert(n <= distinct + pre, "the iterator ends");
	}
	OS.vf_assert(n == distinct + pre, "the iterator gives every entry");
	map.end(it);
	map.free(m);
	OS.vf_assert(OS.vf_live() == live, "all memory is released");
	OS.vf_cover("end");
	return 0;
}
