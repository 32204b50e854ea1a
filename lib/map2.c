#import clip/map2

enum { OPS = 3, KEYS = 3 }

// "a", and "Aa" and "BB", which have the same hash.
uint8_t keybytes[] = {97, 0, 65, 97, 66, 66};
size_t keysize[] = {1, 2, 2};

int main() {
	int live = OS.vf_live();
	map2.map_t *m = map2.new();
	// Entries that are there already, so that the map is rebuilt at different points.
	int pre = 0;
	if (OS.vf_in(0) == 1) pre = 22;
	if (OS.vf_in(0) == 2) pre = 23;
	char name[8] = {};
	for (int i = 0; i < pre; i++) {
		OS.sprintf(name, "pre%02d", i);
		uint8_t *key = (void *) name;
		map2.set(m, key, 5, &i, sizeof(int));
	}
	int have[4] = {};
	int size[4] = {};
	int ref[4] = {};
	uint8_t val[4] = {};
	for (int i = 0; i < OPS; i++) {
		int k = OS.vf_in(1 + 3 * i);
		uint8_t *key = &keybytes[2 * k];
			int n = 1 + 3 * OS.vf_in(2 + 3 * i);
			for (int j = 0; j < n; j++) val[j] = OS.vf_u8(3 + 3 * i);
			map2.set(m, key, keysize[k], val, (size_t) n);
			have[k] = 1;
			size[k] = n;
			ref[k] = OS.vf_in(3 + 3 * i);
		for (int q = 0; q < KEYS; q++) {
			uint8_t *got = map2.get(m, &keybytes[2 * q], keysize[q]);
			OS.vf_eq(got != NULL, have[q], "get finds exactly the keys that were set");
			if (got) {
				for (int j = 0; j < size[q]; j++) OS.vf_eq(got[j], ref[q], "get gives the value set last");
			}
		}
	}
	for (int i = 0; i < pre; i++) {
		OS.sprintf(name, "pre%02d", i);
		uint8_t *key = (void *) name;
		int *got = map2.get(m, key, 5);
		OS.vf_assert(got != NULL, "other entries are kept");
		OS.vf_eq(*got, i, "other entries keep their values");
	}
	map2.free(m);
	OS.vf_assert(OS.vf_live() == live, "all memory is released");
	OS.vf_cover("end");
	return 0;
}
