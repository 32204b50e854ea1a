#import clip/vec
#import clip/llist
#import clip/buffer
#import clip/stringtable

void vectest() {
	int live = OS.vf_live();
	vec.t *v = vec.new(sizeof(int));
	int n = OS.vf_in(0);
	int base = OS.vf_in(1);
	for (int i = 0; i < n; i++) {
		int x = base + i;
		if (i % 2 == 0) vec.push(v, &x);
		else {
			int *p = vec.alloc(v);
			OS.vf_assert(*p == 0, "alloc gives a zeroed entry");
			*p = x;
		}
		OS.vf_eq(vec.len(v), i + 1, "len is the number of entries");
	}
	for (int i = 0; i < n; i++) {
		int *p = vec.index(v, i);
		OS.vf_assert(*p == base + i, "entries stay at their index");
	}
	vec.free(v);
	OS.vf_assert(OS.vf_live() == live, "all memory is released");
	OS.vf_cover("vec");
}

// Bytes come out of the buffer in the order they were put in.
void buffertest() {
	int live = OS.vf_live();
	buffer.t *b = buffer.new();
	char in[16] = {};
	for (int i = 0; i < 16; i++) in[i] = OS.vf_c(i);
	size_t wr = 0;
	size_t rd = 0;
	for (int i = 0; i < 3; i++) {
		size_t n = OS.vf_in(16 + 2 * i);
		OS.vf_eq(buffer.write(b, &in[wr], n), n > 0, "write accepts any data");
		wr += n;
		char out[8] = {};
		size_t m = OS.vf_in(17 + 2 * i);
		size_t got = buffer.read(b, out, m);
		size_t want = wr - rd;
		if (want > m) want = m;
		OS.vf_eq(got, want, "read gives as many bytes as there are, up to the size asked for");
		for (size_t j = 0; j < got; j++) OS.vf_eq(out[j], in[rd + j], "bytes come out in the order they were written");
		OS.vf_eq(out[got], 0, "read writes no more than it says");
		rd += got;
		OS.vf_eq(buffer.size(b), wr - rd, "size is the number of unread bytes");
	}
	buffer.free(b);
	OS.vf_assert(OS.vf_live() == live, "all memory is released");
	OS.vf_cover("buffer");
}

void tabletest() {
	int live = OS.vf_live();
	stringtable.t *t = stringtable.new();
	int pre = 0;
	if (OS.vf_in(0) == 1) pre = 7;
	if (OS.vf_in(0) == 2) pre = 17;
	char name[8] = {};
	for (int i = 0; i < pre; i++) {
		OS.sprintf(name, "p%d", i);
		stringtable.set(t, name, name);
	}
	char have[3] = {};
	char k[2] = {};
	char v[2] = {};
	for (int i = 0; i < 4; i++) {
		int x = OS.vf_in(1 + i);
		k[0] = OS.vf_i(97 + x);
		v[0] = OS.vf_i(65 + i);
		stringtable.set(t, k, v);
		have[x] = v[0];
		k[0] = '?';
		v[0] = '?';
	}
	for (int x = 0; x < 3; x++) {
		k[0] = OS.vf_i(97 + x);
		char *got = stringtable.get(t, k);
		OS.vf_eq(got != NULL, OS.vf_i(have[x]) != 0, "get finds exactly the keys that were set");
		if (got) {
			OS.vf_eq(got[0], have[x], "get gives the value set last");
			OS.vf_eq(got[1], 0, "get gives the whole value");
		}
	}
	for (int i = 0; i < pre; i++) {
		OS.sprintf(name, "p%d", i);
		char *got = stringtable.get(t, name);
		OS.vf_assert(got != NULL && strcmp(got, name) == 0, "other entries are kept");
	}
	stringtable.free(t);
	OS.vf_assert(OS.vf_live() == live, "all memory is released");
	OS.vf_cover("table");
}

void listtest() {
	int live = OS.vf_live();
	int item[3] = {};
	llist.t *l = llist.new();
	for (int i = 0; i < 3; i++) llist.append(l, &item[i]);
	int gone[3] = {};
	for (int i = 0; i < 2; i++) {
		int x = OS.vf_in(i);
		llist.remove(l, &item[x]);
		gone[x] = 1;
	}
	llist.t *p = llist.next(l);
	for (int i = 0; i < 3; i++) {
		if (gone[i]) continue;
		OS.vf_assert(p != NULL, "the items that were not removed are in the list");
		OS.vf_assert(p->data == &item[i], "the items are in the order they were appended");
		p = llist.next(p);
	}
	OS.vf_assert(p == NULL, "nothing else is in the list");
	for (int i = 0; i < 3; i++) llist.remove(l, &item[i]);
	OS.vf_assert(llist.next(l) == NULL, "the list is empty when all items are removed");
	OS.free(l);
	OS.vf_assert(OS.vf_live() == live, "all memory is released");
	OS.vf_cover("list");
}

int main() {
	switch (OS.vf_in(22)) {
		case 0: { vectest(); }
		case 1: { buffertest(); }
		case 2: { tabletest(); }
		default: { listtest(); }
	}
	return 0;
}
