#import io.c
#import clip/map
#import clip/map2
#import clip/vec
#import clip/buffer
#import clip/llist
#import clip/stringtable

map.map_t *M[4] = {};
map2.map_t *N[4] = {};
size_t vsize[4] = {};
vec.t *V[4] = {};
size_t isize[4] = {};
buffer.t *B[4] = {};
llist.t *L[4] = {};
stringtable.t *T[4] = {};
// objects for the lists to point to
uint8_t objs[256] = {};

void do_map(char *op) {
	int h = io.num();
	if (!strcmp(op, "new")) {
		int n = io.num();
		vsize[h] = (size_t) n;
		M[h] = map.new((size_t) n);
	}
	else if (!strcmp(op, "free")) {
		map.free(M[h]);
	}
	else if (!strcmp(op, "set")) {
		io.bytes_t k = io.bytes();
		io.bytes_t v = io.bytes();
		map.set(M[h], k.b, k.n, v.b);
		free(k.b);
		free(v.b);
	}
	else if (!strcmp(op, "get")) {
		io.bytes_t k = io.bytes();
		uint8_t *v = calloc!(vsize[h] + 1, 1);
		memset(v, 0xEE, vsize[h]);
		bool ok = map.get(M[h], k.b, k.n, v);
		printf("%d ", (int) ok);
		io.put(v, vsize[h]);
		free(k.b);
		free(v);
	}
	else if (!strcmp(op, "has")) {
		io.bytes_t k = io.bytes();
		printf("%d ", (int) map.has(M[h], k.b, k.n));
		free(k.b);
	}
	else if (!strcmp(op, "sets")) {
		char *k = io.str();
		io.bytes_t v = io.bytes();
		map.sets(M[h], k, v.b);
		free(k);
		free(v.b);
	}
	else if (!strcmp(op, "gets")) {
		char *k = io.str();
		uint8_t *v = calloc!(vsize[h] + 1, 1);
		memset(v, 0xEE, vsize[h]);
		bool ok = map.gets(M[h], k, v);
		printf("%d ", (int) ok);
		io.put(v, vsize[h]);
		free(k);
		free(v);
	}
	else if (!strcmp(op, "hass")) {
		char *k = io.str();
		printf("%d ", (int) map.hass(M[h], k));
		free(k);
	}
	else if (!strcmp(op, "size")) {
		printf("%zu ", map.size(M[h]));
	}
	else if (!strcmp(op, "iter")) {
		int bs = io.num();
		size_t bufsize = (size_t) bs;
		map.iter_t *it = map.iter(M[h]);
		while (map.next(it)) {
			uint8_t *kb = calloc!(bufsize + 1, 1);
			uint8_t *v = calloc!(vsize[h] + 1, 1);
			size_t n = map.itkey(it, kb, bufsize);
			printf("%zu ", n);
			io.put(kb, n);
			map.itval(it, v);
			io.put(v, vsize[h]);
			free(kb);
			free(v);
		}
		// the end stays the end
		printf("%d ", (int) map.next(it));
		map.end(it);
	}
}

void do_map2(char *op) {
	int h = io.num();
	if (!strcmp(op, "new")) {
		N[h] = map2.new();
	}
	else if (!strcmp(op, "free")) {
		map2.free(N[h]);
	}
	else if (!strcmp(op, "set")) {
		io.bytes_t k = io.bytes();
		io.bytes_t v = io.bytes();
		map2.set(N[h], k.b, k.n, v.b, v.n);
		free(k.b);
		free(v.b);
	}
	else if (!strcmp(op, "get")) {
		io.bytes_t k = io.bytes();
		int want = io.num();
		uint8_t *v = map2.get(N[h], k.b, k.n);
		if (!v) {
			printf("NULL ");
		} else {
			io.put(v, (size_t) want);
		}
		free(k.b);
	}
}

void do_vec(char *op) {
	int h = io.num();
	if (!strcmp(op, "new")) {
		int n = io.num();
		isize[h] = (size_t) n;
		V[h] = vec.new((size_t) n);
	}
	else if (!strcmp(op, "free")) {
		vec.free(V[h]);
	}
	else if (!strcmp(op, "push")) {
		io.bytes_t x = io.bytes();
		vec.push(V[h], x.b);
		free(x.b);
	}
	else if (!strcmp(op, "alloc")) {
		io.put(vec.alloc(V[h]), isize[h]);
	}
	else if (!strcmp(op, "put")) {
		int i = io.num();
		io.bytes_t x = io.bytes();
		memcpy(vec.index(V[h], (size_t) i), x.b, isize[h]);
		free(x.b);
	}
	else if (!strcmp(op, "get")) {
		int i = io.num();
		io.put(vec.index(V[h], (size_t) i), isize[h]);
	}
	else if (!strcmp(op, "len")) {
		printf("%zu ", vec.len(V[h]));
	}
}

void do_buffer(char *op) {
	int h = io.num();
	if (!strcmp(op, "new")) {
		B[h] = buffer.new();
	}
	else if (!strcmp(op, "free")) {
		buffer.free(B[h]);
	}
	else if (!strcmp(op, "write")) {
		io.bytes_t x = io.bytes();
		printf("%d ", (int) buffer.write(B[h], (char *) x.b, x.n));
		free(x.b);
	}
	else if (!strcmp(op, "read")) {
		int n = io.num();
		uint8_t *b = calloc!((size_t) n + 1, 1);
		size_t r = buffer.read(B[h], (char *) b, (size_t) n);
		io.put(b, r);
		free(b);
	}
	else if (!strcmp(op, "size")) {
		printf("%zu ", buffer.size(B[h]));
	}
}

void do_llist(char *op) {
	int h = io.num();
	if (!strcmp(op, "new")) {
		L[h] = llist.new();
	}
	else if (!strcmp(op, "append")) {
		int x = io.num();
		if (x < 0) {
			llist.append(L[h], NULL);
		} else {
			llist.append(L[h], &objs[x]);
		}
	}
	else if (!strcmp(op, "remove")) {
		int x = io.num();
		llist.remove(L[h], &objs[x]);
	}
	else if (!strcmp(op, "list")) {
		llist.t *p = llist.next(L[h]);
		while (p) {
			uint8_t *o = p->data;
			printf("%d ", (int) (o - &objs[0]));
			p = llist.next(p);
		}
	}
}

void do_st(char *op) {
	int h = io.num();
	if (!strcmp(op, "new")) {
		T[h] = stringtable.new();
	}
	else if (!strcmp(op, "free")) {
		stringtable.free(T[h]);
	}
	else if (!strcmp(op, "set")) {
		char *k = io.str();
		char *v = io.str();
		stringtable.set(T[h], k, v);
		free(k);
		free(v);
	}
	else if (!strcmp(op, "get")) {
		char *k = io.str();
		io.puts_(stringtable.get(T[h], k));
		free(k);
	}
}

int main() {
	while (io.line()) {
		char *c = io.word();
		char *op = io.word();
		if (!strcmp(c, "map")) do_map(op);
		else if (!strcmp(c, "map2")) do_map2(op);
		else if (!strcmp(c, "vec")) do_vec(op);
		else if (!strcmp(c, "buf")) do_buffer(op);
		else if (!strcmp(c, "list")) do_llist(op);
		else if (!strcmp(c, "st")) do_st(op);
		io.end();
	}
	return 0;
}
