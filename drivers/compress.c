#import io.c
#import bits
#import compress/huffman
#import compress/lzw
#import reader
#import writer

bool is(const char *a, *b) {
	return strcmp(a, b) == 0;
}

// A reader over bytes that gives at most step of them at a time.
typedef {
	uint8_t *b;
	size_t n;
	size_t pos;
	size_t step;
} src_t;

int src_read(void *ctx, uint8_t *buf, size_t n) {
	src_t *s = ctx;
	if (n > s->step) n = s->step;
	if (n > s->n - s->pos) n = s->n - s->pos;
	if (n == 0) return EOF;
	memcpy(buf, s->b + s->pos, n);
	s->pos += n;
	return (int) n;
}

void src_free(void *ctx) {
	free(ctx);
}

reader.t *source(uint8_t *b, size_t n, size_t step) {
	src_t *s = calloc!(1, sizeof(src_t));
	s->b = b;
	s->n = n;
	s->step = step;
	return reader.new(s, src_read, src_free);
}

// A growing sink.
typedef {
	uint8_t *b;
	size_t n;
	size_t cap;
} sink_t;

int sink_write(void *ctx, const uint8_t *buf, size_t n) {
	sink_t *s = ctx;
	if (s->n + n > s->cap) {
		s->cap = (s->n + n) * 2;
		s->b = realloc(s->b, s->cap);
		if (!s->b) panic("realloc");
	}
	memcpy(s->b + s->n, buf, n);
	s->n += n;
	return (int) n;
}

void sink_free(void *ctx) {
	sink_t *s = ctx;
	free(s->b);
	free(s);
}

sink_t *newsink() {
	return calloc!(1, sizeof(sink_t));
}

void show(sink_t *s) {
	io.put(s->b, s->n);
}

sink_t *lzwpack(uint8_t *b, size_t n, step, alphabet) {
	sink_t *s = newsink();
	reader.t *r = source(b, n, step);
	writer.t *w = writer.new(s, sink_write, NULL);
	lzw.compress(r, alphabet, w);
	reader.free(r);
	writer.free(w);
	return s;
}

sink_t *lzwunpack(sink_t *in, size_t step, alphabet) {
	sink_t *s = newsink();
	reader.t *r = source(in->b, in->n, step);
	writer.t *w = writer.new(s, sink_write, NULL);
	lzw.dec_t *d = lzw.newdecoder(r, alphabet);
	lzw.decodeinto(d, w);
	lzw.freedecoder(d);
	reader.free(r);
	writer.free(w);
	return s;
}

size_t usize(int n) {
	return (size_t) n;
}

void do_lzw() {
	size_t alphabet = usize(io.num());
	size_t step = usize(io.num());
	io.bytes_t x = io.bytes();
	sink_t *p = lzwpack(x.b, x.n, step, alphabet);
	sink_t *q = lzwunpack(p, step, alphabet);
	show(q);
	printf("%zu ", p->n);
	sink_free(p);
	sink_free(q);
	free(x.b);
}

// Kinds of generated data: 0 a run of one byte, 1 pseudo-random bytes,
// 2 a short period, 3 runs of changing bytes.
uint8_t *gen(int kind, size_t n, alphabet, uint32_t seed) {
	uint8_t *b = calloc!(n + 1, 1);
	uint32_t s = seed;
	for (size_t i = 0; i < n; i++) {
		size_t v = 0;
		if (kind == 0) {
			v = alphabet - 1;
		}
		if (kind == 1) {
			s = s * 1103515245 + 12345;
			v = (size_t) (s >> 16);
		}
		if (kind == 2) {
			v = i % 7;
		}
		if (kind == 3) {
			v = i / 1000;
		}
		if (kind == 4) {
			s = s * 1103515245 + 12345;
			uint32_t t = s >> 16;
			v = 0;
			while (t % 2 == 1) {
				v++;
				t = t / 2;
			}
		}
		b[i] = (uint8_t) (v % alphabet);
	}
	return b;
}

void do_lzwbig() {
	size_t alphabet = usize(io.num());
	size_t step = usize(io.num());
	int kind = io.num();
	size_t n = usize(io.num());
	uint8_t *b = gen(kind, n, alphabet, 1);
	sink_t *p = lzwpack(b, n, step, alphabet);
	sink_t *q = lzwunpack(p, step, alphabet);
	bool ok = q->n == n && memcmp(q->b, b, n) == 0;
	printf("%d ", ok);
	sink_free(p);
	sink_free(q);
	free(b);
}

void do_lzwrun() {
	size_t alphabet = usize(io.num());
	size_t step = usize(io.num());
	size_t n = usize(io.num());
	uint8_t *b = gen(0, n, alphabet, 1);
	sink_t *p = lzwpack(b, n, step, alphabet);
	sink_t *q = lzwunpack(p, step, alphabet);
	bool ok = q->n == n && memcmp(q->b, b, n) == 0;
	printf("%d %zu ", ok, p->n);
	sink_free(p);
	sink_free(q);
	free(b);
}

void unlzw() {
	size_t alphabet = usize(io.num());
	size_t step = usize(io.num());
	io.bytes_t x = io.bytes();
	sink_t *in = newsink();
	sink_write(in, x.b, x.n);
	sink_t *q = lzwunpack(in, step, alphabet);
	printf("%zu ", q->n);
	sink_free(q);
	sink_free(in);
	free(x.b);
}

sink_t *hpack(huffman.tree_t *t, uint8_t *b, size_t n) {
	sink_t *s = newsink();
	writer.t *w = writer.new(s, sink_write, NULL);
	huffman.writer_t *h = huffman.newwriter(t, w);
	for (size_t i = 0; i < n; i++) {
		if (!huffman.write(h, b[i])) panic("write");
	}
	huffman.closewriter(h);
	writer.free(w);
	return s;
}

// Reads n characters, or up to the end if all.
sink_t *hunpack(huffman.tree_t *t, sink_t *in, size_t n, bool all) {
	sink_t *s = newsink();
	reader.t *r = source(in->b, in->n, 3);
	bits.reader_t *br = bits.newreader(r, bits.STRAIGHT);
	huffman.reader_t *h = huffman.newreader(t, br);
	size_t i = 0;
	while (all || i < n) {
		int c = huffman.read(h);
		if (c == EOF) break;
		uint8_t u = (uint8_t) c;
		sink_write(s, &u, 1);
		i++;
	}
	huffman.closereader(h);
	bits.closereader(br);
	reader.free(r);
	return s;
}

void do_huff() {
	char *x = io.str();
	size_t n = strlen(x);
	huffman.tree_t *t = huffman.buildtree(x);
	sink_t *p = hpack(t, (uint8_t *) x, n);
	sink_t *q = hunpack(t, p, n, false);
	show(q);
	printf("%zu ", p->n);
	sink_free(p);
	sink_free(q);
	huffman.freetree(t);
	free(x);
}

// Fibonacci-weighted text: codes of maximum length.
void do_huffbig() {
	int k = io.num();
	size_t n = 0;
	size_t a = 1;
	size_t b = 1;
	for (int i = 0; i < k; i++) {
		n += a;
		size_t c = a + b;
		a = b;
		b = c;
	}
	char *x = calloc!(n + 1, 1);
	n = 0;
	a = 1;
	b = 1;
	for (int i = 0; i < k; i++) {
		for (size_t j = 0; j < a; j++) {
			x[n++] = (char) (i + 1);
		}
		size_t c = a + b;
		a = b;
		b = c;
	}
	huffman.tree_t *t = huffman.buildtree(x);
	sink_t *p = hpack(t, (uint8_t *) x, n);
	sink_t *q = hunpack(t, p, n, false);
	bool ok = q->n == n && memcmp(q->b, x, n) == 0;
	printf("%d ", ok);
	sink_free(p);
	sink_free(q);
	huffman.freetree(t);
	free(x);
}

void do_canon(bool write) {
	io.bytes_t cnt = io.bytes();
	io.bytes_t vals = io.bytes();
	io.bytes_t msg = io.bytes();
	huffman.tree_t *t = huffman.treefrom(cnt.b, cnt.n, vals.b);
	if (write) {
		sink_t *p = hpack(t, msg.b, msg.n);
		show(p);
		sink_t *q = hunpack(t, p, msg.n, false);
		show(q);
		sink_free(p);
		sink_free(q);
	} else {
		sink_t *in = newsink();
		sink_write(in, msg.b, msg.n);
		sink_t *q = hunpack(t, in, 0, true);
		show(q);
		sink_free(in);
		sink_free(q);
	}
	huffman.freetree(t);
	free(cnt.b);
	free(vals.b);
	free(msg.b);
}

int main() {
	while (io.line()) {
		io.word();
		const char *op = io.word();
		if (is(op, "lzw")) do_lzw();
		else if (is(op, "lzwbig")) do_lzwbig();
		else if (is(op, "lzwrun")) do_lzwrun();
		else if (is(op, "unlzw")) unlzw();
		else if (is(op, "huff")) do_huff();
		else if (is(op, "huffbig")) do_huffbig();
		else if (is(op, "canon")) do_canon(true);
		else if (is(op, "cread")) do_canon(false);
		io.end();
	}
	return 0;
}
