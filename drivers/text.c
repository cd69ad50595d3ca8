#import io.c
#import enc/hex
#import enc/urlencode
#import reader
#import strings
#import tokenizer
#import url
#import utf
#import writer

bool is(const char *a, *b) {
	return strcmp(a, b) == 0;
}

void out(int n) {
	printf("%d ", n);
}

void puts_free(char *s) {
	io.puts_(s);
	free(s);
}

// Two strings: one call on them, the result printed.
void two(const char *op) {
	char *a = io.str();
	char *b = io.str();
	if (is(op, "casecmp")) {
		out(strings.casecmp(a, b));
	}
	else if (is(op, "starts")) {
		out(strings.starts_with(a, b));
	}
	else if (is(op, "starts_i")) {
		out(strings.starts_with_i(a, b));
	}
	else if (is(op, "ends")) {
		out(strings.ends_with(a, b));
	}
	else {
		out(strings.eq(a, b));
	}
	free(a);
	free(b);
}

void do_str(const char *op) {
	if (is(op, "newstr")) {
		char *s = io.str();
		puts_free(strings.newstr("%s", s));
		free(s);
	}
	else if (is(op, "sub")) {
		char *s = io.str();
		int p1 = io.num();
		int p2 = io.num();
		puts_free(strings.newsubstr(s, p1, p2));
		free(s);
	}
	else if (is(op, "trim")) {
		char *s = io.str();
		strings.trim(s);
		puts_free(s);
	}
	else if (is(op, "rtrim")) {
		char *s = io.str();
		char *set = io.str();
		strings.rtrim(s, set);
		puts_free(s);
		free(set);
	}
	else if (is(op, "split")) {
		char *sep = io.str();
		char *s = io.str();
		int max = io.num();
		char **r = calloc!((size_t) max + 1, sizeof(char *));
		size_t n = strings.split(sep, s, r, (size_t) max);
		printf("%zu ", n);
		for (size_t i = 0; i < n; i++) {
			puts_free(r[i]);
		}
		free(r);
		free(sep);
		free(s);
	}
	else if (is(op, "allupper")) {
		char *s = io.str();
		out(strings.allupper(s));
		free(s);
	}
	else if (is(op, "fmtbytes")) {
		char tmp[100] = {};
		strings.fmt_bytes((size_t) io.num(), tmp, sizeof(tmp));
		io.puts_(tmp);
	}
	else if (is(op, "digit")) {
		out((int) strings.ascii_digit(io.num()));
	}
	else if (is(op, "val")) {
		out(strings.num_from_ascii(io.num()));
	}
	else if (!is(op, "new") && !is(op, "free")) {
		two(op);
	}
}

void do_enc(const char *op) {
	if (is(op, "byte")) {
		char *tmp = calloc!(2, 1);
		char *e = hex.writebyte((uint8_t) io.num(), tmp);
		io.put((uint8_t *) tmp, (size_t) (e - tmp));
		free(tmp);
	}
	else if (is(op, "hex") || is(op, "url")) {
		io.bytes_t b = io.bytes();
		size_t n = (size_t) io.num();
		uint8_t *tmp = calloc!(n + 1, 1);
		writer.t *w = writer.static_buffer(tmp, n);
		int r = 0;
		if (is(op, "hex")) {
			r = hex.write(w, (char *) b.b, b.n);
		} else {
			r = urlencode.write(w, (char *) b.b, b.n);
		}
		if (r < 0) r = -1;
		out(r);
		io.put(tmp, (size_t) w->nwritten);
		writer.free(w);
		free(tmp);
		free(b.b);
	}
}

void do_url(const char *op) {
	if (!is(op, "parse")) return;
	char *s = io.str();
	url.t *u = url.parse(s);
	if (u) {
		io.puts_(u->schema);
		io.puts_(u->hostname);
		io.puts_(u->port);
		io.puts_(u->path);
		free(u);
	} else {
		io.puts_(NULL);
	}
	free(s);
}

// A reader giving at most 'step' bytes at a time.
typedef {
	uint8_t *b;
	size_t n, pos, step;
} slow_t;
slow_t slow = {};

int slow_read(void *ctx, uint8_t *buf, size_t n) {
	slow_t *s = ctx;
	size_t k = s->n - s->pos;
	if (k == 0) return EOF;
	if (k > s->step) k = s->step;
	if (k > n) k = n;
	memcpy(buf, s->b + s->pos, k);
	s->pos += k;
	return (int) k;
}

tokenizer.t *T = NULL;
reader.t *R = NULL;
FILE *F = NULL;
char *text = NULL;

void tok_close() {
	if (T) tokenizer.free(T);
	if (R) reader.free(R);
	if (F) fclose(F);
	if (slow.b) free(slow.b);
	if (text) free(text);
	T = NULL;
	R = NULL;
	F = NULL;
	slow.b = NULL;
	text = NULL;
}

// open MODE BYTES: mode 0 the string, 1 a file, 2.. a reader giving that many
// bytes less one at a time.
void tok_open() {
	tok_close();
	int mode = io.num();
	if (mode == 0) {
		text = io.str();
		T = tokenizer.from_str(text);
		return;
	}
	io.bytes_t b = io.bytes();
	if (mode == 1) {
		FILE *f = fopen("data", "wb");
		fwrite(b.b, 1, b.n, f);
		fclose(f);
		free(b.b);
		F = fopen("data", "rb");
		T = tokenizer.file(F);
		return;
	}
	slow.b = b.b;
	slow.n = b.n;
	slow.pos = 0;
	slow.step = (size_t) (mode - 1);
	R = reader.new(&slow, slow_read, NULL);
	T = tokenizer.new(R);
}

void tok_buf(const char *op) {
	char until = 0;
	if (is(op, "readuntil")) until = (char) io.num();
	size_t n = (size_t) io.num();
	char *tmp = calloc!(n, 1);
	memset(tmp, '#', n);
	bool ok = false;
	if (is(op, "id")) {
		ok = tokenizer.id(T, tmp, n);
	}
	else if (is(op, "num")) {
		ok = tokenizer.num(T, tmp, n);
	}
	else {
		ok = tokenizer.read_until(T, until, tmp, n);
	}
	out(ok);
	if (ok) {
		io.puts_(tmp);
	} else {
		printf("- ");
	}
	free(tmp);
}

void tok_set(const char *op) {
	char *s = io.str();
	if (is(op, "skipset")) {
		tokenizer.buf_skip_set(T, s);
	}
	else if (is(op, "readset")) {
		puts_free(tokenizer.buf_read_set(T, s));
	}
	else if (is(op, "lit")) {
		out(tokenizer.skip_literal(T, s));
	}
	else if (is(op, "follows")) {
		out(tokenizer.literal_follows(T, s));
	}
	else {
		puts_free(tokenizer.buf_skip_until(T, s));
	}
	free(s);
}

void do_tok(const char *op) {
	if (is(op, "new") || is(op, "free")) {
		tok_close();
	}
	else if (is(op, "open")) {
		tok_open();
	}
	else if (is(op, "peek")) {
		out(tokenizer.peek(T));
	}
	else if (is(op, "more")) {
		out(tokenizer.more(T));
	}
	else if (is(op, "get")) {
		out(tokenizer.get(T));
	}
	else if (is(op, "tail")) {
		size_t n = (size_t) io.num();
		char *tmp = calloc!(n, 1);
		memset(tmp, '#', n);
		tokenizer.tail(T, tmp, n);
		puts_free(tmp);
	}
	else if (is(op, "skip")) {
		out(tokenizer.buf_skip(T, (char) io.num()));
	}
	else if (is(op, "spaces")) {
		out(tokenizer.spaces(T));
	}
	else if (is(op, "hspaces")) {
		tokenizer.hspaces(T);
	}
	else if (is(op, "pos")) {
		io.puts_(tokenizer.posstr(T));
	}
	else if (is(op, "id") || is(op, "num") || is(op, "readuntil")) {
		tok_buf(op);
	}
	else {
		tok_set(op);
	}
}

// A rune string from UTF-8 text with room for extra runes; the room is filled
// with garbage.
utf.Rune *runes(const char *s, size_t extra) {
	size_t n = 0;
	utf.Rune *r = calloc!(utf.runecount(s) + 1 + extra, sizeof(utf.Rune));
	while (*s != '\0') {
		s += utf.get_rune(&r[n++], s);
	}
	for (size_t i = 0; i < extra; i++) {
		r[n + 1 + i] = 35;
	}
	return r;
}

void put_runes(utf.Rune *r) {
	char tmp[100000] = {};
	size_t n = 0;
	while (*r != 0) {
		n += utf.runetochar(tmp + n, r);
		r++;
	}
	io.put((uint8_t *) tmp, n);
}

void off(utf.Rune *base, utf.Rune *p) {
	if (p) {
		out((int) (p - base));
	} else {
		io.puts_(NULL);
	}
}

void coff(char *base, char *p) {
	if (p) {
		out((int) (p - base));
	} else {
		io.puts_(NULL);
	}
}

void utf_num(const char *op) {
	utf.Rune r = (uint32_t) io.num();
	if (is(op, "put")) {
		char *tmp = calloc!(4, 1);
		int n = utf.runetochar(tmp, &r);
		out(n);
		io.put((uint8_t *) tmp, (size_t) n);
		out(utf.runelen((int32_t) r));
		free(tmp);
	}
	else if (is(op, "lower")) {
		out((int) utf.tolowerrune(r));
	}
	else if (is(op, "upper")) {
		out((int) utf.toupperrune(r));
	}
	else if (is(op, "islower")) {
		out(utf.islowerrune(r));
	}
	else if (is(op, "isalpha")) {
		out(utf.isalpharune(r));
	}
	else {
		out(utf.isspacerune(r));
	}
}

void utf_runes(const char *op, char *a) {
	utf.Rune *x = runes(a, 0);
	if (is(op, "nlen")) {
		out(utf.runenlen(x, (int) utf.runecount(a)));
	}
	else if (is(op, "chr")) {
		off(x, utf.runestrchr(x, (uint32_t) io.num()));
	}
	else if (is(op, "rchr")) {
		off(x, utf.runestrrchr(x, (uint32_t) io.num()));
	}
	else if (is(op, "dup")) {
		utf.Rune *d = utf.runestrdup(x);
		put_runes(d);
		free(d);
	}
	else if (is(op, "cpy")) {
		utf.Rune *d = runes("", utf.runecount(a));
		put_runes(utf.runestrcpy(d, x));
		free(d);
	}
	else if (is(op, "ncpy")) {
		int n = io.num();
		utf.Rune *d = calloc!((size_t) n + 1, sizeof(utf.Rune));
		for (int i = 0; i < n; i++) d[i] = 35;
		put_runes(utf.runestrncpy(d, x, n));
		free(d);
	}
	else {
		int n = io.num();
		utf.Rune *d = runes("", (size_t) n - 1);
		out((int) (utf.runestrecpy(d, d + n, x) - d));
		put_runes(d);
		free(d);
	}
	free(x);
}

void utf_two(const char *op, char *a) {
	char *b = io.str();
	utf.Rune *y = runes(b, 0);
	utf.Rune *x = runes(a, utf.runecount(b));
	if (is(op, "utfutf")) {
		coff(a, utf.utfutf(a, b));
	}
	else if (is(op, "str")) {
		off(x, utf.runestrstr(x, y));
	}
	else if (is(op, "cat")) {
		put_runes(utf.runestrcat(x, y));
	}
	else if (is(op, "ncat")) {
		put_runes(utf.runestrncat(x, y, io.num()));
	}
	else if (is(op, "cmp")) {
		out(utf.runestrcmp(x, y));
	}
	else {
		out(utf.runestrncmp(x, y, io.num()));
	}
	free(b);
	free(x);
	free(y);
}

void do_utf(const char *op) {
	if (is(op, "new") || is(op, "free")) return;
	if (is(op, "put") || is(op, "lower") || is(op, "upper") || is(op, "islower") || is(op, "isalpha") || is(op, "isspace")) {
		utf_num(op);
		return;
	}
	char *a = io.str();
	if (is(op, "get")) {
		utf.Rune r = 0;
		int n = utf.get_rune(&r, a);
		out(n);
		out((int) r);
	}
	else if (is(op, "full")) {
		out(utf.fullrune(a, (int) strlen(a)) != 0);
	}
	else if (is(op, "count")) {
		printf("%zu ", utf.runecount(a));
	}
	else if (is(op, "utfnlen")) {
		out(utf.utfnlen(a, io.num()));
	}
	else if (is(op, "rune")) {
		coff(a, utf.utfrune(a, (uint32_t) io.num()));
	}
	else if (is(op, "rrune")) {
		coff(a, utf.utfrrune(a, (uint32_t) io.num()));
	}
	else if (is(op, "ecpy")) {
		int n = io.num();
		char *tmp = calloc!((size_t) n, 1);
		memset(tmp, '#', (size_t) n);
		char *e = utf.utfecpy(tmp, tmp + n, a);
		out((int) (e - tmp));
		puts_free(tmp);
	}
	else if (is(op, "utfutf") || is(op, "str") || is(op, "cat") || is(op, "ncat") || is(op, "cmp") || is(op, "ncmp")) {
		utf_two(op, a);
	}
	else {
		utf_runes(op, a);
	}
	free(a);
}

int main() {
	while (io.line()) {
		const char *k = io.word();
		const char *op = io.word();
		if (is(k, "str")) {
			do_str(op);
		}
		else if (is(k, "enc")) {
			do_enc(op);
		}
		else if (is(k, "url")) {
			do_url(op);
		}
		else if (is(k, "tok")) {
			do_tok(op);
		}
		else {
			do_utf(op);
		}
		io.end();
	}
	return 0;
}
