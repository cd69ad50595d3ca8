#import io.c
#import crypt/md5
#import crypt/sha1

sha1.digest_t *h = NULL;

bool is(const char *a, *b) {
	return strcmp(a, b) == 0;
}

void showmd5(uint32_t *md) {
	for (int i = 0; i < 4; i++) {
		for (int j = 0; j < 4; j++) {
			uint32_t b = (md[i] >> (8 * j)) & 0xFF;
			printf("%02x", b);
		}
	}
	printf(" ");
	char *str = calloc!(33, 1);
	md5.md5_sprint(md, str);
	io.puts_(str);
	free(str);
}

void do_eq() {
	io.bytes_t a = io.bytes();
	io.bytes_t b = io.bytes();
	uint32_t *x = calloc!(4, sizeof(uint32_t));
	uint32_t *y = calloc!(4, sizeof(uint32_t));
	memcpy(x, a.b, a.n);
	memcpy(y, b.b, b.n);
	printf("%d ", md5.md5_eq(x, y));
	free(a.b);
	free(b.b);
	free(x);
	free(y);
}

int main() {
	h = calloc!(1, sizeof(sha1.digest_t));
	while (io.line()) {
		io.word();
		const char *op = io.word();
		if (is(op, "new") || is(op, "reset")) {
			sha1.reset(h);
			printf("0 ");
		}
		else if (is(op, "md5")) {
			io.bytes_t x = io.bytes();
			uint32_t *md = calloc!(4, sizeof(uint32_t));
			if (!md5.md5_buf((char *) x.b, x.n, md)) printf("false ");
			showmd5(md);
			free(md);
			free(x.b);
		}
		else if (is(op, "md5s")) {
			char *s = io.str();
			uint32_t *md = calloc!(4, sizeof(uint32_t));
			if (!md5.md5_str(s, md)) printf("false ");
			showmd5(md);
			free(md);
			free(s);
		}
		else if (is(op, "words")) do_eq();
		else if (is(op, "add")) {
			io.bytes_t x = io.bytes();
			bool ok = true;
			if (x.n == 0) ok = !h->finished;
			for (size_t i = 0; i < x.n; i++) {
				char c = (char) x.b[i];
				if (!sha1.add(h, c)) ok = false;
			}
			printf("%d ", ok);
			free(x.b);
		}
		else if (is(op, "end")) printf("%d ", sha1.end(h));
		else if (is(op, "bytes")) {
			uint8_t *b = calloc!(20, 1);
			sha1.as_bytes(h, b);
			io.put(b, 20);
			free(b);
		}
		else if (is(op, "format")) {
			size_t n = (size_t) io.num();
			char *b = calloc!(n + 1, 1);
			memset(b, 'x', n);
			if (sha1.format(h, b, n)) {
				printf("1 ");
				io.puts_(b);
			} else {
				printf("0 NULL ");
			}
			free(b);
		}
		io.end();
	}
	return 0;
}
