#include <unistd.h>

// Command protocol shared by the drivers: one operation per line of input,
// blank-separated words, byte strings in hex with '-' for the empty string.
char *buf = NULL;
size_t bufcap = 0;
size_t pos = 0;
FILE *src = NULL;

// Leaves stdin to the code under test: commands come from a copy of it.
pub void own_stdin() {
	src = OS.fdopen(OS.dup(0), "r");
}

// Reads the next line. Returns false at the end of input.
pub bool line() {
	if (!buf) {
		bufcap = 1000000;
		buf = calloc!(bufcap, 1);
	}
	if (!src) src = stdin;
	size_t n = 0;
	while (true) {
		int c = fgetc(src);
		if (c == EOF || c == '\n') {
			if (c == EOF && n == 0) return false;
			buf[n] = '\0';
			break;
		}
		if (n + 1 >= bufcap) {
			bufcap = bufcap * 2;
			buf = realloc(buf, bufcap);
			if (!buf) panic("realloc");
		}
		buf[n++] = (char) c;
	}
	pos = 0;
	return true;
}

// Returns the next word of the line (empty if there are no more).
pub char *word() {
	while (buf[pos] == ' ') pos++;
	char *r = buf + pos;
	while (buf[pos] != ' ' && buf[pos] != '\0') pos++;
	if (buf[pos] == ' ') {
		buf[pos] = '\0';
		pos++;
	}
	return r;
}

pub bool more() {
	while (buf[pos] == ' ') pos++;
	return buf[pos] != '\0';
}

pub int num() {
	return atoi(word());
}

pub int64_t num64() {
	char *w = word();
	int64_t r = 0;
	bool neg = false;
	if (*w == '-') {
		neg = true;
		w++;
	}
	while (*w != '\0') {
		int d = (int) *w - (int) '0';
		if (neg) {
			r = r * 10 - d;
		} else {
			r = r * 10 + d;
		}
		w++;
	}
	return r;
}

int val(char c) {
	if (c >= '0' && c <= '9') return (int) c - (int) '0';
	return (int) c - (int) 'a' + 10;
}

pub typedef {
	uint8_t *b;
	size_t n;
} bytes_t;

// The next word as bytes, in a fresh allocation of exactly that many bytes
// (so that a sanitizer sees accesses outside).
pub bytes_t bytes() {
	char *w = word();
	bytes_t r = {};
	if (*w == '-') {
		r.b = calloc!(1, 1);
		return r;
	}
	r.n = strlen(w) / 2;
	r.b = calloc!(r.n, 1);
	for (size_t i = 0; i < r.n; i++) {
		r.b[i] = (uint8_t) (val(w[2 * i]) * 16 + val(w[2 * i + 1]));
	}
	return r;
}

// The next word as a C string in a fresh allocation.
pub char *str() {
	bytes_t x = bytes();
	char *s = calloc!(x.n + 1, 1);
	memcpy(s, x.b, x.n);
	free(x.b);
	return s;
}

// Prints bytes as a word.
pub void put(uint8_t *b, size_t n) {
	if (n == 0) {
		printf("- ");
		return;
	}
	for (size_t i = 0; i < n; i++) {
		printf("%02x", b[i]);
	}
	printf(" ");
}

pub void puts_(const char *s) {
	if (!s) {
		printf("NULL ");
		return;
	}
	put((uint8_t *) s, strlen(s));
}

pub void end() {
	printf("\n");
	fflush(stdout);
}
