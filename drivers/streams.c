#import io.c
#import bits
#import bytereader
#import enc/endian
#import linereader
#import mem
#import reader
#import strbuilder
#import writer

#include <unistd.h>

mem.mem_t *M = NULL;
strbuilder.str *S = NULL;
reader.t *R = NULL;
writer.t *W = NULL;
FILE *F = NULL;
uint8_t *store = NULL;
size_t storesize = 0;
bits.reader_t *BR = NULL;
bits.writer_t *BW = NULL;
linereader.t *L = NULL;
bytereader.reader_t *Y = NULL;

bool is(const char *a, *b) {
	return strcmp(a, b) == 0;
}

void out(int n) {
	printf("%d ", n);
}

void do_mem(const char *op) {
	if (is(op, "new")) {
		M = mem.memopen();
	}
	else if (is(op, "free")) {
		mem.memclose(M);
	}
	else if (is(op, "putc")) {
		out(mem.memputc(io.num(), M));
	}
	else if (is(op, "getc")) {
		out(mem.memgetc(M));
	}
	else if (is(op, "write")) {
		io.bytes_t b = io.bytes();
		printf("%zu ", mem.memwrite(M, (char *) b.b, b.n));
		free(b.b);
	}
	else if (is(op, "wwrite")) {
		io.bytes_t b = io.bytes();
		writer.t *w = mem.newwriter(M);
		out(writer.write(w, b.b, b.n));
		writer.free(w);
		free(b.b);
	}
	else if (is(op, "printf")) {
		char *s = io.str();
		out(mem.memprintf(M, "%s", s));
		free(s);
	}
	else if (is(op, "read")) {
		int n = io.num();
		char *b = calloc!((size_t) n + 1, 1);
		size_t r = mem.memread(M, b, (size_t) n);
		io.put((uint8_t *) b, r);
		free(b);
	}
	else if (is(op, "rewind")) {
		mem.rewind(M);
	}
	else if (is(op, "reset")) {
		mem.reset(M);
	}
	else if (is(op, "tell")) {
		printf("%zu ", mem.memtell(M));
	}
}

void do_sb(const char *op) {
	if (is(op, "new")) {
		S = strbuilder.new();
	}
	else if (is(op, "free")) {
		strbuilder.free(S);
	}
	else if (is(op, "addc")) {
		out((int) strbuilder.addc(S, io.num()));
	}
	else if (is(op, "adds")) {
		char *s = io.str();
		out((int) strbuilder.adds(S, s));
		free(s);
	}
	else if (is(op, "addf")) {
		char *s = io.str();
		out((int) strbuilder.addf(S, "%s", s));
		free(s);
	}
	else if (is(op, "len")) {
		printf("%zu ", strbuilder.str_len(S));
	}
	else if (is(op, "raw")) {
		char *x = strbuilder.str_raw(S);
		if (x) {
			io.puts_(x);
		} else {
			printf("- ");
		}
	}
	else if (is(op, "unpack")) {
		char *x = strbuilder.str_unpack(S);
		if (x) {
			io.puts_(x);
		} else {
			printf("- ");
		}
		free(x);
		S = strbuilder.new();
	}
	else if (is(op, "clear")) {
		strbuilder.clear(S);
	}
}

void drop() {
	if (R) reader.free(R);
	if (W) writer.free(W);
	if (F) fclose(F);
	free(store);
	R = NULL;
	W = NULL;
	F = NULL;
	store = NULL;
}

FILE *file_of(io.bytes_t b) {
	FILE *f = fopen("data", "wb");
	if (!f) panic("fopen");
	fwrite(b.b, 1, b.n, f);
	fclose(f);
	f = fopen("data", "rb");
	if (!f) panic("fopen");
	return f;
}

void openr(const char *kind) {
	io.bytes_t b = io.bytes();
	if (is(kind, "rf")) {
		F = file_of(b);
		R = reader.file(F);
		free(b.b);
	} else if (is(kind, "rd")) {
		F = file_of(b);
		R = reader.fd(OS.fileno(F));
		free(b.b);
	} else {
		store = b.b;
		R = reader.static_buffer(store, b.n);
	}
}

void do_rd(const char *kind, const char *op) {
	if (is(op, "free")) {
		drop();
	}
	else if (is(op, "open")) {
		openr(kind);
	}
	else if (is(op, "read")) {
		int n = io.num();
		uint8_t *b = calloc!((size_t) n + 1, 1);
		int r = reader.read(R, b, (size_t) n);
		if (r < 0) r = 0;
		out(r);
		io.put(b, (size_t) r);
		printf("%zu ", R->pos);
		free(b);
	}
	else if (is(op, "skip")) {
		int n = io.num();
		reader.skip(R, (size_t) n);
		printf("%zu ", R->pos);
	}
}

void openw(const char *kind) {
	int n = io.num();
	storesize = (size_t) n;
	if (is(kind, "wf")) {
		F = fopen("data", "wb");
		if (!F) panic("fopen");
		W = writer.file(F);
	} else if (is(kind, "wd")) {
		F = fopen("data", "wb");
		if (!F) panic("fopen");
		W = writer.fd(OS.fileno(F));
	} else {
		store = calloc!(storesize + 1, 1);
		// exactly the given number of bytes
		store = realloc(store, storesize);
		if (storesize > 0 && !store) panic("realloc");
		W = writer.static_buffer(store, storesize);
	}
}

void dump(const char *kind) {
	if (is(kind, "wf") || is(kind, "wd")) {
		fflush(F);
		FILE *f = fopen("data", "rb");
		if (!f) panic("fopen");
		uint8_t *b = calloc!(1000000, 1);
		size_t n = fread(b, 1, 1000000, f);
		io.put(b, n);
		free(b);
		fclose(f);
	} else {
		io.put(store, W->nwritten);
	}
}

void do_wr(const char *kind, const char *op) {
	if (is(op, "free")) {
		drop();
	}
	else if (is(op, "open")) {
		openw(kind);
	}
	else if (is(op, "write")) {
		io.bytes_t b = io.bytes();
		out(writer.write(W, b.b, b.n));
		printf("%zu ", W->nwritten);
		free(b.b);
	}
	else if (is(op, "byte")) {
		int n = io.num();
		out(writer.writebyte(W, (uint8_t) n));
		printf("%zu ", W->nwritten);
	}
	else if (is(op, "dump")) {
		dump(kind);
	}
}

void do_ew(const char *op) {
	if (is(op, "free")) {
		drop();
		return;
	}
	if (is(op, "open")) {
		openw("ws");
		return;
	}
	if (is(op, "dump")) {
		dump("ws");
		return;
	}
	if (is(op, "new")) return;
	int hi = io.num();
	int lo = io.num();
	uint32_t v = (uint32_t) hi * 65536 + (uint32_t) lo;
	if (is(op, "w1")) out(endian.write1(W, (char) lo));
	if (is(op, "w2le")) out(endian.write2le(W, v));
	if (is(op, "w4be")) out(endian.write4be(W, v));
	if (is(op, "w4le")) out(endian.write4le(W, v));
}

void show(bool ok, uint32_t v) {
	if (!ok) v = 0;
	printf("%d %u %u ", (int) ok, v / 65536, v % 65536);
}

void do_er(const char *op) {
	if (is(op, "free")) drop();
	if (is(op, "open")) openr("rs");
	uint32_t v = 0;
	uint16_t h = 0;
	uint8_t b = 0;
	bool ok = false;
	if (is(op, "r1")) {
		ok = endian.read1(R, &b) == 1;
		show(ok, b);
	}
	if (is(op, "r2le")) {
		ok = endian.read2le(R, &h) == 2;
		show(ok, h);
	}
	if (is(op, "r2be")) {
		ok = endian.read2be(R, &h);
		show(ok, h);
	}
	if (is(op, "r3le")) {
		ok = endian.read3le(R, &v) == 3;
		show(ok, v);
	}
	if (is(op, "r4be")) {
		ok = endian.read4be(R, &v) == 4;
		show(ok, v);
	}
	if (is(op, "r4le")) {
		ok = endian.read4le(R, &v) == 4;
		show(ok, v);
	}
}

void do_bw(const char *op) {
	if (is(op, "open")) {
		int ord = io.num();
		openw("ws");
		int o = bits.STRAIGHT;
		if (ord == 1) o = bits.REVERSED;
		BW = bits.newwriter(W, o);
	}
	else if (is(op, "write1")) {
		int n = io.num();
		out((int) bits.write1(BW, (uint8_t) n));
	}
	else if (is(op, "write")) {
		io.bytes_t b = io.bytes();
		out((int) bits.write(BW, b.b, b.n));
		free(b.b);
	}
	else if (is(op, "close")) {
		out((int) bits.closewriter(BW));
		dump("ws");
		BW = NULL;
	}
	else if (is(op, "free")) {
		if (BW) bits.closewriter(BW);
		BW = NULL;
		drop();
	}
}

void do_br(const char *op) {
	if (is(op, "open") || is(op, "openf")) {
		int ord = io.num();
		if (is(op, "open")) {
			openr("rs");
		} else {
			openr("rf");
		}
		int o = bits.STRAIGHT;
		if (ord == 1) o = bits.REVERSED;
		BR = bits.newreader(R, o);
	}
	else if (is(op, "read1")) {
		out(bits.read1(BR));
	}
	else if (is(op, "readn")) {
		out(bits.readn(BR, io.num()));
	}
	else if (is(op, "ls") || is(op, "ms")) {
		uint8_t *b = calloc!(8, 1);
		int n = io.num();
		if (is(op, "ls")) {
			bits.getbits_lsfirst((uint8_t) n, b);
		} else {
			bits.getbits_msfirst((uint8_t) n, b);
		}
		io.put(b, 8);
		free(b);
	}
	else if (is(op, "free")) {
		if (BR) bits.closereader(BR);
		BR = NULL;
		drop();
	}
}

void do_lr(const char *op) {
	if (is(op, "open")) {
		io.bytes_t b = io.bytes();
		F = file_of(b);
		L = linereader.new(F);
		free(b.b);
	}
	else if (is(op, "read")) {
		bool ok = linereader.read(L);
		out((int) ok);
		if (ok) io.puts_(linereader.line(L));
	}
	else if (is(op, "free")) {
		linereader.free(L);
		drop();
	}
}

void do_by(const char *op) {
	if (is(op, "open")) {
		io.bytes_t b = io.bytes();
		FILE *f = file_of(b);
		fclose(f);
		free(b.b);
		Y = bytereader.newreader("data");
		out((int) (Y != NULL));
	}
	else if (is(op, "readc")) {
		out(bytereader.readc(Y));
	}
	else if (is(op, "peekc")) {
		out(bytereader.peekc(Y));
	}
	else if (is(op, "ended")) {
		out((int) bytereader.ended(Y));
	}
	else if (is(op, "read16")) {
		uint16_t v = bytereader.read16(Y);
		printf("0 %u ", (uint32_t) v);
	}
	else if (is(op, "read32")) {
		uint32_t v = bytereader.read32(Y);
		printf("%u %u ", v / 65536, v % 65536);
	}
	else if (is(op, "free")) {
		bytereader.freereader(Y);
	}
}

int main() {
	while (io.line()) {
		char *k = io.word();
		char *op = io.word();
		if (is(k, "mem")) {
			do_mem(op);
		} else if (is(k, "sb")) {
			do_sb(op);
		} else if (is(k, "rs") || is(k, "rf") || is(k, "rd")) {
			do_rd(k, op);
		} else if (is(k, "ws") || is(k, "wf") || is(k, "wd")) {
			do_wr(k, op);
		} else if (is(k, "ew")) {
			do_ew(op);
		} else if (is(k, "er")) {
			do_er(op);
		} else if (is(k, "bw")) {
			do_bw(op);
		} else if (is(k, "br")) {
			do_br(op);
		} else if (is(k, "lr")) {
			do_lr(op);
		} else if (is(k, "by")) {
			do_by(op);
		}
		io.end();
	}
	return 0;
}
