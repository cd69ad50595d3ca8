#import io.c
#import formats/csv
#import formats/bencode
#import formats/bencode_writer
#import formats/torrent
#import formats/conf

#include <unistd.h>

csv.reader_t *R = NULL;
csv.writer_t CW = {};
bencode.reader_t *BR = NULL;
bencode_writer.t *BW = NULL;
conf.reader_t *CR = NULL;
FILE *F = NULL;
FILE *CF = NULL;
char *DATA = NULL;
uint8_t *OUT = NULL;
bool tofile = false;

bool is(const char *a, *b) {
	return strcmp(a, b) == 0;
}

// Shows all that was written to f.
void dumpfile(FILE *f) {
	fflush(f);
	int c = 0;
	int n = 0;
	rewind(f);
	while (true) {
		c = fgetc(f);
		if (c == EOF) break;
		printf("%02x", c);
		n++;
	}
	if (n == 0) printf("-");
	printf(" ");
}

FILE *filewith(io.bytes_t x) {
	FILE *f = tmpfile();
	if (x.n > 0) fwrite(x.b, 1, x.n, f);
	rewind(f);
	free(x.b);
	return f;
}

void do_csv(const char *op) {
	if (is(op, "open")) {
		io.bytes_t x = io.bytes();
		FILE *f = fopen("csv.tmp", "wb");
		if (x.n > 0) fwrite(x.b, 1, x.n, f);
		fclose(f);
		free(x.b);
		if (!OS.freopen("csv.tmp", "rb", stdin)) panic("freopen");
		R = csv.newreader();
	} else if (is(op, "val")) {
		bool ok = csv.readval(R);
		printf("%d ", ok);
		if (ok) io.puts_(csv.val(R));
	} else if (is(op, "next")) {
		printf("%d ", csv.nextline(R));
	} else if (is(op, "free") && R) {
		csv.freereader(R);
		R = NULL;
	}
}

void do_csvw(const char *op) {
	if (is(op, "new")) {
		CW.f = tmpfile();
		CW.col = 0;
	} else if (is(op, "w")) {
		char *s = io.str();
		csv.writeval(&CW, s);
		free(s);
	} else if (is(op, "nl")) {
		csv.writeval(&CW, NULL);
	} else if (is(op, "dump")) {
		dumpfile(CW.f);
	} else if (is(op, "free")) {
		fclose(CW.f);
	}
}

void put64(int64_t v) {
	char *buf = calloc!(100, 1);
	sprintf(buf, "%ld", v);
	io.puts_(buf);
	free(buf);
}

// A decimal number given as text.
int64_t get64() {
	char *s = io.str();
	int64_t v = OS.atoll(s);
	free(s);
	return v;
}

void readbuf(bool key) {
	int cap = io.num();
	if (cap < 0) {
		if (key) printf("%zu ", bencode.key(BR, NULL, 0));
		else printf("%zu ", bencode.readbuf(BR, NULL, 0));
		return;
	}
	size_t n = (size_t) cap;
	uint8_t *buf = calloc!(n + 1, 1);
	if (n > 0) {
		buf = realloc(buf, n);
		memset(buf, 7, n);
	}
	size_t r = 0;
	if (key) r = bencode.key(BR, buf, n);
	else r = bencode.readbuf(BR, buf, n);
	printf("%zu ", r);
	io.put(buf, n);
	free(buf);
}

void do_ben(const char *op) {
	if (is(op, "open")) {
		io.bytes_t x = io.bytes();
		DATA = (char *) x.b;
		BR = bencode.newreader(DATA, x.n);
	} else if (is(op, "more")) {
		printf("%d ", bencode.more(BR));
	} else if (is(op, "type")) {
		printf("%d ", bencode.type(BR));
	} else if (is(op, "pos")) {
		printf("%zu ", bencode.pos(BR));
	} else if (is(op, "enter")) {
		bencode.enter(BR);
		printf("0 ");
	} else if (is(op, "leave")) {
		bencode.leave(BR);
		printf("0 ");
	} else if (is(op, "key")) {
		readbuf(true);
	} else if (is(op, "buf")) {
		readbuf(false);
	} else if (is(op, "strsize")) {
		printf("%d ", bencode.strsize(BR));
	} else if (is(op, "num")) {
		put64(bencode.readnum(BR));
	} else if (is(op, "skip")) {
		printf("%d ", bencode.skip(BR));
	} else if (is(op, "free") && BR) {
		bencode.freereader(BR);
		free(DATA);
		BR = NULL;
	}
}

void do_benw(const char *op) {
	if (is(op, "open")) {
		size_t n = (size_t) io.num();
		OUT = calloc!(n + 1, 1);
		if (n > 0) OUT = realloc(OUT, n);
		BW = bencode_writer.tobuf(OUT, n);
		tofile = false;
	} else if (is(op, "fopen")) {
		F = tmpfile();
		BW = bencode_writer.tofile(F);
		tofile = true;
	} else if (is(op, "begin")) {
		printf("%d ", bencode_writer.begin(BW, io.num()));
	} else if (is(op, "end")) {
		printf("%d ", bencode_writer.end(BW));
	} else if (is(op, "num")) {
		printf("%d ", bencode_writer.num(BW, get64()));
	} else if (is(op, "buf")) {
		io.bytes_t x = io.bytes();
		printf("%d ", bencode_writer.buf(BW, x.b, x.n));
		free(x.b);
	} else if (is(op, "pos")) {
		printf("%zu ", bencode_writer.pos(BW));
	} else if (is(op, "dump")) {
		if (tofile) dumpfile(F);
		else io.put(OUT, bencode_writer.pos(BW));
	} else if (is(op, "free") && BW) {
		bencode_writer.free(BW);
		if (tofile) fclose(F);
		else free(OUT);
		BW = NULL;
	}
}

void copy(char *to) {
	char *s = io.str();
	strcpy(to, s);
	free(s);
}

void do_tor(const char *op) {
	if (is(op, "parse")) {
		io.bytes_t x = io.bytes();
		torrent.info_t *t = torrent.parse((char *) x.b, x.n);
		free(x.b);
		io.puts_(t->announce);
		io.puts_(t->created_by);
		put64(t->creation_date);
		io.puts_(t->comment);
		io.puts_(t->name);
		printf("%zu ", t->piece_length);
		put64((int64_t) t->length);
		printf("%d ", t->private);
		io.puts_(t->infohash);
		io.put((uint8_t *) t->infohash_bytes, 20);
		put64((int64_t) torrent.totalsize(t));
		size_t n = torrent.npieces(t);
		printf("%zu %zu ", n, torrent.lastlen(t));
		uint8_t *all = calloc!(n * 20 + 1, 1);
		for (size_t i = 0; i < n; i++) {
			torrent.piecehash(t, i, all + i * 20);
		}
		io.put(all, n * 20);
		free(all);
		printf("%zu ", t->nfiles);
		for (size_t i = 0; i < t->nfiles; i++) {
			put64((int64_t) t->files[i].length);
			io.puts_(t->files[i].path);
		}
		torrent.free(t);
	} else if (is(op, "write")) {
		torrent.info_t *t = calloc!(1, sizeof(torrent.info_t));
		copy(t->announce);
		copy(t->comment);
		copy(t->created_by);
		t->creation_date = (int) get64();
		t->length = (size_t) get64();
		copy(t->name);
		t->piece_length = (size_t) io.num();
		io.bytes_t x = io.bytes();
		t->pieces = x.b;
		FILE *f = tmpfile();
		if (!torrent.writefile(f, t)) panic("writefile");
		dumpfile(f);
		fclose(f);
		torrent.free(t);
	}
}

void do_conf(const char *op) {
	if (is(op, "open")) {
		CF = filewith(io.bytes());
		CR = conf.new(CF);
	} else if (is(op, "next")) {
		bool ok = conf.next(CR);
		printf("%d ", ok);
		if (ok) {
			io.puts_(CR->key);
			io.puts_(CR->val);
		}
	} else if (is(op, "free") && CR) {
		conf.free(CR);
		fclose(CF);
		CR = NULL;
	}
}

int main() {
	io.own_stdin();
	while (io.line()) {
		const char *kind = io.word();
		const char *op = io.word();
		if (is(kind, "csv")) do_csv(op);
		else if (is(kind, "csvw")) do_csvw(op);
		else if (is(kind, "ben")) do_ben(op);
		else if (is(kind, "benw")) do_benw(op);
		else if (is(kind, "tor")) do_tor(op);
		else if (is(kind, "conf")) do_conf(op);
		io.end();
	}
	return 0;
}
