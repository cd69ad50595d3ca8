#import io.c
#import image
#import formats/bmp
#import formats/ppm
#import formats/png
#import formats/wav
#import formats/tiff
#import sound
#import table
#import stats
#import rnd

#include <unistd.h>

image.image_t *I = NULL;
image.image_t *K = NULL;
FILE *WF = NULL;
wav.writer_t *WW = NULL;
wav.reader_t *WR = NULL;
tiff.file_t *T = NULL;
table.table_t *TAB = NULL;
stats.series_t *S = NULL;

bool is(const char *a, *b) {
	return strcmp(a, b) == 0;
}

void savefile(const char *path) {
	io.bytes_t x = io.bytes();
	FILE *f = fopen(path, "wb");
	if (x.n > 0) fwrite(x.b, 1, x.n, f);
	fclose(f);
	free(x.b);
}

void show(FILE *f) {
	int n = 0;
	while (true) {
		int c = fgetc(f);
		if (c == EOF) break;
		printf("%02x", c);
		n++;
	}
	if (n == 0) printf("-");
	printf(" ");
}

void showfile(const char *path) {
	FILE *f = fopen(path, "rb");
	show(f);
	fclose(f);
}

image.rgba_t color() {
	image.rgba_t c = {};
	c.red = io.num();
	c.green = io.num();
	c.blue = io.num();
	c.transparency = io.num();
	return c;
}

void putcolor(image.rgba_t c) {
	printf("%d %d %d %d ", c.red, c.green, c.blue, c.transparency);
}

void flip(image.rgba_t *c) {
	int g = c->green;
	c->red = 255 - c->red;
	c->green = c->blue;
	c->blue = g;
}

void do_img(const char *op) {
	if (is(op, "new")) {
		I = image.new(1, 1);
		K = image.new(1, 1);
	} else if (is(op, "free")) {
		image.free(I);
		image.free(K);
	} else if (is(op, "make")) {
		image.free(I);
		int w = io.num();
		int h = io.num();
		I = image.new(w, h);
		printf("1 ");
	} else if (is(op, "keep")) {
		image.free(K);
		K = I;
		int w = io.num();
		int h = io.num();
		I = image.new(w, h);
		printf("1 ");
	} else if (is(op, "size")) {
		printf("%d %d ", I->width, I->height);
	} else if (is(op, "set")) {
		int x = io.num();
		int y = io.num();
		image.set(I, x, y, color());
		printf("1 ");
	} else if (is(op, "get")) {
		int x = io.num();
		int y = io.num();
		putcolor(image.get(I, x, y));
	} else if (is(op, "fill")) {
		image.fill(I, color());
		printf("1 ");
	} else if (is(op, "clear")) {
		image.clear(I);
		printf("1 ");
	} else if (is(op, "blend")) {
		int x = io.num();
		int y = io.num();
		image.rgba_t c = {};
		c.red = io.num();
		c.green = io.num();
		c.blue = io.num();
		int k = io.num();
		float o = k;
		image.blend(I, x, y, c, o / 16);
		printf("1 ");
	} else if (is(op, "apply")) {
		image.apply(I, flip);
		printf("1 ");
	} else if (is(op, "explode")) {
		image.image_t *big = image.explode(I, io.num());
		image.free(I);
		I = big;
		printf("1 ");
	} else if (is(op, "paste")) {
		int x = io.num();
		int y = io.num();
		image.paste(I, K, x, y);
		printf("1 ");
	} else if (is(op, "test")) {
		image.testimage(I);
		printf("1 ");
	} else if (is(op, "dump")) {
		printf("%d %d ", I->width, I->height);
		for (int y = 0; y < I->height; y++) {
			for (int x = 0; x < I->width; x++) {
				image.rgba_t *c = image.getpixel(I, x, y);
				printf("%02x%02x%02x%02x", c->red & 255, c->green & 255, c->blue & 255, c->transparency & 255);
			}
		}
		if (I->width * I->height == 0) printf("-");
		printf(" ");
	} else if (is(op, "bmp")) {
		if (!bmp.write(I, "out.tmp")) panic("bmp");
		showfile("out.tmp");
	} else if (is(op, "ppm")) {
		FILE *f = fopen("out.tmp", "wb");
		ppm.writeimg(I, f);
		fclose(f);
		showfile("out.tmp");
	} else if (is(op, "png")) {
		if (!png.write(I, "out.tmp", io.num())) panic("png");
		showfile("out.tmp");
	} else if (is(op, "mix")) {
		image.rgba_t a = color();
		image.rgba_t b = color();
		double k = io.num();
		putcolor(image.mix(a, b, k / 16));
	} else if (is(op, "map")) {
		io.bytes_t x = io.bytes();
		image.colormap_t m = {};
		m.size = x.n / 3;
		for (size_t i = 0; i < m.size; i++) {
			m.colors[i].red = x.b[3 * i];
			m.colors[i].green = x.b[3 * i + 1];
			m.colors[i].blue = x.b[3 * i + 2];
		}
		m.color_width = io.num();
		putcolor(image.mapcolor(&m, io.num()));
		free(x.b);
	}
}

void putsample(sound.samplef_t s, int bits) {
	double scale = (1 << (bits - 1)) - 1;
	printf("%d %d ", (int) floor(s.left * scale + 0.5), (int) floor(s.right * scale + 0.5));
}

void do_wav(const char *op) {
	if (is(op, "begin")) {
		WF = fopen("wav.tmp", "wb");
		WW = wav.open_writer(WF);
		printf("1 ");
	} else if (is(op, "raw") || is(op, "frac")) {
		double scale = 32767;
		if (is(op, "frac")) scale = 4096;
		double l = io.num();
		double r = io.num();
		wav.write_sample(WW, l / scale, r / scale);
		printf("1 ");
	} else if (is(op, "bytes")) {
		fflush(WF);
		showfile("wav.tmp");
	} else if (is(op, "open")) {
		savefile("in.tmp");
		WR = wav.open_reader("in.tmp");
		printf("%d %u %d ", WR->wav.channels, WR->wav.frequency, WR->wav.bits_per_sample);
	} else if (is(op, "more")) {
		printf("%d ", wav.more(WR));
	} else if (is(op, "read")) {
		putsample(wav.read_samplef(WR), WR->wav.bits_per_sample);
	} else if (is(op, "load")) {
		savefile("in.tmp");
		int bits = io.num();
		sound.clip_t *c = wav.loadfile("in.tmp");
		printf("%u %zu ", c->freq, c->nsamples);
		for (size_t i = 0; i < c->nsamples; i++) {
			putsample(c->samples[i], bits);
		}
		sound.freeclip(c);
	} else if (is(op, "free")) {
		if (WW) {
			wav.close_writer(WW);
			fclose(WF);
			WW = NULL;
		}
		if (WR) {
			wav.close_reader(WR);
			WR = NULL;
		}
	}
}

void put4(uint32_t v) {
	printf("%08x ", v);
}

void do_tiff(const char *op) {
	if (is(op, "parse")) {
		io.bytes_t x = io.bytes();
		T = tiff.parse(x.b, x.n);
		printf("%zu ", T->ndirs);
		for (size_t i = 0; i < T->ndirs; i++) {
			tiff.dir_t *d = T->dirs[i];
			printf("%zu ", d->nentries);
			for (size_t j = 0; j < d->nentries; j++) {
				tiff.entry_t *e = d->entries[j];
				printf("%d %d ", e->tag, e->type);
				put4((uint32_t) e->count);
				put4(e->value);
			}
		}
	} else if (is(op, "str")) {
		int d = io.num();
		int e = io.num();
		tiff.entry_t *x = T->dirs[d - 1]->entries[e - 1];
		char *s = tiff.getstring(x);
		io.put((uint8_t *) s, x->count);
		free(s);
	} else if (is(op, "at")) {
		tiff.setpos(T, (uint32_t) io.num());
		put4(tiff.readbytes(T, (size_t) io.num()));
	} else if (is(op, "free") && T) {
		tiff.freefile(T);
		T = NULL;
	}
}

void do_tab(const char *op) {
	if (is(op, "cols")) {
		TAB = table.new((size_t) io.num());
		printf("1 ");
	} else if (is(op, "push")) {
		char *s = io.str();
		table.pushval(TAB, "%s", s);
		free(s);
		printf("1 ");
	} else if (is(op, "print")) {
		fflush(stdout);
		int old = OS.dup(1);
		FILE *f = fopen("tab.tmp", "wb");
		OS.dup2(OS.fileno(f), 1);
		table.print(TAB);
		fflush(stdout);
		OS.dup2(old, 1);
		OS.close(old);
		fclose(f);
		showfile("tab.tmp");
	} else if (is(op, "free") && TAB) {
		table.free(TAB);
		TAB = NULL;
	}
}

void do_stats(const char *op) {
	if (is(op, "new")) S = stats.newseries();
	else if (is(op, "free")) stats.freeseries(S);
	else if (is(op, "add")) {
		double v = io.num();
		stats.add(S, v);
		printf("1 ");
	}
	else if (is(op, "count")) printf("%zu ", stats.count(S));
	else if (is(op, "sum")) printf("%d ", (int) stats.sum(S));
	else if (is(op, "min")) printf("%d ", (int) stats.min(S));
	else if (is(op, "max")) printf("%d ", (int) stats.max(S));
	else if (is(op, "med")) printf("%d ", (int) stats.median(S));
	else if (is(op, "perc")) printf("%d ", (int) stats.percentile(S, io.num()));
	else if (is(op, "avg")) {
		double n = (double) stats.count(S);
		if (n == 0) printf("0 ");
		else printf("%d ", (int) floor(stats.avg(S) * n + 0.5));
	}
}

void do_rnd(const char *op) {
	if (is(op, "seed")) {
		io.bytes_t x = io.bytes();
		uint64_t v = 0;
		for (size_t i = 8; i > 0; i--) {
			v = v * 256 + (uint64_t) x.b[i - 1];
		}
		rnd.seed(v);
		free(x.b);
		printf("1 ");
	} else if (is(op, "intn")) {
		printf("%u ", rnd.intn((uint32_t) io.num()));
	} else if (is(op, "u")) {
		double u = rnd.u();
		printf("%d ", u >= 0 && u < 1);
		put4((uint32_t) (uint64_t) (u * 4294967296.0));
	} else if (is(op, "pick")) {
		size_t fs[20] = {};
		size_t n = 0;
		while (io.more()) fs[n++] = (size_t) io.num();
		printf("%d ", stats.sample_from_distribution(fs, n));
	}
}

int main() {
	while (io.line()) {
		const char *kind = io.word();
		const char *op = io.word();
		if (is(kind, "img")) do_img(op);
		else if (is(kind, "wav")) do_wav(op);
		else if (is(kind, "tiff")) do_tiff(op);
		else if (is(kind, "tab")) do_tab(op);
		else if (is(kind, "stats")) do_stats(op);
		else if (is(kind, "rnd")) do_rnd(op);
		io.end();
	}
	return 0;
}
