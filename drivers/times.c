#import io.c
#import error
#import time

bool is(const char *a, *b) {
	return strcmp(a, b) == 0;
}

const char *FORMATS[] = {"", "logfile", "mm:ss", "mm:ss.ms", "hh:mm:ss,ms", "[h]:mm:ss.mmm"};

time.duration_t dur() {
	int64_t s = io.num64();
	int64_t us = io.num64();
	return time.dur_add(time.newdur(s, time.SECONDS), time.newdur(us, time.US));
}

void putdur(time.duration_t d) {
	int64_t v = time.dur_us(&d);
	int64_t s = v / 1000000;
	int64_t us = v % 1000000;
	if (us < 0) {
		us += 1000000;
		s -= 1;
	}
	printf("%ld %ld ", s, us);
}

void putiso(time.iso_t x) {
	printf("%d %d %d %d %d %d %d ", x.Y, x.M, x.D, x.h, x.m, x.s, x.ms);
}

time.iso_t iso() {
	time.iso_t x = {};
	x.Y = io.num();
	x.M = io.num();
	x.D = io.num();
	x.h = io.num();
	x.m = io.num();
	x.s = io.num();
	x.ms = io.num();
	return x;
}

time.iso_t zoned() {
	time.iso_t x = iso();
	x.zh = io.num();
	x.zm = io.num();
	return x;
}

void operation(const char *op) {
	if (is(op, "fmt")) {
		const char *f = FORMATS[io.num()];
		time.duration_t d = dur();
		size_t n = (size_t) io.num();
		char *buf = calloc!(n + 1, 1);
		buf = realloc(buf, n);
		if (time.dur_fmt(&d, buf, n, f)) {
			printf("1 ");
			io.puts_(buf);
		} else {
			printf("0 ");
		}
		if (n > 0) free(buf);
	} else if (is(op, "parse")) {
		char *s = io.str();
		time.duration_t d = {};
		error.t err = {};
		if (time.parse_duration(s, &d, &err)) {
			printf("1 ");
			putdur(d);
		} else {
			printf("0 %d ", err.set);
		}
		free(s);
	} else if (is(op, "add")) {
		time.duration_t a = dur();
		putdur(time.dur_add(a, dur()));
	} else if (is(op, "dur")) {
		int64_t v = io.num64();
		int u = io.num();
		int unit = time.US;
		if (u == 2) unit = time.MS;
		if (u == 3) unit = time.SECONDS;
		if (u == 4) unit = time.MINUTES;
		time.duration_t d = {};
		time.dur_set(&d, v, unit);
		time.duration_t e = time.newdur(v, unit);
		if (time.dur_us(&d) != time.dur_us(&e)) panic("newdur and dur_set differ");
		putdur(d);
	} else if (is(op, "unix")) {
		int64_t n = io.num64();
		int64_t s = io.num64();
		time.iso_t x = time.fromunix(n * 86400 + s);
		putiso(x);
		printf("%d %d ", x.zh, x.zm);
	} else if (is(op, "isoparse")) {
		char *s = io.str();
		time.iso_t x = time.parse_iso(s);
		putiso(x);
		printf("%d %d ", x.zh, x.zm);
		free(s);
	} else if (is(op, "isofmt")) {
		time.iso_t x = zoned();
		size_t n = (size_t) io.num();
		char *buf = calloc!(n + 1, 1);
		buf = realloc(buf, n);
		if (time.fmt_iso_iso(x, buf, n)) {
			printf("1 ");
			io.puts_(buf);
		} else {
			printf("0 ");
		}
		if (n > 0) free(buf);
	} else if (is(op, "sub")) {
		time.iso_t a = zoned();
		time.iso_t b = zoned();
		int64_t d = time.sub(a, b);
		int64_t days = d / 86400000;
		int64_t ms = d % 86400000;
		if (ms < 0) {
			ms += 86400000;
			days -= 1;
		}
		printf("%ld %ld ", days, ms);
	} else if (is(op, "local")) {
		char *tz = io.str();
		OS.setenv("TZ", tz, 1);
		free(tz);
		io.num();
		io.num();
		time.iso_t x = iso();
		time.iso_tolocal(&x);
		putiso(x);
	}
}

int main() {
	while (io.line()) {
		io.word();
		operation(io.word());
		io.end();
	}
	return 0;
}
