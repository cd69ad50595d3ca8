#import io.c
#import opt

typedef {
	int type;
	char *s;
	int i;
	size_t z;
	bool b;
	float f;
} val_t;

val_t vals[40] = {};
size_t nvals = 0;
int lastcmd = 0;

bool is(const char *a, *b) {
	return strcmp(a, b) == 0;
}

void decl() {
	int t = io.num();
	char *name = io.str();
	char *desc = io.str();
	val_t *v = &vals[nvals++];
	v->type = t;
	v->s = calloc!(1, 1);
	if (t == 's') opt.str(name, desc, &v->s);
	if (t == 'i') opt.opt_int(name, desc, &v->i);
	if (t == 'z') opt.size(name, desc, &v->z);
	if (t == 'b') opt.flag(name, desc, &v->b);
	if (t == 'f') opt.opt_float(name, desc, &v->f);
	printf("0 ");
}

// Arguments as an exact null-terminated vector.
char **args(int *argc) {
	char **list = calloc!(1000, sizeof(char *));
	int n = 0;
	list[n++] = "prog";
	while (io.more()) {
		list[n++] = io.str();
	}
	char **r = calloc!((size_t) n + 1, sizeof(char *));
	for (int i = 0; i < n; i++) {
		r[i] = list[i];
	}
	free(list);
	*argc = n;
	return r;
}

void text(const char *s) {
	io.puts_(s);
}

void show(val_t *v) {
	char *buf = calloc!(100, 1);
	if (v->type == 's') {
		text(v->s);
	} else {
		if (v->type == 'i') sprintf(buf, "%d", v->i);
		if (v->type == 'z') sprintf(buf, "%zu", v->z);
		if (v->type == 'b') sprintf(buf, "%d", v->b);
		if (v->type == 'f') sprintf(buf, "%.0f", v->f);
		text(buf);
	}
	free(buf);
}

void parse() {
	int argc = 0;
	char **argv = args(&argc);
	char **rest = opt.parse(argc, argv);
	for (size_t i = 0; i < nvals; i++) {
		show(&vals[i]);
	}
	int n = 0;
	while (rest[n]) n++;
	printf("%d ", n);
	for (int i = 0; i < n; i++) {
		text(rest[i]);
	}
}

int ran(int k, argc, char **argv) {
	printf("%d %d ", k, argc);
	for (int i = 0; i < argc; i++) {
		text(argv[i]);
	}
	return 100 + k;
}
int c1(int n, char **v) { return ran(1, n, v); }
int c2(int n, char **v) { return ran(2, n, v); }
int c3(int n, char **v) { return ran(3, n, v); }
int c4(int n, char **v) { return ran(4, n, v); }
int c5(int n, char **v) { return ran(5, n, v); }
int c6(int n, char **v) { return ran(6, n, v); }
int c7(int n, char **v) { return ran(7, n, v); }
int c8(int n, char **v) { return ran(8, n, v); }
int c9(int n, char **v) { return ran(9, n, v); }
int c10(int n, char **v) { return ran(10, n, v); }

void cmd() {
	char *name = io.str();
	lastcmd++;
	if (lastcmd == 1) opt.addcmd(name, c1);
	else if (lastcmd == 2) opt.addcmd(name, c2);
	else if (lastcmd == 3) opt.addcmd(name, c3);
	else if (lastcmd == 4) opt.addcmd(name, c4);
	else if (lastcmd == 5) opt.addcmd(name, c5);
	else if (lastcmd == 6) opt.addcmd(name, c6);
	else if (lastcmd == 7) opt.addcmd(name, c7);
	else if (lastcmd == 8) opt.addcmd(name, c8);
	else if (lastcmd == 9) opt.addcmd(name, c9);
	else opt.addcmd(name, c10);
	printf("0 ");
}

int main() {
	while (io.line()) {
		io.word();
		const char *op = io.word();
		if (is(op, "decl")) decl();
		else if (is(op, "nargs")) {
			size_t n = (size_t) io.num();
			opt.nargs(n, io.str());
			printf("0 ");
		}
		else if (is(op, "parse")) parse();
		else if (is(op, "usage")) {
			char *s = io.str();
			opt.summary(s);
			printf("%d ", opt.usage());
		}
		else if (is(op, "cmd")) cmd();
		else if (is(op, "dispatch")) {
			int argc = 0;
			char **argv = args(&argc);
			printf("%d ", opt.dispatch(argc, argv));
		}
		io.end();
	}
	return 0;
}
