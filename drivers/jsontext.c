#import io.c
#import error
#import formats/json
#import writer

json.val_t *V = NULL;
uint8_t *D = NULL;
size_t dn = 0;
size_t dcap = 0;

bool is(const char *a, *b) {
	return strcmp(a, b) == 0;
}

void addb(uint8_t c) {
	if (dn + 1 >= dcap) {
		dcap = dcap * 2 + 100;
		D = realloc(D, dcap);
		if (!D) panic("realloc");
	}
	D[dn++] = c;
}

void adds(const char *s) {
	while (*s != '\0') {
		addb((uint8_t) *s);
		s++;
	}
}

void addhex(const char *s) {
	char tmp[3] = {};
	addb('"');
	while (*s != '\0') {
		sprintf(tmp, "%02x", (uint8_t) *s);
		adds(tmp);
		s++;
	}
	addb(';');
}

void dump1(json.val_t *v) {
	int t = json.type(v);
	if (t == json.TNULL) {
		addb('n');
	}
	else if (t == json.TBOOL) {
		if (v->val.boolval) {
			addb('t');
		} else {
			addb('f');
		}
	}
	else if (t == json.TSTR) {
		addhex(json.strval(v));
	}
	else if (t == json.TNUM) {
		char tmp[100] = {};
		double x = json.numval(v);
		if (x == 0) x = 0;
		if (x == 0) {
			sprintf(tmp, "0.00000000000000e+00");
		} else {
			sprintf(tmp, "%.14e", x);
		}
		addb('#');
		adds(tmp);
		addb(';');
	}
	else if (t == json.TARR) {
		addb('[');
		for (size_t i = 0; i < json.len(v); i++) dump1(json.val(v, i));
		addb(']');
	}
	else {
		addb('{');
		for (size_t i = 0; i < json.len(v); i++) {
			addhex(json.key(v, i));
			dump1(json.val(v, i));
		}
		addb('}');
	}
}

void dump(json.val_t *v) {
	if (!v) {
		printf("NULL ");
		return;
	}
	dn = 0;
	dump1(v);
	io.put(D, dn);
}

// A writer taking at most 'step' bytes at a time.
typedef {
	size_t step;
} narrow_t;

int narrow_write(void *ctx, const uint8_t *data, size_t n) {
	narrow_t *w = ctx;
	if (n > w->step) n = w->step;
	for (size_t i = 0; i < n; i++) addb(data[i]);
	return (int) n;
}

json.val_t *parse() {
	char *s = io.str();
	error.t err = {};
	json.val_t *v = json.parse(s, &err);
	if (!v && !err.set) panic("no value and no error");
	if (v && err.set) panic("a value and an error");
	free(s);
	return v;
}

void on_value(const char *op) {
	if (is(op, "len")) {
		printf("%zu ", json.len(V));
	}
	else if (is(op, "type")) {
		printf("%d ", json.type(V));
	}
	else if (is(op, "get")) {
		char *k = io.str();
		dump(json.get(V, k));
		free(k);
	}
	else if (is(op, "key")) {
		io.puts_(json.key(V, (size_t) io.num()));
	}
	else if (is(op, "val")) {
		dump(json.val(V, (size_t) io.num()));
	}
	else if (is(op, "put")) {
		char *k = io.str();
		json.val_t *x = parse();
		bool r = json.json_put(V, k, x);
		if (!r) json.json_free(x);
		printf("%d ", r);
		free(k);
	}
	else if (is(op, "str")) {
		io.puts_(json.strval(V));
	}
	else if (is(op, "format")) {
		char *s = json.format(V);
		io.puts_(s);
		free(s);
	}
	else if (is(op, "formatwr")) {
		narrow_t st = {};
		st.step = (size_t) io.num();
		writer.t *w = writer.new(&st, narrow_write, NULL);
		dn = 0;
		json.formatwr(w, V);
		io.put(D, dn);
		writer.free(w);
	}
	else if (is(op, "clone")) {
		json.val_t *c = json.clone(V);
		json.json_free(V);
		V = c;
		dump(V);
	}
	else {
		dump(V);
	}
}

void act(const char *op) {
	if (is(op, "new") || is(op, "free")) {
		json.json_free(V);
		V = NULL;
	}
	else if (is(op, "parse")) {
		json.json_free(V);
		V = parse();
		dump(V);
	}
	else if (is(op, "wstring")) {
		char *s = io.str();
		FILE *f = fopen("data", "wb");
		json.write_string(f, s);
		fclose(f);
		free(s);
		f = fopen("data", "rb");
		dn = 0;
		while (true) {
			int c = fgetc(f);
			if (c == EOF) break;
			addb((uint8_t) c);
		}
		fclose(f);
		io.put(D, dn);
	}
	else if (!V) {
		printf("NULL ");
	}
	else {
		on_value(op);
	}
}

int main() {
	while (io.line()) {
		io.word();
		const char *op = io.word();
		act(op);
		io.end();
	}
	return 0;
}
