// Threads exchanging items through a pipe; every call and return is logged.
// Input: first line "rotate prefill", then one line per thread: wN, r, n
// (read and discard), R (read until the end), x (close).
#import os/threads
#import io.c

typedef {
	int id;
	char *script;
	threads.pipe_t *p;
	int done;
} ctx_t;

int vals[2000] = {};

void say(const char *what, int id, const char *op, int v) {
	printf("%s %d %s %d\n", what, id, op, v);
	fflush(stdout);
}

bool rd(ctx_t *c, bool drop) {
	void *x = NULL;
	if (drop) {
		say("c", c->id, "n", 0);
		bool ok = threads.pread(c->p, NULL);
		say("r", c->id, "n", (int) ok - 1);
		return ok;
	}
	say("c", c->id, "r", 0);
	bool ok = threads.pread(c->p, &x);
	int v = -1;
	if (ok) {
		int *q = x;
		v = (int) (q - &vals[0]);
	}
	say("r", c->id, "r", v);
	return ok;
}

void *worker(void *arg) {
	ctx_t *c = arg;
	char *s = c->script;
	while (*s != '\0') {
		char k = *s++;
		if (k == 'w') {
			int v = 0;
			while (*s >= '0' && *s <= '9') {
				v = v * 10 + (int) *s - (int) '0';
				s++;
			}
			say("c", c->id, "w", v);
			threads.pwrite(c->p, &vals[v]);
			say("r", c->id, "w", v);
		}
		if (k == 'r') rd(c, false);
		if (k == 'n') rd(c, true);
		if (k == 'R') {
			while (rd(c, false)) {
				c->done++;
			}
		}
		if (k == 'x') {
			say("c", c->id, "x", 0);
			threads.pclose(c->p);
			say("r", c->id, "x", 0);
		}
	}
	return c;
}

int main() {
	threads.pipe_t *p = threads.newpipe();
	io.line();
	int rot = io.num();
	int fill = io.num();
	for (int i = 0; i < rot; i++) {
		threads.pwrite(p, NULL);
		threads.pread(p, NULL);
	}
	for (int i = 0; i < fill; i++) {
		threads.pwrite(p, &vals[i]);
	}
	ctx_t cs[20] = {};
	threads.thr_t *ts[20] = {};
	int n = 0;
	while (io.line()) {
		char *w = io.word();
		cs[n].id = n + 1;
		cs[n].script = calloc!(strlen(w) + 1, 1);
		strcpy(cs[n].script, w);
		cs[n].p = p;
		n++;
	}
	for (int i = 0; i < n; i++) {
		ts[i] = threads.start(&worker, &cs[i]);
	}
	for (int i = 0; i < n; i++) {
		void *res = NULL;
		int e = threads.wait(ts[i], &res);
		ctx_t *rc = res;
		if (e != 0 || rc != &cs[i]) {
			printf("badjoin %d\n", i + 1);
		}
		free(cs[i].script);
	}
	threads.freepipe(p);
	printf("end\n");
	return 0;
}
