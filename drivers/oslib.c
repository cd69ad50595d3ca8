#import io.c
#import mime
#import os/fs
#import os/proc
#import reader
#import writer
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

int ncase = 0;
int basefds = 0;
proc.proc_t *procs[10] = {};

bool is(const char *a, *b) {
	return strcmp(a, b) == 0;
}

int openfds() {
	int n = 0;
	for (int i = 0; i < 256; i++) {
		if (OS.fcntl(i, OS.F_GETFD) >= 0) n++;
	}
	return n;
}

void sortnames(char **list, size_t n) {
	for (size_t i = 1; i < n; i++) {
		for (size_t j = i; j > 0; j--) {
			if (strcmp(list[j - 1], list[j]) <= 0) break;
			char *t = list[j];
			list[j] = list[j - 1];
			list[j - 1] = t;
		}
	}
}

void list(const char *path) {
	fs.dir_t *d = fs.dir_open(path);
	if (!d) {
		printf("NULL ");
		return;
	}
	char **names = calloc!(1000, sizeof(char *));
	size_t n = 0;
	size_t total = 0;
	while (true) {
		const char *s = fs.dir_next(d);
		if (!s) break;
		names[n] = calloc!(strlen(s) + 1, 1);
		strcpy(names[n], s);
		total += strlen(s) + 1;
		n++;
	}
	fs.dir_close(d);
	sortnames(names, n);
	char *r = calloc!(total + 1, 1);
	size_t at = 0;
	for (size_t i = 0; i < n; i++) {
		memcpy(r + at, names[i], strlen(names[i]));
		at += strlen(names[i]);
		r[at++] = '/';
		free(names[i]);
	}
	io.put((uint8_t *) r, total);
	free(r);
	free(names);
}

void real(const char *path, int room) {
	char top[5000] = {};
	OS.getcwd(top, 5000);
	size_t l = strlen(top) - 2; // without /w
	top[l] = '\0';
	size_t n = 0;
	if (room >= 0) n = l + (size_t) room;
	char *buf = calloc!(n, 1);
	if (n == 0) {
		free(buf);
		buf = OS.malloc(0);
	}
	if (!fs.realpath(path, buf, n)) {
		printf("NULL ");
	} else if (strncmp(buf, top, l) != 0) {
		printf("elsewhere ");
	} else {
		io.puts_(buf + l);
	}
	free(buf);
}

void newcase(const char *kind) {
	for (size_t i = 0; i < 10; i++) procs[i] = NULL;
	if (is(kind, "f")) {
		char name[100] = {};
		sprintf(name, "t%d", ncase++);
		OS.mkdir(name, 511);
		OS.chdir(name);
		OS.mkdir("w", 511);
		OS.chdir("w");
	}
	basefds = openfds();
}

void freecase(const char *kind) {
	if (is(kind, "f")) {
		OS.chdir("../..");
	}
}

void dofs(const char *op) {
	if (is(op, "fds")) {
		printf("%d ", openfds() - basefds);
		return;
	}
	char *path = io.str();
	if (path[0] == '/') panic("only paths in the scratch directory");
	if (is(op, "mkdir")) {
		printf("%d ", OS.mkdir(path, 511) == 0);
	} else if (is(op, "link")) {
		char *to = io.str();
		printf("%d ", OS.symlink(to, path) == 0);
		free(to);
	} else if (is(op, "write")) {
		io.bytes_t x = io.bytes();
		printf("%d ", fs.writefile(path, (char *) x.b, x.n));
		free(x.b);
	} else if (is(op, "read")) {
		size_t n = 777;
		char *d = fs.readfile(path, &n);
		if (d) {
			io.put((uint8_t *) d, n);
			free(d);
			d = fs.readfile(path, NULL);
			if (!d) printf("second ");
			free(d);
		} else {
			printf("NULL ");
		}
	} else if (is(op, "readstr")) {
		char *d = fs.readfile_str(path);
		io.puts_(d);
		free(d);
	} else if (is(op, "size")) {
		size_t n = 777;
		if (fs.filesize(path, &n)) {
			printf("%zu ", n);
		} else {
			printf("-1 ");
		}
	} else if (is(op, "exists")) {
		printf("%d ", fs.file_exists(path));
	} else if (is(op, "isdir")) {
		printf("%d ", fs.is_dir(path));
	} else if (is(op, "unlink")) {
		printf("%d ", fs.unlink(path));
	} else if (is(op, "list")) {
		list(path);
	} else if (is(op, "real")) {
		real(path, io.num());
	}
	free(path);
}

void drain(reader.t *r) {
	size_t cap = 1000;
	size_t n = 0;
	uint8_t *all = calloc!(cap, 1);
	while (true) {
		uint8_t part[700] = {};
		int k = reader.read(r, part, 700);
		if (k <= 0) {
			if (k < 0) printf("failed ");
			break;
		}
		if (n + (size_t) k > cap) {
			cap = cap * 2;
			all = realloc(all, cap);
			if (!all) panic("realloc");
		}
		memcpy(all + n, part, (size_t) k);
		n += (size_t) k;
	}
	io.put(all, n);
	free(all);
}

typedef {
	int id;
} job_t;

int work(void *arg) {
	job_t *j = arg;
	char name[100] = {};
	// The log is in order: each entry is one appending write.
	sprintf(name, "+%03d\n", j->id);
	int fd = OS.open("jobs.log", OS.O_WRONLY | OS.O_APPEND);
	if (OS.write(fd, name, 5) != 5) return 1;
	OS.usleep(10000 * (3 + j->id % 3));
	name[0] = '-';
	if (OS.write(fd, name, 5) != 5) return 1;
	return j->id % 3;
}

void jobs(int n) {
	FILE *f = fopen("jobs.log", "wb");
	fclose(f);
	job_t *js = calloc!(n + 1, sizeof(job_t));
	void **list = calloc!(n + 1, sizeof(void *));
	for (int i = 0; i < n; i++) {
		js[i].id = i + 1;
		list[i] = &js[i];
	}
	FILE *note = fopen("jobs.note", "wb");
	fprintf(note, "H");
	proc.parallel(work, list);
	fclose(note);
	size_t size = 0;
	char *log = fs.readfile("jobs.log", &size);
	uint8_t *count = calloc!(1000, 1);
	int running = 0;
	int most = 0;
	for (size_t i = 0; i + 5 <= size; i += 5) {
		int id = atoi(log + i + 1);
		if (log[i] == '+') {
			count[id]++;
			running++;
			if (running > most) most = running;
		} else {
			running--;
		}
	}
	// The identifiers, each as often as it was begun, in order.
	uint8_t *ids = calloc!(10000, 1);
	size_t nids = 0;
	for (int i = 0; i < 1000; i++) {
		for (int k = 0; k < (int) count[i]; k++) ids[nids++] = (uint8_t) i;
	}
	io.put(ids, nids);
	size_t notes = 0;
	fs.filesize("jobs.note", &notes);
	printf("%zu %d %d ", notes, most, running);
	free(log);
	free(count);
	free(ids);
	free(list);
	free(js);
}

void doproc(const char *op) {
	if (is(op, "fds")) {
		printf("%d ", openfds() - basefds);
		return;
	}
	if (is(op, "jobs")) {
		jobs(io.num());
		return;
	}
	int slot = io.num();
	if (is(op, "spawn")) {
		int n = io.num();
		char **argv = calloc!(n + 1, sizeof(char *));
		for (int i = 0; i < n; i++) argv[i] = io.str();
		char **env = calloc!(200, sizeof(char *));
		int m = 0;
		while (io.more()) env[m++] = io.str();
		procs[slot] = proc.spawn(argv, env);
		printf("%d ", procs[slot] != NULL);
		for (int i = 0; i < n; i++) free(argv[i]);
		for (int i = 0; i < m; i++) free(env[i]);
		free(argv);
		free(env);
	} else if (is(op, "feed")) {
		io.bytes_t x = io.bytes();
		size_t at = 0;
		while (at < x.n) {
			int r = writer.write(procs[slot]->stdin, x.b + at, x.n - at);
			if (r <= 0) break;
			at += (size_t) r;
		}
		printf("%zu ", at);
		free(x.b);
	} else if (is(op, "out")) {
		drain(procs[slot]->stdout);
	} else if (is(op, "err")) {
		drain(procs[slot]->stderr);
	} else if (is(op, "wait")) {
		int status = -1;
		writer.free(procs[slot]->stdin);
		printf("%d ", proc.wait(procs[slot], &status));
		printf("%d ", status);
		procs[slot] = NULL;
	}
}

void dostatic(const char *op) {
	char *x = io.str();
	if (is(op, "base")) io.puts_(fs.basename(x));
	else if (is(op, "ext")) io.puts_(fs.fileext(x));
	else if (is(op, "mime")) io.puts_(mime.lookup(x));
	else if (is(op, "dir")) {
		size_t n = (size_t) io.num();
		char *buf = OS.malloc(n);
		if (fs.dirname(x, buf, n)) {
			io.puts_(buf);
		} else {
			printf("NULL ");
		}
		free(buf);
	}
	free(x);
}

int main() {
	while (io.line()) {
		const char *kind = io.word();
		const char *op = io.word();
		if (is(op, "new")) newcase(kind);
		else if (is(op, "free")) freecase(kind);
		else if (is(kind, "f")) dofs(op);
		else if (is(kind, "p")) doproc(op);
		else dostatic(op);
		io.end();
	}
	return 0;
}
