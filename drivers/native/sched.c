/* A deterministic thread scheduler linked into a program under test.  One
   thread runs at a time; it may be replaced at every pthread call and before
   every memory access (the program is compiled with -fsanitize=thread, whose
   callbacks are the ones below; the sanitizer's runtime is not linked).

   SCHED_SEED   seed of the random choices (0: never switch unless forced)
   SCHED_MEM    1/probability of a switch at a memory access
   SCHED_SYNC   1/probability of a switch at a pthread call
   SCHED_SPUR   1/probability of a spurious wake-up (0: none)
   SCHED_PRE    "step:k,step:k,...": switch to the k-th ready thread at this step

   When no thread can run, the blocked ones are printed as "Q id id ..." and
   the process ends with status 0.                                           */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdint.h>

enum { READY, ONMUTEX, ONCOND, ONJOIN, DONE };
enum { MAXT = 64, MAXM = 256 };
typedef struct {
	int state;
	void *obj, *mtx;
	pthread_t real;
	pthread_cond_t wake;
	void *(*f)(void *);
	void *arg;
} thr_t;
static thr_t T[MAXT];
static int nt = 0, cur = 0, started = 0;
static __thread int me = 0;
static struct { void *m; int owner; } M[MAXM];
static int nm = 0;
static pthread_mutex_t G = PTHREAD_MUTEX_INITIALIZER;
static uint64_t rng = 0;
static int seeded = 0, pmem = 0, psync = 0, pspur = 0;
static long step = 0;
static struct { long step; int k; } pre[64];
static int npre = 0;

static int (*r_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*r_join)(pthread_t, void **);
static int (*r_lock)(pthread_mutex_t *);
static int (*r_unlock)(pthread_mutex_t *);
static int (*r_cwait)(pthread_cond_t *, pthread_mutex_t *);
static int (*r_csig)(pthread_cond_t *);

static int num(const char *n) { const char *s = getenv(n); return s ? atoi(s) : 0; }
static void setup(void) {
	if (started) return;
	started = 1;
	r_create = dlsym(RTLD_NEXT, "pthread_create");
	r_join = dlsym(RTLD_NEXT, "pthread_join");
	r_lock = dlsym(RTLD_NEXT, "pthread_mutex_lock");
	r_unlock = dlsym(RTLD_NEXT, "pthread_mutex_unlock");
	r_cwait = dlsym(RTLD_NEXT, "pthread_cond_wait");
	r_csig = dlsym(RTLD_NEXT, "pthread_cond_signal");
	seeded = num("SCHED_SEED");
	rng = 88172645463325252ull ^ ((uint64_t) seeded * 0x9E3779B97F4A7C15ull);
	pmem = num("SCHED_MEM");
	psync = num("SCHED_SYNC");
	pspur = num("SCHED_SPUR");
	const char *s = getenv("SCHED_PRE");
	while (s && *s && npre < 64) {
		pre[npre].step = strtol(s, (char **) &s, 10);
		if (*s == ':') s++;
		pre[npre++].k = (int) strtol(s, (char **) &s, 10);
		if (*s == ',') s++;
	}
	nt = 1;
	T[0].state = READY;
	pthread_cond_init(&T[0].wake, NULL);
}
static uint64_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng >> 11; }
static int chance(int p) { return p > 0 && seeded && rnd() % p == 0; }

static void quiet(void) {
	char b[512];
	int n = snprintf(b, sizeof(b), "Q");
	for (int i = 0; i < nt; i++) if (T[i].state != DONE) n += snprintf(b + n, sizeof(b) - n, " %d", i);
	n += snprintf(b + n, sizeof(b) - n, "\n");
	if (write(1, b, n) < 0) {}
	_exit(0);
}
/* G is held; hands the processor to the given thread and waits to get it back */
static void give(int t) {
	if (t == me) return;
	cur = t;
	r_csig(&T[t].wake);
	while (cur != me) r_cwait(&T[me].wake, &G);
}
static int ready(int *list) {
	int n = 0;
	for (int d = 0; d < nt; d++) {
		int i = (me + d) % nt;
		if (T[i].state == READY) list[n++] = i;
	}
	return n;
}
/* G is held; some other thread must run */
static void blocked(void) {
	while (T[me].state != READY) {
		int l[MAXT], n = ready(l);
		if (n == 0) quiet();
		give(l[seeded ? rnd() % n : 0]);
	}
}
static void maybe(int p) {
	step++;
	if (step > 2000000) _exit(98);
	int l[MAXT], n = ready(l);
	for (int i = 0; i < npre; i++) {
		if (pre[i].step == step && n > 1) {
			give(l[1 + pre[i].k % (n - 1)]);
			return;
		}
	}
	if (pspur && chance(pspur)) {
		for (int i = 0; i < nt; i++) if (T[i].state == ONCOND) { T[i].state = READY; break; }
	}
	if (chance(p)) give(l[rnd() % n]);
}
static int mtx(void *m) {
	for (int i = 0; i < nm; i++) if (M[i].m == m) return i;
	if (nm == MAXM) _exit(97);
	M[nm].m = m;
	M[nm].owner = -1;
	return nm++;
}
static void take(void *m) {
	int i = mtx(m);
	while (M[i].owner >= 0) {
		T[me].state = ONMUTEX;
		T[me].obj = m;
		blocked();
	}
	M[i].owner = me;
}
static void drop(void *m) {
	int i = mtx(m);
	M[i].owner = -1;
	for (int t = 0; t < nt; t++) if (T[t].state == ONMUTEX && T[t].obj == m) T[t].state = READY;
}
#define IN setup(); r_lock(&G)
#define OUT r_unlock(&G)

static void *tramp(void *p) {
	me = (int) (intptr_t) p;
	r_lock(&G);
	while (cur != me) r_cwait(&T[me].wake, &G);
	OUT;
	void *r = T[me].f(T[me].arg);
	r_lock(&G);
	T[me].state = DONE;
	for (int t = 0; t < nt; t++) if (T[t].state == ONJOIN && T[t].obj == &T[me]) T[t].state = READY;
	int l[MAXT], n = ready(l);
	if (n == 0) quiet();
	cur = l[seeded ? rnd() % n : 0];
	r_csig(&T[cur].wake);
	OUT;
	return r;
}
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
	IN;
	if (nt == MAXT) _exit(97);
	int id = nt++;
	T[id].f = f;
	T[id].arg = arg;
	T[id].state = READY;
	pthread_cond_init(&T[id].wake, NULL);
	int r = r_create(&T[id].real, a, tramp, (void *) (intptr_t) id);
	*t = T[id].real;
	maybe(psync);
	OUT;
	return r;
}
int pthread_join(pthread_t t, void **res) {
	IN;
	maybe(psync);
	int id = -1;
	for (int i = 1; i < nt; i++) if (T[i].real == t) id = i;
	while (id >= 0 && T[id].state != DONE) {
		T[me].state = ONJOIN;
		T[me].obj = &T[id];
		blocked();
	}
	OUT;
	return r_join(t, res);
}
int pthread_mutex_lock(pthread_mutex_t *m) { IN; maybe(psync); take(m); OUT; return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) {
	IN;
	maybe(psync);
	int i = mtx(m), r = 16;
	if (M[i].owner < 0) { M[i].owner = me; r = 0; }
	OUT;
	return r;
}
int pthread_mutex_unlock(pthread_mutex_t *m) { IN; drop(m); maybe(psync); OUT; return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
	IN;
	maybe(psync);
	drop(m);
	T[me].state = ONCOND;
	T[me].obj = c;
	blocked();
	take(m);
	OUT;
	return 0;
}
static void wake(void *c, int all) {
	int l[MAXT], n = 0;
	for (int t = 0; t < nt; t++) if (T[t].state == ONCOND && T[t].obj == c) l[n++] = t;
	if (n == 0) return;
	if (all) { for (int i = 0; i < n; i++) T[l[i]].state = READY; return; }
	T[l[seeded ? rnd() % n : 0]].state = READY;
}
int pthread_cond_signal(pthread_cond_t *c) { IN; maybe(psync); wake(c, 0); OUT; return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { IN; maybe(psync); wake(c, 1); OUT; return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { IN; for (int i = 0; i < nm; i++) if (M[i].m == m) M[i].m = NULL; OUT; return 0; }
int pthread_cond_destroy(pthread_cond_t *c) { (void) c; return 0; }

static void mem(void) {
	if (!started || nt < 2) return;
	r_lock(&G);
	maybe(pmem);
	OUT;
}
void sched_steps(void) { fprintf(stderr, "STEPS %ld\n", step); }
__attribute__((destructor)) static void fini(void) { if (getenv("SCHED_COUNT")) sched_steps(); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void) p; }
void __tsan_func_exit(void) {}
#define A(n) void __tsan_read##n(void *p) { (void) p; mem(); } void __tsan_write##n(void *p) { (void) p; mem(); } \
	void __tsan_unaligned_read##n(void *p) { (void) p; mem(); } void __tsan_unaligned_write##n(void *p) { (void) p; mem(); } \
	void __tsan_volatile_read##n(void *p) { (void) p; mem(); } void __tsan_volatile_write##n(void *p) { (void) p; mem(); }
A(1) A(2) A(4) A(8) A(16)
void __tsan_read_range(void *p, long n) { (void) p; (void) n; mem(); }
void __tsan_write_range(void *p, long n) { (void) p; (void) n; mem(); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { mem(); return memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { mem(); return memset(d, c, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { mem(); return memmove(d, s, n); }
