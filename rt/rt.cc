// Deterministic cooperative runtime.
//
// The code under test is compiled with -fsanitize=thread, which makes the compiler call __tsan_* before every
// memory access. Those entry points are implemented here (libtsan is not linked): each is a preemption point of a
// cooperative scheduler that lets exactly one thread run at a time. Threads, mutexes, condition variables, sleeping
// and clocks are interposed, time is virtual, and the whole schedule is a function of a seed.
// Heap blocks come from an arena whose freed blocks are never reused, so accesses to freed memory are reported.
#include "rt.h"
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <sched.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <new>

namespace rt {

void (*on_poll)() = 0;
void (*on_hang)(const char *) = 0;
void (*on_badmem)(const char *, const void *) = 0;
void (*on_free)(void *, size_t) = 0;
void (*on_crash)(int) = 0;

enum { MAXT = 64 };
enum state { RUN, MUTEX, COND, SLEEP, JOIN, DONE };

struct thr {
	int       id;
	int       go;
	state     st;
	int       in;      // preemption disabled
	uint64_t  wake;    // ns, for SLEEP and timed COND
	bool      timed, timedout, signalled;
	void     *obj;
	pthread_t h;
	unsigned  prio;
	uint64_t  until;   // held up until this step
	void     *(*fn)(void *);
	void     *arg, *ret;
	bool      detached;
	uintptr_t slo, shi;
};

struct mtx { pthread_mutex_t *m; int owner; unsigned rec; };

static thr       T[MAXT];
static int       nT;
static bool      on;
static opts      O;
static uint64_t  vns, nstep, nswitch, lastprog, idle, S;
static uint64_t  chg[16]; static unsigned nchg, lowprio;
static mtx       M[4096]; static unsigned nM;
static thread_local thr *me;

static uint64_t rng(uint64_t &s) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1DULL >> 11; }
uint64_t rnd() { return rng(S); }
bool active() { return on; }
int self() { return me ? me->id : -1; }
int nthreads() { return nT; }
uint64_t now_us() { return vns / 1000; }
uint64_t steps() { return nstep; }
uint64_t switches() { return nswitch; }
void progress() { lastprog = nstep; idle = 0; }
quiet::quiet() { if (me) me->in++; }
quiet::~quiet() { if (me) me->in--; }
const char *thread_state(int i)
{
	static const char *n[] = { "run", "mutex", "cond", "sleep", "join", "done" };
	return n[T[i].st];
}

// ---- real functions ----
#define REAL(ret, name, args) static ret (*real_##name) args
REAL(int, pthread_mutex_lock, (pthread_mutex_t *));
REAL(int, pthread_mutex_trylock, (pthread_mutex_t *));
REAL(int, pthread_mutex_unlock, (pthread_mutex_t *));
REAL(int, pthread_cond_wait, (pthread_cond_t *, pthread_mutex_t *));
REAL(int, pthread_cond_timedwait, (pthread_cond_t *, pthread_mutex_t *, const struct timespec *));
REAL(int, pthread_cond_signal, (pthread_cond_t *));
REAL(int, pthread_cond_broadcast, (pthread_cond_t *));
REAL(int, pthread_create, (pthread_t *, const pthread_attr_t *, void *(*)(void *), void *));
REAL(int, pthread_join, (pthread_t, void **));
REAL(int, pthread_detach, (pthread_t));
REAL(int, usleep, (useconds_t));
REAL(int, nanosleep, (const struct timespec *, struct timespec *));
REAL(int, clock_gettime, (clockid_t, struct timespec *));
REAL(int, gettimeofday, (struct timeval *, void *));
REAL(int, sched_yield, (void));

static void init_real()
{
	static bool done;
	if (done) return;
	done = true;
	#define R(n) *(void **) &real_##n = dlsym(RTLD_NEXT, #n)
	R(pthread_mutex_lock); R(pthread_mutex_trylock); R(pthread_mutex_unlock);
	R(pthread_cond_wait); R(pthread_cond_timedwait); R(pthread_cond_signal); R(pthread_cond_broadcast);
	R(pthread_create); R(pthread_join); R(pthread_detach); R(usleep); R(nanosleep); R(clock_gettime);
	R(gettimeofday); R(sched_yield);
}
__attribute__((constructor(101))) static void ctor() { init_real(); }

static void fwait(int *a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void fwake(int *a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

static void hang(const char *why)
{
	if (on_hang) on_hang(why);
	fprintf(stderr, "rt: hang (%s)\n", why);
	_exit(99);
}

static bool runnable(thr &t)
{
	switch (t.st) {
	case RUN:   return true;
	case SLEEP: return t.wake <= vns;
	case COND:  return t.timed && t.wake <= vns;
	default:    return false;
	}
}

// Choose the next thread to run; keep is the current one if it may continue, else -1
static int pick(int keep)
{
	for (;;) {
		int c[MAXT], n = 0;
		bool held = false;
		for (int i = 0; i < nT; i++)
			if (runnable(T[i])) { if (T[i].until > nstep) held = true; else c[n++] = i; }
		if (!n && held) {
			// Only threads that are held up. Let sleepers run before them if they wake up soon
			uint64_t w = ~0ULL;
			for (int i = 0; i < nT; i++)
				if ((T[i].st == SLEEP || (T[i].st == COND && T[i].timed)) && T[i].wake > vns && T[i].wake < w) w = T[i].wake;
			if (w < vns + 20000000ULL) { vns = w; continue; }
			for (int i = 0; i < nT; i++)
				if (runnable(T[i])) { T[i].until = 0; c[n++] = i; }
		}
		if (n) {
			if (O.pct) {
				int b = c[0];
				for (int i = 1; i < n; i++)
					if (T[c[i]].prio > T[b].prio) b = c[i];
				return b;
			}
			return c[rnd() % n];
		}
		// Nobody can run: advance time to the first sleeper
		uint64_t w = ~0ULL;
		for (int i = 0; i < nT; i++)
			if ((T[i].st == SLEEP || (T[i].st == COND && T[i].timed)) && T[i].wake < w) w = T[i].wake;
		if (w == ~0ULL) hang("deadlock");
		if (w > vns) vns = w;
		if (++idle > O.max_idle) hang("no progress");
	}
}

static void wake_up(thr &t)
{
	if (t.st == SLEEP) t.st = RUN;
	if (t.st == COND) { t.timedout = true; t.st = RUN; }
}

static void transfer(int n)
{
	thr *m = me;
	wake_up(T[n]);
	if (n == m->id) return;
	nswitch++;
	__atomic_store_n(&T[n].go, 1, __ATOMIC_SEQ_CST);
	fwake(&T[n].go);
	if (m->st == DONE) return;
	while (!__atomic_load_n(&m->go, __ATOMIC_SEQ_CST)) fwait(&m->go, 0);
	__atomic_store_n(&m->go, 0, __ATOMIC_SEQ_CST);
}

// Current thread cannot continue (its state says why); returns when it was made runnable and chosen
static void suspend() { transfer(pick(-1)); }

static void spurious()
{
	if (!O.spurious || rnd() % O.spurious) return;
	int c[MAXT], n = 0;
	for (int i = 0; i < nT; i++) if (T[i].st == COND) c[n++] = i;
	if (n) { thr &t = T[c[rnd() % n]]; t.signalled = true; t.st = RUN; }
}

enum kind { PLAIN, VOL, SYNC, FORCE };
// Classes of points for stalls
enum cls { ANY = 1, LOCK = 2, TRYLOCK = 4, UNLOCKED = 8, HELD = 16, ACCESS = 32 };

static void step(kind k, unsigned c = ANY)
{
	thr *m = me;
	if (!m || m->in || !on) return;
	m->in++;
	nstep++;
	vns += O.step_ns;
	if (on_poll) on_poll();
	if (nstep - lastprog > O.max_steps) hang("livelock");
	spurious();
	if (O.stall && (O.stall_at & c) && k != PLAIN && rnd() % O.stall == 0) {
		m->until = nstep + 20 + rnd() % O.stall_len;
		transfer(pick(-1));
		m->in--;
		return;
	}
	if (O.pct) {
		for (unsigned i = 0; i < nchg; i++)
			if (chg[i] == nstep) m->prio = --lowprio;
		// A thread that never sleeps would starve the others for ever: demote it now and then
		static int last = -1; static unsigned run;
		if (last != m->id) { last = m->id; run = 0; }
		if (k == FORCE || ++run > 2000) { run = 0; m->prio = --lowprio; }
		transfer(pick(m->id));
	} else {
		unsigned g = k == PLAIN ? O.gap : k == FORCE ? 1 : O.vgap;
		if (g && rnd() % g == 0) transfer(pick(m->id));
	}
	m->in--;
}

void yield() { step(FORCE); }

static void stack_bounds(thr &t)
{
	pthread_attr_t a;
	void *p; size_t n;
	if (pthread_getattr_np(pthread_self(), &a) == 0) {
		pthread_attr_getstack(&a, &p, &n);
		t.slo = (uintptr_t) p; t.shi = t.slo + n;
		pthread_attr_destroy(&a);
	}
}

static void crash(int sig)
{
	if (on_crash) on_crash(sig);
	_exit(98);
}

void begin(const opts &o)
{
	init_real();
	O = o;
	S = o.seed * 0x9E3779B97F4A7C15ULL + 0x1234567;
	for (int i = 0; i < 8; i++) rnd();
	nT = 1; vns = 1000000000ULL * 1000; nstep = nswitch = lastprog = idle = 0; nM = 0;
	memset(&T[0], 0, sizeof(T[0]));
	nchg = O.pct > 16 ? 16 : O.pct;
	lowprio = 1000000;
	for (unsigned i = 0; i < nchg; i++) chg[i] = 1 + rnd() % O.pct_len;
	T[0].st = RUN; T[0].h = pthread_self(); T[0].prio = lowprio + 1 + rnd() % 1000;
	stack_bounds(T[0]);
	me = &T[0];
	static char alt[65536];
	stack_t ss; memset(&ss, 0, sizeof(ss)); ss.ss_sp = alt; ss.ss_size = sizeof(alt);
	sigaltstack(&ss, 0);
	struct sigaction sa; memset(&sa, 0, sizeof(sa));
	sa.sa_handler = crash; sa.sa_flags = SA_ONSTACK | SA_RESETHAND;
	int sigs[] = { SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL };
	for (int s : sigs) sigaction(s, &sa, 0);
	on = true;
}

void end()
{
	if (on_poll && me) on_poll();
	on = false;
	me = 0;
}

// ---- mutexes ----
static mtx *find(pthread_mutex_t *m)
{
	for (unsigned i = 0; i < nM; i++) if (M[i].m == m) return &M[i];
	if (nM == 4096) hang("too many mutexes");
	M[nM].m = m; M[nM].owner = -1; M[nM].rec = 0;
	return &M[nM++];
}

static bool recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

static void mlock(pthread_mutex_t *pm)
{
	mtx *x = find(pm);
	if (x->owner == me->id && recursive(pm)) { x->rec++; return; }
	while (x->owner != -1) {
		me->st = MUTEX; me->obj = pm;
		suspend();
	}
	x->owner = me->id; x->rec = 1;
}

static void munlock(pthread_mutex_t *pm)
{
	mtx *x = find(pm);
	if (x->owner == me->id && --x->rec) return;
	x->owner = -1;
	for (int i = 0; i < nT; i++)
		if (T[i].st == MUTEX && T[i].obj == pm) T[i].st = RUN;
}

static bool managed() { return me && on && !me->in; }

} // namespace rt

using namespace rt;

extern "C" {

int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	static int (*real)(pthread_mutex_t *, const pthread_mutexattr_t *);
	if (!real) *(void **) &real = dlsym(RTLD_NEXT, "pthread_mutex_init");
	if (me && on) { mtx *x = find(m); x->owner = -1; x->rec = 0; }
	return real(m, a);
}

int pthread_mutex_lock(pthread_mutex_t *m)
{
	if (!managed()) { if (me && on) return 0; init_real(); return real_pthread_mutex_lock(m); }
	step(SYNC, LOCK);
	me->in++; mlock(m); me->in--;
	step(SYNC, HELD);
	return 0;
}

int pthread_mutex_trylock(pthread_mutex_t *m)
{
	if (!managed()) { if (me && on) return 0; init_real(); return real_pthread_mutex_trylock(m); }
	step(SYNC, TRYLOCK);
	mtx *x = find(m);
	int r = 0;
	if (x->owner == -1) { x->owner = me->id; x->rec = 1; }
	else if (x->owner == me->id && recursive(m)) x->rec++;
	else r = EBUSY;
	step(SYNC, HELD);
	return r;
}

int pthread_mutex_unlock(pthread_mutex_t *m)
{
	if (!managed()) { if (me && on) return 0; init_real(); return real_pthread_mutex_unlock(m); }
	step(SYNC, HELD);
	munlock(m);
	step(SYNC, UNLOCKED);
	return 0;
}

static int cwait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, uint64_t wake)
{
	step(SYNC);
	me->in++;
	munlock(m);
	me->st = COND; me->obj = c; me->timed = timed; me->wake = wake; me->timedout = me->signalled = false;
	if (on_poll) on_poll();
	suspend();
	bool to = me->timedout;
	mlock(m);
	me->in--;
	step(SYNC);
	return to ? ETIMEDOUT : 0;
}

int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	if (!managed()) { init_real(); return real_pthread_cond_wait(c, m); }
	return cwait(c, m, false, 0);
}

int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
	if (!managed()) { init_real(); return real_pthread_cond_timedwait(c, m, ts); }
	return cwait(c, m, true, (uint64_t) ts->tv_sec * 1000000000ULL + ts->tv_nsec);
}

int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts)
{
	return pthread_cond_timedwait(c, m, ts);
}

static int csignal(pthread_cond_t *c, bool all)
{
	step(SYNC);
	for (;;) {
		int w[MAXT], n = 0;
		for (int i = 0; i < nT; i++) if (T[i].st == COND && T[i].obj == c) w[n++] = i;
		if (!n) break;
		thr &t = T[w[rnd() % n]];
		t.signalled = true; t.st = RUN;
		if (!all) break;
	}
	step(SYNC);
	return 0;
}

int pthread_cond_signal(pthread_cond_t *c)
{
	if (!managed()) { init_real(); return real_pthread_cond_signal(c); }
	return csignal(c, false);
}

int pthread_cond_broadcast(pthread_cond_t *c)
{
	if (!managed()) { init_real(); return real_pthread_cond_broadcast(c); }
	return csignal(c, true);
}

// ---- threads ----
static void *trampoline(void *p)
{
	thr *t = (thr *) p;
	me = t;
	t->in = 1;
	stack_bounds(*t);
	stack_t ss; memset(&ss, 0, sizeof(ss)); ss.ss_sp = mmap(0, 65536, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
	ss.ss_size = 65536; sigaltstack(&ss, 0);
	while (!__atomic_load_n(&t->go, __ATOMIC_SEQ_CST)) fwait(&t->go, 0);
	__atomic_store_n(&t->go, 0, __ATOMIC_SEQ_CST);
	t->in = 0;
	t->ret = t->fn(t->arg);
	t->in++;
	if (on_poll) on_poll();
	t->st = DONE;
	for (int i = 0; i < nT; i++)
		if (T[i].st == JOIN && T[i].obj == t) T[i].st = RUN;
	transfer(pick(-1));
	return t->ret;
}

int pthread_create(pthread_t *h, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
	init_real();
	if (!managed()) return real_pthread_create(h, a, fn, arg);
	step(SYNC);
	me->in++;
	if (nT == MAXT) hang("too many threads");
	thr *t = &T[nT];
	memset(t, 0, sizeof(*t));
	t->id = nT; t->st = RUN; t->fn = fn; t->arg = arg;
	t->prio = 1000001 + rnd() % 1000;
	int r = real_pthread_create(&t->h, a, trampoline, t);
	if (!r) { *h = t->h; nT++; }
	me->in--;
	step(SYNC);
	return r;
}

int pthread_join(pthread_t h, void **ret)
{
	init_real();
	if (!managed()) return real_pthread_join(h, ret);
	step(SYNC);
	thr *t = 0;
	for (int i = 0; i < nT; i++) if (i && pthread_equal(T[i].h, h) && T[i].h) t = &T[i];
	if (!t) return real_pthread_join(h, ret);
	me->in++;
	while (t->st != DONE) { me->st = JOIN; me->obj = t; suspend(); }
	me->in--;
	real_pthread_join(h, 0);
	t->h = 0;
	if (ret) *ret = t->ret;
	step(SYNC);
	return 0;
}

// ---- time ----
static void vsleep(uint64_t ns)
{
	step(SYNC);
	me->in++;
	me->st = SLEEP; me->wake = vns + ns;
	if (on_poll) on_poll();
	suspend();
	me->in--;
	step(SYNC);
}

int usleep(useconds_t us)
{
	if (!managed()) { init_real(); return real_usleep(us); }
	vsleep((uint64_t) us * 1000);
	return 0;
}

int nanosleep(const struct timespec *ts, struct timespec *rem)
{
	if (!managed()) { init_real(); return real_nanosleep(ts, rem); }
	vsleep((uint64_t) ts->tv_sec * 1000000000ULL + ts->tv_nsec);
	return 0;
}

int clock_nanosleep(clockid_t, int flags, const struct timespec *ts, struct timespec *)
{
	uint64_t n = (uint64_t) ts->tv_sec * 1000000000ULL + ts->tv_nsec;
	if (!managed()) { init_real(); return real_nanosleep(ts, 0); }
	if (flags & TIMER_ABSTIME) n = n > vns ? n - vns : 0;
	vsleep(n);
	return 0;
}

int sched_yield(void)
{
	if (!managed()) { init_real(); return real_sched_yield(); }
	step(FORCE);
	return 0;
}

int clock_gettime(clockid_t c, struct timespec *ts)
{
	init_real();
	if (!me || !on) return real_clock_gettime(c, ts);
	ts->tv_sec = vns / 1000000000ULL; ts->tv_nsec = vns % 1000000000ULL;
	step(SYNC);
	return 0;
}

int gettimeofday(struct timeval *tv, void *tz) throw()
{
	init_real();
	if (!me || !on) return real_gettimeofday(tv, tz);
	tv->tv_sec = vns / 1000000000ULL; tv->tv_usec = (vns % 1000000000ULL) / 1000;
	step(SYNC);
	return 0;
}

} // extern "C"

// ---- heap arena ----
namespace rt {

enum { UNALLOC = 0, LIVE = 1, FREED = 2 };
static const size_t ASIZE = 1ULL << 30;
static uint8_t *abase, *ashadow;
static size_t   atop = 64;

struct hdr { uint64_t size, magic; };

static void arena_init()
{
	abase = (uint8_t *) mmap(0, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	ashadow = (uint8_t *) mmap(0, ASIZE >> 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}

static inline bool in_arena(const void *p) { return (size_t) ((uint8_t *) p - abase) < ASIZE && abase; }

static void *aalloc(size_t n, size_t al)
{
	if (!abase) arena_init();
	if (al < 16) al = 16;
	size_t need = ((n + 15) & ~15ULL) + al + 48;
	size_t off = __atomic_fetch_add(&atop, need, __ATOMIC_SEQ_CST);
	if (off + need > ASIZE) return 0;
	uintptr_t p = (uintptr_t) abase + off + 16;
	p = (p + al - 1) & ~(al - 1);
	hdr *h = (hdr *) (p - 16);
	h->size = n; h->magic = 0xA11C0DEA11C0DEULL;
	memset(ashadow + ((p - (uintptr_t) abase) >> 4), LIVE, (n + 15) >> 4);
	return (void *) p;
}

size_t block_size(const void *p)
{
	if (!in_arena(p)) return 0;
	hdr *h = (hdr *) ((uint8_t *) p - 16);
	if (h->magic != 0xA11C0DEA11C0DEULL || ashadow[((uint8_t *) p - abase) >> 4] == FREED) return 0;
	return h->size;
}

static void bad(const char *what, const void *p)
{
	static bool once;
	if (!on || once) return;
	once = true;
	if (on_badmem) on_badmem(what, p);
	else fprintf(stderr, "rt: %s %p\n", what, p);
}

static void afree(void *p)
{
	size_t off = (uint8_t *) p - abase;
	hdr *h = (hdr *) ((uint8_t *) p - 16);
	if (h->magic != 0xA11C0DEA11C0DEULL) { bad("bad free", p); return; }
	if (h->size && ashadow[off >> 4] == FREED) { bad("double free", p); return; }
	if (on_free && on) { quiet q; on_free(p, h->size); }
	memset(ashadow + (off >> 4), FREED, (h->size + 15) >> 4);
}

static inline void check(const void *p, size_t n)
{
	if (!in_arena(p) || !n) return;
	size_t a = ((uint8_t *) p - abase) >> 4, b = ((uint8_t *) p + n - 1 - abase) >> 4;
	if (ashadow[a] != LIVE) bad(ashadow[a] == FREED ? "access to freed memory" : "access outside any block", p);
	else if (ashadow[b] != LIVE) bad("access beyond block", p);
}

static inline void access(const void *p, size_t n, kind k)
{
	thr *m = me;
	if (!m || m->in || !on) return;
	uintptr_t a = (uintptr_t) p;
	if (a - m->slo < m->shi - m->slo) return;
	check(p, n);
	step(k, ACCESS);
}

} // namespace rt

extern "C" {
void *__real_malloc(size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) { return aalloc(n, 16); }
void *__wrap_calloc(size_t a, size_t b) { void *p = aalloc(a * b, 16); if (p) memset(p, 0, a * b); return p; }
void  __wrap_free(void *p) { if (!p) return; if (in_arena(p)) afree(p); else __real_free(p); }
int   __wrap_posix_memalign(void **p, size_t al, size_t n) { *p = aalloc(n, al); return *p ? 0 : ENOMEM; }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *) aalloc(n, 16); if (p) memcpy(p, s, n); return p; }
void *__real_realloc(void *, size_t);
void *__wrap_realloc(void *o, size_t n)
{
	if (o && !in_arena(o)) return __real_realloc(o, n);
	void *p = aalloc(n, 16);
	if (o && p) { size_t s = ((hdr *) ((uint8_t *) o - 16))->size; memcpy(p, o, s < n ? s : n); afree(o); }
	return p;
}
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { access(d, n, PLAIN); access(s, n, PLAIN); return memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { access(d, n, PLAIN); access(s, n, PLAIN); return memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { access(d, n, PLAIN); return memset(d, c, n); }
}

void *operator new(size_t n) { void *p = aalloc(n, 16); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = aalloc(n, 16); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { if (p) { if (in_arena(p)) afree(p); else free(p); } }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

// ---- compiler instrumentation ----
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { access(p, 8, PLAIN); }
void __tsan_vptr_read(void **p) { access(p, 8, PLAIN); }
#define ACC(n) \
	void __tsan_read##n(void *p) { access(p, n, PLAIN); } \
	void __tsan_write##n(void *p) { access(p, n, PLAIN); } \
	void __tsan_unaligned_read##n(void *p) { access(p, n, PLAIN); } \
	void __tsan_unaligned_write##n(void *p) { access(p, n, PLAIN); } \
	void __tsan_volatile_read##n(void *p) { access(p, n, VOL); } \
	void __tsan_volatile_write##n(void *p) { access(p, n, VOL); } \
	void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, VOL); } \
	void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, VOL); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, PLAIN); }
void __tsan_write_range(void *p, size_t n) { access(p, n, PLAIN); }

#define ATOM(b, t) \
	t __tsan_atomic##b##_load(const volatile t *a, int) { access((void *) a, sizeof(t), VOL); return *a; } \
	void __tsan_atomic##b##_store(volatile t *a, t v, int) { access((void *) a, sizeof(t), VOL); *a = v; } \
	t __tsan_atomic##b##_exchange(volatile t *a, t v, int) { access((void *) a, sizeof(t), VOL); t o = *a; *a = v; return o; } \
	t __tsan_atomic##b##_fetch_add(volatile t *a, t v, int) { access((void *) a, sizeof(t), VOL); t o = *a; *a = o + v; return o; } \
	t __tsan_atomic##b##_fetch_sub(volatile t *a, t v, int) { access((void *) a, sizeof(t), VOL); t o = *a; *a = o - v; return o; } \
	t __tsan_atomic##b##_fetch_and(volatile t *a, t v, int) { access((void *) a, sizeof(t), VOL); t o = *a; *a = o & v; return o; } \
	t __tsan_atomic##b##_fetch_or(volatile t *a, t v, int) { access((void *) a, sizeof(t), VOL); t o = *a; *a = o | v; return o; } \
	t __tsan_atomic##b##_fetch_xor(volatile t *a, t v, int) { access((void *) a, sizeof(t), VOL); t o = *a; *a = o ^ v; return o; } \
	t __tsan_atomic##b##_fetch_nand(volatile t *a, t v, int) { access((void *) a, sizeof(t), VOL); t o = *a; *a = ~(o & v); return o; } \
	int __tsan_atomic##b##_compare_exchange_strong(volatile t *a, t *c, t v, int, int) \
	{ access((void *) a, sizeof(t), VOL); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
	int __tsan_atomic##b##_compare_exchange_weak(volatile t *a, t *c, t v, int, int) \
	{ access((void *) a, sizeof(t), VOL); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
	t __tsan_atomic##b##_compare_exchange_val(volatile t *a, t c, t v, int, int) \
	{ access((void *) a, sizeof(t), VOL); t o = *a; if (o == c) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) { step(SYNC); }
void __tsan_atomic_signal_fence(int) {}
}
