// Event log shared by the scheduled drivers: one JSON line per execution.
#pragma once
#include "../rt/rt.h"
#include "prng.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <string>

namespace hl {

static char     buf[8 << 20];
static size_t   len;
static int      out_fd = -1;
static bool     first = true, done = false;
static unsigned nev;
enum { RUNAWAY = 16000 };   // no execution that ends has so many events
static void hang(const char *why);

__attribute__((no_sanitize("thread"), format(printf, 1, 2)))
static void raw(const char *f, ...)
{
	if (len + 4096 > sizeof(buf)) return;
	va_list ap; va_start(ap, f);
	len += vsnprintf(buf + len, sizeof(buf) - len, f, ap);
	va_end(ap);
}

// Log one event; prog: counts as progress for hang detection
__attribute__((no_sanitize("thread"), format(printf, 2, 3)))
static void ev(bool prog, const char *f, ...)
{
	if (done) return;
	rt::quiet q;
	// Changes made since the last preemption point come first
	static bool polling;
	if (rt::on_poll && rt::active() && rt::self() >= 0 && !polling) { polling = true; rt::on_poll(); polling = false; }
	if (len + 4096 > sizeof(buf)) return;
	if (!first) buf[len++] = ',';
	first = false;
	nev++;
	va_list ap; va_start(ap, f);
	len += vsnprintf(buf + len, sizeof(buf) - len, f, ap);
	va_end(ap);
	if (nev == RUNAWAY) hang("runaway");
	if (prog) rt::progress();
}

__attribute__((no_sanitize("thread")))
static void finish()
{
	if (done) return;
	done = true;
	raw("],\"steps\":%llu,\"sw\":%llu}\n", (unsigned long long) rt::steps(), (unsigned long long) rt::switches());
	size_t o = 0;
	while (o < len) { ssize_t n = ::write(out_fd, buf + o, len - o); if (n <= 0) break; o += n; }
}

__attribute__((no_sanitize("thread")))
static void hang(const char *why)
{
	ev(false, "{\"e\":\"hang\",\"why\":\"%s\",\"st\":[", why);
	for (int i = 0; i < rt::nthreads(); i++) raw("%s\"%s\"", i ? "," : "", rt::thread_state(i));
	raw("]}");
	finish();
	_exit(0);
}

__attribute__((no_sanitize("thread")))
static void crash(int sig)
{
	ev(false, "{\"e\":\"crash\",\"sig\":%d,\"t\":%d}", sig, rt::self());
	finish();
	_exit(0);
}

__attribute__((no_sanitize("thread")))
static void badmem(const char *what, const void *)
{
	ev(false, "{\"e\":\"mem\",\"what\":\"%s\",\"t\":%d}", what, rt::self());
}

// Run fn(seed) for each seed in a child process, appending one line per execution to path
template <typename F> static int run_all(const char *path, uint64_t from, uint64_t to, F fn)
{
	for (uint64_t s = from; s < to; s++) {
		pid_t p = fork();
		if (!p) {
			out_fd = open(path, O_WRONLY | O_CREAT | O_APPEND, 0644);
			alarm(60);
			rt::on_hang = hang; rt::on_crash = crash; rt::on_badmem = badmem;
			fn(s);
			finish();
			_exit(0);
		}
		int st; waitpid(p, &st, 0);
		if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
			int fd = open(path, O_WRONLY | O_CREAT | O_APPEND, 0644);
			char b[256];
			int n = snprintf(b, sizeof(b), "{\"sd\":%llu,\"died\":%d,\"ev\":[{\"e\":\"crash\",\"sig\":%d,\"t\":-1}]}\n", (unsigned long long) s, st, WIFSIGNALED(st) ? WTERMSIG(st) : 0);
			if (write(fd, b, n) < 0) {}
			close(fd);
		}
	}
	return 0;
}

// Random scheduling parameters
static inline rt::opts schedule(prng &g, uint64_t seed)
{
	rt::opts o;
	o.seed = seed * 2654435761u + 99;
	switch (g(6)) {
	case 0: o.pct = g.range(1, 4); o.pct_len = g.of({300u, 2000u, 8000u}); break;
	case 1: o.gap = 0; o.vgap = 2; break;
	case 2: o.gap = 3; o.vgap = 2; break;
	case 3: o.gap = 200; o.vgap = 30; break;
	case 4: o.gap = 30; o.vgap = 5; break;
	case 5: o.gap = 8; o.vgap = 8; break;
	}
	o.step_ns = g.of({200u, 1000u, 5000u, 20000u});
	o.spurious = g.chance(20) ? 400 : 0;
	// One of three executions holds threads up at synchronisation points (windows between a check and what follows)
	uint64_t h = (seed + 77) * 0x9E3779B97F4A7C15ULL;
	h ^= h >> 31;
	if (h % 3 == 0) {
		static const struct { unsigned at, p[3]; } S[] = {
			{ 31, { 15, 40, 100 } }, { 2 | 4, { 3, 10, 30 } }, { 4, { 2, 4, 8 } }, { 8, { 4, 10, 30 } }, { 16, { 8, 20, 60 } }, { 32, { 60, 200, 600 } } };
		o.stall_at = S[h / 3 % 6].at;
		o.stall = S[h / 3 % 6].p[h / 18 % 3];
		o.stall_len = h / 54 % 3 == 0 ? 200 : h / 54 % 3 == 1 ? 1000 : 5000;
	}
	return o;
}

} // namespace hl
