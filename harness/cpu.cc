// CPU affinity strings (spec/CpuSet.tla): validation, and the sets the threads pass to the system.
#include "seq.h"
#include <pthread.h>
#include <sched.h>
#include <errno.h>
#include <sys/syscall.h>
#include <mutex>
#include "hogl/engine.hpp"
#include "hogl/output-file.hpp"
#include "hogl/output-plainfile.hpp"
#include "hogl/format-basic.hpp"
#include "hogl/detail/schedparam.hpp"
#include "hogl/c-api/format.h"
#include "hogl/c-api/output.h"
#include "hogl/c-api/engine.h"

struct call { std::vector<int> set; int rc; };
static std::vector<call> calls; static std::vector<int> scheds; static int spol, sprio, others;
static std::mutex mx; static int machine, deny; static pid_t main_tid;
static pid_t tid() { return syscall(SYS_gettid); }

static int affinity(size_t n, const cpu_set_t *s)
{
	std::lock_guard<std::mutex> l(mx);
	call c; bool some = false;
	for (size_t i = 0; i < n * 8; i++) if (((const unsigned char *) s)[i / 8] >> (i % 8) & 1) { c.set.push_back(i); some |= (int) i < machine; }
	c.rc = some ? 0 : EINVAL;
	if (tid() == main_tid) others++;
	calls.push_back(c);
	return c.rc;
}
extern "C" {
int __wrap_pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *s) { if (!pthread_equal(t, pthread_self())) others++; return affinity(n, s); }
int __wrap_sched_setaffinity(pid_t p, size_t n, const cpu_set_t *s) { if (p && p != tid()) others++; int r = affinity(n, s); if (r) { errno = r; return -1; } return 0; }
int __wrap_pthread_setschedparam(pthread_t t, int pol, const struct sched_param *p)
{
	std::lock_guard<std::mutex> l(mx);
	if (!pthread_equal(t, pthread_self()) || tid() == main_tid) others++;
	spol = pol; sprio = p->sched_priority; scheds.push_back(deny);
	return deny;
}
}

static std::string number(hl::prng &g, uint64_t v)
{
	char b[64]; static const char *f[] = { "0x%llx", "%llu", "0%llo", "0X%llX", "0x00%llx" };
	snprintf(b, sizeof(b), f[g(5)], (unsigned long long) v);
	return b;
}
static std::string item(hl::prng &g)
{
	char b[64]; unsigned k = g(100);
	unsigned a = g.of({8u, 64u, 256u}), x = g(a), y = g(a); if (x > y && g(20)) std::swap(x, y);
	if (k < 45) snprintf(b, sizeof(b), g(10) ? "%u" : "%03u", x);
	else if (k < 88) snprintf(b, sizeof(b), "%u-%u", x, y);
	else if (k < 92) snprintf(b, sizeof(b), "%u", g.of({255u, 256u, 257u, 1023u, 12345u}));
	else if (k < 94) snprintf(b, sizeof(b), "%llu", (unsigned long long) g.of({0x100000000ull, 0x100000001ull, 0xffffffffull, 0xffffffffffffffffull, 0x10000000000ull}) + g(8));
	else if (k < 96) snprintf(b, sizeof(b), "%u-%llu", x, (unsigned long long) g.of({0x100000000ull, 0x200000000ull}) + g(200));
	else if (k < 97) snprintf(b, sizeof(b), "1844674407370955161%u", (unsigned) g(10));
	else if (k < 98) snprintf(b, sizeof(b), "%llu-%llu", 0x100000000ull + x, 0x100000000ull + y);
	else snprintf(b, sizeof(b), "%u-", x);
	return b;
}
static std::string word(hl::prng &g)
{
	std::string s; unsigned k = g(100);
	if (k < 3) return s;
	if (k < 45) { s = "list:"; for (unsigned n = g.of({1u, 1u, 2u, 3u, 6u}); n; n--) s += item(g) + (n > 1 || g.chance(3) ? "," : ""); }
	else if (k < 85) {
		if (g(2)) s = "mask:";
		uint64_t v = g.next();
		switch (g(6)) { case 0: v = 1ull << g(64); break; case 1: v &= v >> 7 & v << 11; break; case 2: v = ~0ull >> g(64); break; case 3: v &= 0xff; break; case 4: v = 1ull << g(64) | 1ull << g(64); break; }
		s += number(g, v);
		if (g.chance(4)) s += g.of({"0", "00000000", "ffffffffffffffff", "x", " ", "u"});
		if (g.chance(2)) s = "mask:";
	} else {
		s = g.of({"", "list:", "mask:", "lis", "list", "LIST:", "mask", "list:0x"});
		static const char al[] = "0123456789,-:xXabf \t.+L"; for (unsigned n = g(7); n; n--) s += al[g(sizeof(al) - 1)];
	}
	if (g.chance(8) && s.size()) { // damage
		static const char al[] = "019,-:x a;"; unsigned p = g(s.size());
		switch (g(3)) { case 0: s[p] = al[g(10)]; break; case 1: s.erase(p, 1); break; case 2: s.insert(p, 1, al[g(10)]); }
	}
	return s;
}
// every string of a small alphabet
static std::string small(uint64_t n, const char *pre, const char *al)
{
	unsigned k = strlen(al); std::string s;
	while (n) { n--; s += al[n % k]; n /= k; }
	return pre + s;
}
static void *enter(void *p) { bool r = ((hogl::schedparam *) p)->thread_enter("harness"); return (void *) (long) r; }

static void one(const char *suite, uint64_t seed, hl::text &o)
{
	hl::prng g(seed);
	main_tid = tid();
	if (!freopen("/dev/null", "w", stderr)) return;
	o.f("{\"sd\":%llu,\"suite\":\"%s\",\"cases\":[", (unsigned long long) seed, suite);
	unsigned n = suite[0] == 's' ? 24 : 8;
	for (unsigned i = 0; i < n; i++) {
		std::string s; unsigned how = 0;
		if (suite[0] == 's') { uint64_t x = seed * n + i; s = x % 2 ? small(x / 2, "list:", "012,-9") : small(x / 2, "", "017fx"); }
		else { s = word(g); how = g(3) ? 0 : g(5); }
		machine = g.of({1, 8, 64, 256, 1024}); deny = g.chance(15) ? EPERM : 0;
		int pol = g.of({SCHED_OTHER, SCHED_FIFO, SCHED_RR, SCHED_BATCH}), pri = g(100);
		calls.clear(); scheds.clear(); spol = pol; sprio = pri; others = 0;
		hogl::schedparam *sp = new hogl::schedparam(pol, pri, 0, s);
		int v = sp->validate(), ok = -1;
		if (how == 0) { pthread_t t; void *r = 0; pthread_create(&t, 0, enter, sp); pthread_join(t, &r); ok = (long) r; }
		else if (how == 1) {
			hogl::format_basic f("raw"); hogl::output_plainfile out("/dev/null", f);
			hogl::engine::options eo = hogl::engine::default_options; eo.schedparam = sp; eo.polling_interval_usec = 100;
			hogl::engine *e = new hogl::engine(out, eo); delete e;
		} else if (how == 2) {
			hogl::format_basic f("raw");
			hogl::output_file::options oo = hogl::output_file::default_options; oo.schedparam = sp;
			hogl::output_file *out = new hogl::output_file("log.#", f, oo); delete out;
		} else if (how == 3) {
			hogl_format_t f = hogl_new_format_basic("raw"); hogl_output_t out = hogl_new_output_plainfile("/dev/null", f);
			struct hogl_engine_options eo; memset(&eo, 0, sizeof(eo)); eo.polling_interval_usec = 100; eo.tso_buffer_capacity = 64;
			eo.schedparam.policy = pol; eo.schedparam.priority = pri; eo.schedparam.cpu_affinity = s.empty() && g(2) ? 0 : (char *) s.c_str();
			hogl_activate(out, &eo); hogl_deactivate(); hogl_delete_output(out); hogl_delete_format(f);
		} else {
			hogl_format_t f = hogl_new_format_basic("raw");
			struct hogl_output_options oo; memset(&oo, 0, sizeof(oo)); oo.perms = 0644; oo.max_size = 100000; oo.max_count = 4; oo.buffer_capacity = 4096;
			oo.schedparam.policy = pol; oo.schedparam.priority = pri; oo.schedparam.cpu_affinity = s.empty() && g(2) ? 0 : (char *) s.c_str();
			hogl_output_t out = hogl_new_output_file("log.#", f, &oo); hogl_delete_output(out); hogl_delete_format(f);
		}
		delete sp;
		o.f("%s{\"s\":", i ? "," : "").bytes(s.data(), s.size());
		o.f(",\"how\":%u,\"v\":%d,\"ok\":%d,\"mach\":%d,\"pol\":[%d,%d,%d,%d],\"other\":%d,\"calls\":[", how, v, ok, machine, pol, pri, spol, sprio, others);
		for (size_t j = 0; j < calls.size(); j++) {
			o.f("%s{\"rc\":%d,\"set\":[", j ? "," : "", calls[j].rc);
			for (size_t k = 0; k < calls[j].set.size(); k++) o.f("%s%d", k ? "," : "", calls[j].set[k]);
			o += "]}";
		}
		o += "],\"sched\":[";
		for (size_t j = 0; j < scheds.size(); j++) o.f("%s%d", j ? "," : "", scheds[j]);
		o += "]}";
	}
	o += "]}";
}
int main(int argc, char **argv) { return hl::seq_main(argc, argv, one); }
