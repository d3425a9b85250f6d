// Image of a running engine at a preemption point (spec/Recover.tla): what was accepted until then, what had reached
// the stream behind the output, and what the recovery tool shows of the image.
#include "log.h"
#include "image.h"
#include "tool.h"
#include <pthread.h>
#include <map>
#include <deque>
#include <algorithm>
#include "hogl/engine.hpp"
#include "hogl/area.hpp"
#include "hogl/post.hpp"
#include "hogl/flush.hpp"
#include "hogl/tls.hpp"
#include "hogl/timesource.hpp"
#include "hogl/format-basic.hpp"
#include "hogl/detail/output.hpp"

__HOGL_PRIV_NS_OPEN__
namespace hogl {
ringbuf::options default_ring_options = { 8, 0, ringbuf::SHARED | ringbuf::IMMORTAL, 160 };
}
__HOGL_PRIV_NS_CLOSE__

struct rinfo { hogl::ringbuf *p; std::string name; unsigned size; };
struct post { int r; uint64_t ts; bool special; unsigned sec, area; std::string body; uint64_t seq; };
static std::vector<rinfo> *rings;
static std::deque<post> *posts;
static int cur[32];                // what each thread is posting
static std::string *sunk, *opsj;
static unsigned long long when;    // step at which the image is taken
static uint64_t seed; static bool ready; static unsigned how; static std::string *fields, *fj; static unsigned bits;
static const char *secs[] = { "ONE", "S2", 0 };
static hogl::area *area[2];

static void op(const char *k, int r, int q) { char b[100]; snprintf(b, sizeof(b), "%s{\"k\":\"%s\",\"r\":%d,\"q\":%d}", opsj->empty() ? "" : ",", k, r, q); *opsj += b; }

static void jstr(std::string &o, const char *k, const std::string &s)
{
	o += std::string("\"") + k + "\":[";
	for (size_t i = 0; i < s.size(); i++) { char b[8]; snprintf(b, sizeof(b), "%s%u", i ? "," : "", (unsigned char) s[i]); o += b; }
	o += "]";
}
static std::string bytes8(uint64_t v) { return std::string((char *) &v, 8); }

static void take()
{
	std::vector<uint64_t> ts;
	for (auto &p : *posts) ts.push_back(p.ts);
	std::sort(ts.begin(), ts.end()); ts.erase(std::unique(ts.begin(), ts.end()), ts.end());
	std::string o;
	char b[300];
	snprintf(b, sizeof(b), "{\"sd\":%llu,\"suite\":\"crash\",\"step\":%llu,\"how\":%u,\"all\":0,\"f\":%s,\"caps\":[", (unsigned long long) seed, (unsigned long long) rt::steps(), how, fj->c_str()); o = b;
	for (size_t i = 0; i < rings->size(); i++) { snprintf(b, sizeof(b), "%s%u", i ? "," : "", (*rings)[i].p->capacity()); o += b; }
	o += "],\"ops\":[" + *opsj + "],\"recs\":[";
	for (size_t i = 0; i < posts->size(); i++) {
		post &q = (*posts)[i];
		snprintf(b, sizeof(b), "%s{\"k\":%d,\"sp\":%d,", i ? "," : "", (int) (std::lower_bound(ts.begin(), ts.end(), q.ts) - ts.begin()), q.special); o += b;
		jstr(o, "ts", bytes8(q.ts)); o += ","; jstr(o, "seq", bytes8(q.seq)); o += ",";
		jstr(o, "area", q.special ? "SPECIAL" : q.area == 1 ? "BB" : "AREA"); o += ","; jstr(o, "sect", q.special ? "FLUSH" : secs[q.sec]); o += ","; jstr(o, "body", q.body); o += "}";
	}
	o += "],\"rings\":[";
	for (size_t i = 0; i < rings->size(); i++) { if (i) o += ","; std::string t; jstr(t, "", (*rings)[i].name); o += t.substr(3); }
	o += "],\"bufs\":[],"; jstr(o, "sunk", *sunk);
	image im(how == 0 || how == 3);
	if (how == 3) { hl::prng g(seed); im.split(g, 1 + g(20)); }
	im.write("core");
	int fd = open("line", O_CREAT | O_TRUNC | O_WRONLY, 0644);
	size_t k = 0;
	while (k < o.size()) { ssize_t n = ::write(fd, o.data() + k, o.size() - k); if (n <= 0) break; k += n; }
	_exit(0);
}

static void look()
{
	if (!ready) return;
	int t = rt::self();
	for (size_t i = 0; i < rings->size(); i++) {
		rinfo &r = (*rings)[i];
		unsigned sz = r.p->size();
		// one thread has been running since the last time
		if (sz > r.size) op("push", i + 1, cur[t]);
		while (sz < r.size) { op("pop", i + 1, 0); r.size--; }
		r.size = sz;
	}
}
static void poll() { if (!ready) return; look(); if (rt::steps() >= when) { rt::quiet q; take(); } }

static uint64_t clk; static unsigned tmode;
static hogl::timestamp get_now(const hogl::timesource *)
{
	rt::quiet q;
	if (tmode == 0) clk += 1000; else if (tmode == 1) clk += rt::rnd() % 3 ? 0 : 7; else clk += rt::rnd() % 20 - (rt::rnd() % 4 ? 0 : 10);
	int t = rt::self();
	if (t >= 0 && cur[t] && ready) {
		post &p = (*posts)[cur[t] - 1];
		p.ts = clk; p.seq = (*rings)[p.r - 1].p->seqnum() - 1;
	}
	return hogl::timestamp(clk);
}

static unsigned sink_cap;
class sink : public hogl::ostrbuf {
	void do_flush(const uint8_t *d, size_t n)
	{
		{ rt::quiet q; if (ready) { sunk->append((const char *) _data, _size); if (n) sunk->append((const char *) d, n); } }
		reset();
	}
public: sink(size_t c) : ostrbuf(c) { }
};
class out : public hogl::output { public: out(hogl::format &f) : output(f) { init(new sink(sink_cap)); } };

static int ring_no(hogl::ringbuf *r)
{
	for (size_t i = 0; i < rings->size(); i++) if ((*rings)[i].p == r) return i + 1;
	rings->push_back({ r, r->name(), r->size() });
	return rings->size();
}
static void do_post(hogl::ringbuf *r, unsigned x)
{
	int t = rt::self(), id;
	char b[64]; unsigned a, s;
	{ rt::quiet q; look();
	  posts->push_back({ ring_no(r), 0, false, s = x % 2, a = x / 2 % 2, "", 0 }); id = cur[t] = posts->size();
	  snprintf(b, sizeof(b), "rec %d of %d\n", id, t); posts->back().body = b; }
	if (x & 4) hogl::post(r, area[a], s, "rec %u of %d", id, t);
	else if (x & 8) { snprintf(b, sizeof(b), "rec %d of %d", id, t); hogl::post(r, area[a], s, (const char *) b); }
	else { static char g[4096][24]; snprintf(g[id], 24, "rec %d of %d", id, t); if (r->shared()) hogl::post(r, area[a], s, hogl::arg_gstr(g[id])); else hogl::post_unlocked(r, area[a], s, hogl::arg_gstr(g[id])); }
	{ rt::quiet q; look(); cur[t] = 0; }
}
struct work { std::vector<unsigned> ops; bool own; unsigned cap, flags; hogl::engine *e; int id; };
static void *thread(void *p)
{
	work *w = (work *) p;
	hogl::tls *tl = 0;
	hogl::ringbuf *r = &hogl::default_ring;
	if (w->own) {
		hogl::ringbuf::options o = { w->cap, 100, w->flags, 160 };
		char n[16]; snprintf(n, sizeof(n), "T%d", w->id);
		tl = new hogl::tls(n, o, w->e); r = tl->ring();
	}
	{ rt::quiet q; ring_no(r); }
	for (unsigned x : w->ops) {
		if (x % 16 == 15) {
			int t = rt::self();
			{ rt::quiet q; look(); posts->push_back({ ring_no(r), 0, true, 0, 0, "\n", 0 }); cur[t] = posts->size(); }
			hogl::flush(r, 200);
			{ rt::quiet q; look(); cur[t] = 0; }
		} else if (x % 16 == 14) usleep(x % 1000);
		else do_post(r, x);
	}
	(void) tl;  // the ring stays
	return 0;
}

static const char *fname[] = { "timespec", "timestamp", "timedelta", "ring", "seqnum", "area", "section" };
static void run(uint64_t sd)
{
	seed = sd;
	hl::prng g(sd);
	setenv("TZ", "UTC0", 1); tzset();
	posts = new std::deque<post>; rings = new std::vector<rinfo>; sunk = new std::string; opsj = new std::string;
	static const uint32_t nice[] = { 0x7a, 0x79, 0x7c, 0x78, 0x68 };
	bits = nice[g(5)]; how = g(4);
	fields = new std::string; fj = new std::string("[");
	for (int i = 0; i < 7; i++) if (bits >> i & 1) { if (fields->size()) { *fields += ","; *fj += ","; } *fields += fname[i]; *fj += std::string("\"") + fname[i] + "\""; }
	*fj += "]";
	tmode = g(3); clk = 1000000000 + g(1000000);
	sink_cap = g.of({0u, 64u, 256u, 1024u, 4096u});
	when = g.chance(60) ? 100 + g(6000) : 100 + g(g.of({1000u, 20000u, 60000u}));
	hogl::timesource *src = new hogl::timesource("src", get_now);
	hogl::default_ring.timesource(src);
	area[0] = new hogl::area("AREA", secs); area[1] = new hogl::area("BB", secs); area[0]->set(); area[1]->set();
	hogl::format_basic *f = new hogl::format_basic(fields->c_str());
	out *o = new out(*f);
	hogl::engine::options eo = hogl::engine::default_options;
	eo.polling_interval_usec = g.of({20u, 200u, 2000u, 100000u});
	eo.tso_buffer_capacity = g.of({2u, 8u, 64u, 2048u});
	eo.timesource = src;
	if (g.chance(20)) eo.features = hogl::engine::DISABLE_TSO;
	rt::opts so = hl::schedule(g, sd);
	rt::on_poll = poll;
	rt::begin(so);
	hogl::engine *e = new hogl::engine(*o, eo);
	unsigned n = g.range(1, 3);
	std::vector<work *> ws; std::vector<pthread_t> ts(n);
	for (unsigned i = 0; i < n; i++) {
		work *w = new work; w->own = g.chance(70); w->cap = g.of({4u, 8u, 16u}); w->flags = g.of({0u, 0u, (unsigned) hogl::ringbuf::SHARED, (unsigned) hogl::ringbuf::BLOCKING, (unsigned) hogl::ringbuf::REUSABLE}); w->e = e; w->id = i;
		for (unsigned k = g.range(2, 25); k; k--) w->ops.push_back(g.chance(10) ? 15 : g.chance(10) ? g(200) * 16 + 14 : g(14));
		ws.push_back(w);
	}
	{ rt::quiet q; ring_no(&hogl::default_ring); ready = true; when += rt::steps(); }
	for (unsigned i = 0; i < n; i++) pthread_create(&ts[i], 0, thread, ws[i]);
	for (unsigned i = 0; i < n; i++) pthread_join(ts[i], 0);
	rt::quiet q; look(); take();
}

int main(int argc, char **argv)
{
	uint64_t from = strtoull(argv[3], 0, 10), to = strtoull(argv[4], 0, 10);
	static char me[4096]; if (readlink("/proc/self/exe", me, 4095) < 0) return 1;
	self = me; tool = argv[5];
	for (uint64_t s = from; s < to; s++) {
		unlink("line"); unlink("core");
		hl::run_all("died", s, s + 1, run);
		std::string l = slurp("line");
		if (l.empty()) {       // crashed or hanging before the image
			l = slurp("died"); unlink("died");
			char b[200]; snprintf(b, sizeof(b), "{\"sd\":%llu,\"died\":1,\"why\":\"no image\"}\n", (unsigned long long) s); l = b;
		} else {
			std::vector<std::string> av;
			size_t p = l.find("\"f\":["), e = l.find("]", p); std::string fl;
			for (size_t i = p + 5; i < e; i++) if (l[i] != '"') fl += l[i];
			av.push_back("-f"); av.push_back(fl); av.push_back("core");
			if (l.find("\"how\":2") != std::string::npos) av.push_back(self);
			std::string pre, rec; int rc = recovered(av, false, pre, rec);
			char b[40]; snprintf(b, sizeof(b), ",\"rc\":%d,", rc); l += b;
			jstr(l, "pre", pre); l += ","; jstr(l, "out", rec); l += "}\n";
		}
		if (!getenv("KEEP")) unlink("core");
		int fd = open(argv[1], O_WRONLY | O_CREAT | O_APPEND, 0644);
		if (write(fd, l.data(), l.size()) < 0) return 1;
		close(fd);
	}
	return 0;
}
