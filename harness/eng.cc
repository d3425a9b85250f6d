// Scheduled driver for the engine, rings, thread rings and time sources.
// Uses the public API only; prints one trace (JSON line) per execution.
#include "log.h"
#include <vector>
#include <map>
#include <pthread.h>

#include "hogl/engine.hpp"
#include "hogl/area.hpp"
#include "hogl/mask.hpp"
#include "hogl/post.hpp"
#include "hogl/flush.hpp"
#include "hogl/ring.hpp"
#include "hogl/tls.hpp"
#include "hogl/timesource.hpp"
#include "hogl/detail/internal.hpp"
#include "hogl/detail/output.hpp"
#include "hogl/detail/format.hpp"

using hl::ev;

// Small default ring so that it overflows (documented as overridable by the application)
__HOGL_PRIV_NS_OPEN__
namespace hogl {
ringbuf::options default_ring_options = { 8, 0, ringbuf::SHARED | ringbuf::IMMORTAL, 80 };
}
__HOGL_PRIV_NS_CLOSE__

enum { NSEC = 4 };
static const char *sections[] = { "S0", "S1", "S2", "S3", 0 };

// ---------------------------------------------------------------- state projection
struct rinfo {
	hogl::ringbuf *p;
	std::string name;
	bool     freed;
	unsigned size;
	uint64_t seq, drop;
};
static std::vector<rinfo> *rings;
static hogl::engine *eng;       // polled for passes
static unsigned long loops;
static unsigned idle_pass;
static const char *suite;

static int rid_of(hogl::ringbuf *p)
{
	rt::quiet q;
	for (size_t i = rings->size(); i-- > 0;)
		if ((*rings)[i].p == p && !(*rings)[i].freed) return i + 1;
	return 0;
}

static int rid_named(const char *n)
{
	for (size_t i = rings->size(); i-- > 0;)
		if (!(*rings)[i].freed && (*rings)[i].name == n) return i + 1;
	for (size_t i = rings->size(); i-- > 0;)
		if ((*rings)[i].name == n) return i + 1;
	return 0;
}

static unsigned csize(hogl::ringbuf *r) { return r->size(); }

static void poll()
{
	if (!rings) return;
	for (size_t i = 0; i < rings->size(); i++) {
		rinfo &r = (*rings)[i];
		if (r.freed) continue;
		unsigned sz = csize(r.p);
		uint64_t q = r.p->seqnum(), d = r.p->dropcnt();
		if (sz == r.size && q == r.seq && d == r.drop) continue;
		int dq = (int) (int64_t) (q - r.seq), dd = (int) (int64_t) (d - r.drop), dc = (int) sz - (int) r.size;
		r.size = sz; r.seq = q; r.drop = d;
		idle_pass = 0;
		ev(true, "{\"e\":\"st\",\"t\":%d,\"r\":%d,\"dq\":%d,\"dd\":%d,\"dc\":%d}", rt::self() + 1, (int) i + 1, dq, dd, dc);
	}
	if (eng) {
		unsigned long l = eng->get_stats().loops;
		if (l != loops) {
			loops = l;
			if (idle_pass++ < 4) ev(false, "{\"e\":\"pass\"}");
		}
	}
}

static void on_free(void *p, size_t)
{
	if (!rings) return;
	for (size_t i = 0; i < rings->size(); i++) {
		rinfo &r = (*rings)[i];
		if (!r.freed && (void *) r.p == p) {
			r.freed = true;
			idle_pass = 0;
			ev(true, "{\"e\":\"free\",\"t\":%d,\"r\":%d}", rt::self() + 1, (int) i + 1);
		}
	}
}

static int discover(hogl::ringbuf *p)
{
	rt::quiet q;
	if (!p) return 0;
	int r = rid_of(p);
	if (r) return r;
	rinfo x = { p, p->name(), false, csize(p), p->seqnum(), p->dropcnt() };
	rings->push_back(x);
	ev(true, "{\"e\":\"ring\",\"r\":%d,\"name\":\"%s\",\"cap\":%u,\"blk\":%s,\"shr\":%s,\"reu\":%s,\"imm\":%s,\"size\":%u}", (int) rings->size(),
		p->name(), p->capacity(), p->blocking() ? "true" : "false", p->shared() ? "true" : "false", p->reusable() ? "true" : "false",
		p->immortal() ? "true" : "false", x.size);
	return rings->size();
}

// ---------------------------------------------------------------- time sources
static int ts_mode;
static uint64_t ts_cnt;
static hl::prng *tsg;
static hogl::timestamp ts_value(int src)
{
	rt::quiet q;
	uint64_t v;
	switch (ts_mode) {
	case 0:  v = 100 + ++ts_cnt; break;
	case 1:  v = 100 + ++ts_cnt / 3; break;
	case 2:  v = 100 + (*tsg)(40); break;
	default: v = 100 + ++ts_cnt * 4 - (*tsg)(12); break;
	}
	idle_pass = 0;
	ev(true, "{\"e\":\"ts\",\"t\":%d,\"v\":%u,\"src\":%d}", rt::self() + 1, (unsigned) v, src);
	return hogl::timestamp(v);
}
static hogl::timestamp ts0(const hogl::timesource *) { return ts_value(1); }
static hogl::timestamp ts1(const hogl::timesource *) { return ts_value(2); }
static hogl::timestamp ts2(const hogl::timesource *) { return ts_value(3); }
static hogl::timesource *src[3];
static int src_of(const hogl::timesource *t) { for (int i = 0; i < 3; i++) if (src[i] == t) return i + 1; return 0; }
static int src_named(const char *n) { for (int i = 0; i < 3; i++) if (!strcmp(src[i]->name(), n)) return i + 1; return 0; }

// ---------------------------------------------------------------- output
static const unsigned TXT = 8;   // bytes of text per emitted record

class sink : public hogl::ostrbuf {
	uint64_t total;
	void do_flush(const uint8_t *, size_t n)
	{
		size_t b = _size + n;
		if (b) {
			total += b;
			idle_pass = 0;
			ev(true, "{\"e\":\"sink\",\"n\":%u}", (unsigned) (total / TXT));
		}
		this->reset();
	}
public:
	sink(size_t cap) : ostrbuf(cap), total(0) {}
};

static void pattern(char *b, unsigned id, unsigned n)
{
	for (unsigned i = 0; i < n; i++) b[i] = 'a' + (id * 7 + i) % 26;
	b[n] = 0;
}

static unsigned nargs_of(unsigned id) { return id % 4; }
static unsigned slen_of(unsigned id) { return id * 5 % 23; }

static bool is_str(const hogl::record *r, unsigned i, const char *s)
{
	unsigned t = r->get_arg_type(i), len;
	if (t == hogl::arg::GSTR) return !strcmp((const char *) r->get_arg_val64(i), s);
	if (t != hogl::arg::CSTR) return false;
	const uint8_t *d = r->get_arg_data(i, len);
	return len == strlen(s) && !memcmp(d, s, len);
}

class recfmt : public hogl::format {
	virtual void process(hogl::ostrbuf &s, const data &d)
	{
		{
			rt::quiet q;
			emit(d);
		}
		s.push_back((const uint8_t *) "texttext", TXT);
	}

	void emit(const data &d)
	{
		const hogl::record *r = d.record;
		idle_pass = 0;
		unsigned ts = (unsigned) r->timestamp.to_nsec();
		unsigned q = (unsigned) (r->seqnum > 1000000 ? 1000000 : r->seqnum);
		int rid = rid_named(d.ring_name);
		if (!r->area || strcmp(r->area->name(), "HOGL")) {
			// User record
			unsigned id = 0, bad = 0;
			const char *ar = r->area ? r->area->name() : "null";
			unsigned nt = 0;
			for (unsigned i = 0; i < 16; i++) nt += r->get_arg_type(i) != 0;
			if (nt < 2 || !is_str(r, 0, "rec %u")) bad |= 1;
			if (r->get_arg_type(1) != hogl::arg::UINT32) bad |= 2;
			else {
				id = r->get_arg_val32(1);
				unsigned n = nargs_of(id);
				char b[64];
				if (nt != 2 + n) bad |= 4;
				else {
					pattern(b, id, slen_of(id));
					if (n > 0 && !(r->get_arg_type(2) == hogl::arg::UINT64 && r->get_arg_val64(2) == id * 0x100000001ULL)) bad |= 8;
					if (n > 1 && !is_str(r, 3, b)) bad |= 16;
					if (n > 2 && !(r->get_arg_type(4) == hogl::arg::INT32 && r->get_arg_val32(4) == (uint32_t) -(int) id)) bad |= 32;
				}
			}
			ev(true, "{\"e\":\"emit\",\"r\":%d,\"id\":%u,\"q\":%u,\"ts\":%u,\"sec\":%u,\"area\":\"%s\",\"bad\":%u}", rid, id, q, ts, (unsigned) r->section, ar, bad);
			return;
		}
		switch (r->section) {
		case hogl::internal::DROPMARK: {
			uint64_t n = r->get_arg_val64(1);
			ev(true, "{\"e\":\"drop\",\"r\":%d,\"n\":%u,\"bad\":%u}", rid, (unsigned) (n > 1000000 ? 1000000 : n), is_str(r, 0, "dropped %llu record(s)") ? 0 : 1);
			break;
		}
		case hogl::internal::TSOFULLMARK:
			ev(true, "{\"e\":\"full\"}");
			break;
		default:
			if (is_str(r, 0, "switching timesource from %s to %s")) {
				ev(true, "{\"e\":\"tsw\",\"r\":%d,\"q\":%u,\"ts\":%u,\"from\":%d,\"to\":%d}", rid, q, ts,
					src_named((const char *) r->get_arg_val64(1)), src_named((const char *) r->get_arg_val64(2)));
			} else
				ev(true, "{\"e\":\"emit\",\"r\":%d,\"id\":0,\"q\":%u,\"ts\":%u,\"sec\":%u,\"area\":\"HOGL\",\"bad\":0}", rid, q, ts, (unsigned) r->section);
			break;
		}
	}
};

class out : public hogl::output {
public:
	out(hogl::format &f, size_t cap) : output(f) { init(new sink(cap)); }
};

// ---------------------------------------------------------------- programs
enum opk { POST, POSTU, FLUSH, CHTS, SLEEP, ADD, FIND, REL, LIST, TNEW, TNEWR, TDEL, TPOST, ACT, DEACT };
struct op { opk k; int a, b, c, d; };
struct prog { std::vector<op> ops; };

static hogl::area *area;
static unsigned next_id;
static std::vector<hogl::ringbuf *> *slots;   // shared table of rings (index = slot)
static const char *names[] = { "RA", "RB", "RC", "RD", "RE", "RF" };
static hogl::format *gfmt;
static out *gout;
static unsigned out_cap;
static hogl::engine::options *gopts;
static bool use_default;

#define CALL(o, f, args...) ev(true, "{\"e\":\"op\",\"t\":%d,\"o\":\"" o "\"" f "}", rt::self() + 1, ##args); idle_pass = 0
#define RET(f, args...) ev(true, "{\"e\":\"ret\",\"t\":%d" f "}", rt::self() + 1, ##args); idle_pass = 0

static void do_post(hogl::ringbuf *r, bool tls, bool unlocked, unsigned sec)
{
	unsigned id;
	char b[64];
	int rid;
	{ rt::quiet q; id = ++next_id; pattern(b, id, slen_of(id)); rid = tls ? rid_of(hogl::tls::ring()) : rid_of(r);
	CALL("post", ",\"r\":%d,\"id\":%u,\"sec\":%u,\"ar\":\"%s\",\"tls\":%s", rid, id, sec, area->name(), tls ? "true" : "false"); }
	uint64_t u = id * 0x100000001ULL;
	int neg = -(int) id;
	#define VARIANTS(F, PRE...) \
		switch (nargs_of(id)) { \
		case 0: F(PRE, sec, "rec %u", id); break; \
		case 1: F(PRE, sec, hogl::arg_gstr("rec %u"), id, u); break; \
		case 2: F(PRE, sec, hogl::arg_gstr("rec %u"), id, u, b); break; \
		case 3: F(PRE, sec, "rec %u", id, u, std::string(b), neg); break; \
		}
	if (tls && unlocked) { VARIANTS(hogl::post_unlocked, area) }
	else if (tls) { VARIANTS(hogl::post, area) }
	else if (unlocked) { VARIANTS(hogl::post_unlocked, r, area) }
	else { VARIANTS(hogl::post, r, area) }
	RET("");
}

static hogl::ringbuf::options ropts(int cap, int prio, int flags)
{
	hogl::ringbuf::options o = hogl::ringbuf::default_options;
	o.capacity = cap; o.prio = prio; o.flags = flags; o.record_tailroom = 160;
	return o;
}

static void activate()
{
	gout = new out(*gfmt, out_cap);
	ev(true, "{\"e\":\"op\",\"t\":%d,\"o\":\"start\",\"tso\":%s,\"tsocap\":%u}", rt::self() + 1,
		gopts->features & hogl::engine::DISABLE_TSO ? "false" : "true", gopts->tso_buffer_capacity ? gopts->tso_buffer_capacity : 2048);
	{ rt::quiet q; discover(&hogl::default_ring); }
	if (use_default) {
		hogl::activate(*gout, *gopts);
	}
	hogl::engine *e = use_default ? hogl::default_engine : new hogl::engine(*gout, *gopts);
	{ rt::quiet q; eng = e; loops = eng->get_stats().loops; }
	RET(",\"v\":%d", use_default);
}

static void deactivate()
{
	hogl::engine *e = eng;
	CALL("stop", "");
	// The stats live in the engine; the arena never reuses memory, so they stay readable after the delete
	if (use_default) hogl::deactivate(); else delete e;
	{ rt::quiet q;
	eng = 0;
	poll();
	const hogl::engine::stats &s = e->get_stats();
	RET(",\"v\":0,\"out\":%lu,\"dropped\":%lu,\"full\":%lu,\"tsc\":%lu", s.recs_out, s.recs_dropped, s.tso_full, s.timesource_changed); }
	delete gout;
}

struct worker { prog *p; pthread_t h; int idx; hogl::ringbuf *first; };

static void run_prog(prog &p, hogl::ringbuf *first = 0)
{
	std::vector<hogl::tls *> stack;
	std::vector<hogl::ringbuf *> mine(8, (hogl::ringbuf *) 0);
	mine[7] = first;   // released last
	for (size_t i = 0; i < p.ops.size(); i++) {
		op &o = p.ops[i];
		switch (o.k) {
		case POST: case POSTU: {
			hogl::ringbuf *r = o.a >= 0 ? (*slots)[o.a] : mine[-o.a - 1];
			if (r) do_post(r, false, o.k == POSTU, o.b);
			break;
		}
		case TPOST:
			// posting without locking is only allowed on a ring that is not shared
			do_post(0, true, o.a && !hogl::tls::ring()->shared(), o.b);
			break;
		case FLUSH: {
			hogl::ringbuf *r = o.a == 99 ? hogl::tls::ring() : o.a >= 0 ? (*slots)[o.a] : mine[-o.a - 1];
			if (!r) break;
			CALL("flush", ",\"r\":%d,\"to\":%d", rid_of(r), o.b);
			uint64_t t0 = rt::now_us();
			bool v = o.a == 99 ? hogl::flush(o.b) : hogl::flush(r, o.b);
			RET(",\"v\":%d,\"el\":%d", v, (int) (rt::now_us() - t0));
			break;
		}
		case CHTS: {
			hogl::ringbuf *r = o.a == 99 ? hogl::tls::ring() : (*slots)[o.a];
			CALL("chts", ",\"r\":%d,\"src\":%d,\"to\":%d", rid_of(r), o.b + 1, o.c);
			uint64_t t0 = rt::now_us();
			bool v = hogl::change_timesource(r, src[o.b], o.c);
			RET(",\"v\":%d,\"el\":%d", v, (int) (rt::now_us() - t0));
			break;
		}
		case SLEEP: usleep(o.a); rt::progress(); break;
		case ADD: {
			hogl::ringbuf::options ro = ropts(o.c, o.d, o.b);
			CALL("add", ",\"name\":\"%s\",\"blk\":%d,\"shr\":%d,\"reu\":%d", names[o.a], !!(o.b & hogl::ringbuf::BLOCKING), !!(o.b & hogl::ringbuf::SHARED), !!(o.b & hogl::ringbuf::REUSABLE));
			hogl::ringbuf *r = eng->add_ring(names[o.a], ro);
			{ rt::quiet q;
			int id = discover(r);
			RET(",\"v\":%d,\"rname\":\"%s\",\"src\":%d", id, r ? r->name() : "", r ? src_of(r->timesource()) : 0); }
			// each program keeps at most one own reference per name
			if (mine[o.a]) { CALL("rel", ",\"r\":%d", rid_of(mine[o.a])); mine[o.a]->release(); RET(""); }
			mine[o.a] = r;
			break;
		}
		case FIND: {
			CALL("find", ",\"name\":\"%s\"", names[o.a]);
			hogl::ringbuf *r = eng->find_ring(names[o.a]);
			{ rt::quiet q;
			int id = discover(r);
			RET(",\"v\":%d,\"rname\":\"%s\"", id, r ? r->name() : ""); }
			if (r) {
				// use it if several threads may post to it, then drop the reference
				for (int k = 0; k < o.b && r->shared(); k++) do_post(r, false, false, 0);
				CALL("rel", ",\"r\":%d", rid_of(r));
				r->release();
				RET("");
			}
			break;
		}
		case REL:
			if (mine[o.a]) {
				CALL("rel", ",\"r\":%d", rid_of(mine[o.a]));
				mine[o.a]->release();
				mine[o.a] = 0;
				RET("");
			}
			break;
		case LIST: {
			CALL("list", "");
			hogl::string_list l;
			eng->list_rings(l);
			rt::quiet q;
			ev(true, "{\"e\":\"ret\",\"t\":%d,\"v\":[", rt::self() + 1);
			bool f = true;
			for (hogl::string_list::iterator it = l.begin(); it != l.end(); ++it, f = false) hl::raw("%s\"%s\"", f ? "" : ",", it->c_str());
			hl::raw("]}");
			break;
		}
		case TNEW: {
			hogl::ringbuf::options ro = ropts(o.c, o.d, o.b);
			CALL("tnew", ",\"name\":\"%s\",\"blk\":%d,\"shr\":%d,\"reu\":%d", names[o.a], !!(o.b & hogl::ringbuf::BLOCKING), !!(o.b & hogl::ringbuf::SHARED), !!(o.b & hogl::ringbuf::REUSABLE));
			hogl::tls *t = new hogl::tls(names[o.a], ro, eng);
			{ rt::quiet q;
			discover(hogl::tls::ring());
			RET(",\"v\":%d,\"cur\":%d", t->valid(), rid_of(hogl::tls::ring())); }
			stack.push_back(t);
			break;
		}
		case TNEWR: {
			// thread ring object over a ring found by name: takes over the caller's reference
			CALL("find", ",\"name\":\"%s\"", names[o.a]);
			hogl::ringbuf *r = eng->find_ring(names[o.a]);
			{ rt::quiet q;
			int id = discover(r);
			RET(",\"v\":%d,\"rname\":\"%s\"", id, r ? r->name() : ""); }
			if (!r) break;
			if (!r->shared()) { CALL("rel", ",\"r\":%d", rid_of(r)); r->release(); RET(""); break; }
			CALL("tnewr", ",\"r\":%d", rid_of(r));
			hogl::tls *t = new hogl::tls(r, eng);
			{ rt::quiet q;
			RET(",\"v\":%d,\"cur\":%d", t->valid(), rid_of(hogl::tls::ring())); }
			stack.push_back(t);
			break;
		}
		case TDEL:
			if (stack.empty()) break;
			CALL("tdel", "");
			delete stack.back();
			stack.pop_back();
			{ rt::quiet q; RET(",\"cur\":%d", rid_of(hogl::tls::ring())); }
			break;
		case ACT: activate(); break;
		case DEACT: deactivate(); break;
		}
	}
	while (!stack.empty()) {
		CALL("tdel", "");
		delete stack.back();
		stack.pop_back();
		{ rt::quiet q; RET(",\"cur\":%d", rid_of(hogl::tls::ring())); }
	}
	for (size_t i = 0; i < mine.size(); i++)
		if (mine[i]) { CALL("rel", ",\"r\":%d", rid_of(mine[i])); mine[i]->release(); RET(""); }
}

static void *work(void *a)
{
	worker *w = (worker *) a;
	run_prog(*w->p, w->first);
	return 0;
}

// ---------------------------------------------------------------- scenarios
static void one(uint64_t seed)
{
	hl::prng g(seed);
	rt::opts so = hl::schedule(g, seed);
	bool S_core = !strcmp(suite, "core"), S_block = !strcmp(suite, "block"), S_life = !strcmp(suite, "life");
	bool S_tls = !strcmp(suite, "tls"), S_ts = !strcmp(suite, "ts"), S_restart = !strcmp(suite, "restart"), S_flush = !strcmp(suite, "flush");
	bool S_order = !strcmp(suite, "order"), S_stop = !strcmp(suite, "stop");

	rings = new std::vector<rinfo>;
	slots = new std::vector<hogl::ringbuf *>;
	tsg = new hl::prng(seed + 1000003);
	ts_mode = S_order ? g.of({1, 2, 3, 3}) : g.of({0, 0, 0, 1, 3});
	use_default = !S_stop && (S_restart || S_tls || g.chance(15));

	src[0] = new hogl::timesource("src1", ts0); src[1] = new hogl::timesource("src2", ts1); src[2] = new hogl::timesource("src3", ts2);
	gfmt = new recfmt;
	hogl::engine::options eo = hogl::engine::default_options;
	gopts = &eo;
	eo.default_mask = hogl::mask(".*:(INFO|WARN|ERROR|FATAL).*", ".*:S[0-2]", 0);
	eo.timesource = src[0];
	eo.polling_interval_usec = g.of({50u, 300u, 1000u, 4000u});
	eo.tso_buffer_capacity = g.of({0u, 2u, 3u, 4u, 8u, 16u, 16u, 32u, 64u, 1024u});
	if (S_order) eo.tso_buffer_capacity = g.of({2u, 4u, 5u, 8u, 9u, 16u, 24u, 1024u});
	eo.features = g.chance(S_order ? 0 : 20) ? hogl::engine::DISABLE_TSO : 0;
	out_cap = g.of({0u, 1u, 12u, 64u, 4096u});

	// Rings created by the main thread
	unsigned nthr = g.range(1, S_order ? 4 : 3);
	std::vector<int> shared_slots;
	struct rspec { int cap, prio, flags, owner; };
	std::vector<rspec> rs;
	unsigned nr = S_life || S_tls || S_restart ? g(2) : g.range(1, 3);
	if (S_order) nr = g.range(2, 4);
	if (S_stop) nr = nthr;   // one per thread, handed over to it
	for (unsigned i = 0; i < nr; i++) {
		rspec r;
		r.cap = S_block ? g.of({2, 2, 4, 8}) : S_order ? g.of({8, 16, 32, 64}) : g.of({2, 4, 4, 8, 16, 64});
		r.prio = g(3);
		r.flags = 0;
		r.owner = i % nthr;
		if (S_stop) r.flags |= g.of({0, 0, (int) hogl::ringbuf::SHARED, (int) hogl::ringbuf::REUSABLE});
		else if (g.chance(S_block ? 40 : 25) || i >= nthr) { r.flags |= hogl::ringbuf::SHARED; shared_slots.push_back(i); r.owner = -1; }
		if (S_block ? g.chance(85) : g.chance(10)) r.flags |= hogl::ringbuf::BLOCKING;
		rs.push_back(r);
	}

	// Thread programs
	std::vector<prog> pr(nthr);
	unsigned nops = S_restart ? g.range(3, 10) : S_stop ? g.range(1, 8) : S_life || S_tls ? g.range(4, 14) : g.range(4, 24);
	if (S_block && g.chance(50)) nops = g.range(8, 40);
	unsigned pflush = S_flush ? 25 : S_core ? 6 : S_ts || S_order ? 4 : 5;
	unsigned pts = S_ts ? 15 : S_core ? 3 : 0;
	for (unsigned t = 0; t < nthr; t++) {
		std::vector<int> usable = shared_slots, ex;
		for (unsigned i = 0; i < nr; i++) if (rs[i].owner == (int) t) { usable.push_back(i); ex.push_back(i); }
		std::vector<int> added;
		std::map<int,int> addflags;
		int depth = 0;
		for (unsigned k = 0; k < nops; k++) {
			op o; memset(&o, 0, sizeof(o));
			unsigned x = g(100);
			unsigned sec = g.chance(8) ? 3 : g(3);
			if (S_stop) {
				unsigned y = g(100);
				int nm = g(2);
				int flags = g.of({0, (int) hogl::ringbuf::SHARED, (int) hogl::ringbuf::REUSABLE});
				if (y < 35) { o.k = POST; o.a = -8; o.b = sec; }
				else if (y < 50) { o.k = LIST; }
				else if (y < 62) { o.k = FIND; o.a = nm; o.b = g(2); }
				else if (y < 76) { o.k = ADD; o.a = nm; o.b = flags; o.c = g.of({2, 8}); o.d = g(3); }
				else if (y < 84) { o.k = REL; o.a = nm; }
				else if (y < 94) { o.k = POST; o.a = -nm - 1; o.b = sec; }
				else if (y < 97) { o.k = FLUSH; o.a = -8; o.b = 10000000; }
				else { o.k = SLEEP; o.a = g.of({10, 400, 3000}); }
				pr[t].ops.push_back(o); continue;
			}
			if (S_life || (S_core && x < 6 && g.chance(30)) || (S_ts && x < 20)) {
				int nm = g(S_life ? 3 : 2);
				unsigned y = g(100);
				int flags = g.of({0, 0, (int) hogl::ringbuf::SHARED, (int) hogl::ringbuf::SHARED, (int) hogl::ringbuf::REUSABLE, (int) hogl::ringbuf::REUSABLE, (int) (hogl::ringbuf::REUSABLE | hogl::ringbuf::SHARED)});
				if (y < 30) { o.k = ADD; o.a = nm; o.b = flags; o.c = g.of({2, 4, 8}); o.d = g(3); pr[t].ops.push_back(o); continue; }
				if (y < 45) { o.k = FIND; o.a = nm; o.b = g(4); pr[t].ops.push_back(o); continue; }
				if (y < 60) { o.k = REL; o.a = nm; pr[t].ops.push_back(o); continue; }
				if (y < 64) { o.k = LIST; pr[t].ops.push_back(o); continue; }
				if (y < 90) { o.k = POST; o.a = -nm - 1; o.b = sec; pr[t].ops.push_back(o); continue; }
				if (y < 95) { o.k = FLUSH; o.a = -nm - 1; o.b = 10000000; pr[t].ops.push_back(o); continue; }
				o.k = SLEEP; o.a = g.of({10, 400, 3000, 10000}); pr[t].ops.push_back(o); continue;
			}
			if (S_tls) {
				int nm = g(4);
				unsigned y = g(100);
				if (y < 25 && depth < 4) {
					o.k = g.chance(25) ? TNEWR : TNEW; o.a = nm;
					o.b = g.of({0, 0, (int) hogl::ringbuf::SHARED, (int) hogl::ringbuf::REUSABLE}); o.c = g.of({2, 4, 16}); o.d = g(3);
					pr[t].ops.push_back(o); if (o.k == TNEW) depth++; continue;
				}
				if (y < 45 && depth) { o.k = TDEL; pr[t].ops.push_back(o); depth--; continue; }
				if (y < 50) { o.k = SLEEP; o.a = g.of({10, 400, 3000, 10000}); pr[t].ops.push_back(o); continue; }
				if (y < 55) { o.k = FLUSH; o.a = 99; o.b = 10000000; pr[t].ops.push_back(o); continue; }
				o.k = TPOST; o.a = g.chance(20); o.b = sec; pr[t].ops.push_back(o); continue;
			}
			if (S_restart || usable.empty()) {
				if (x < 75 || usable.empty()) { o.k = TPOST; o.b = sec; pr[t].ops.push_back(o); if (x < 5) { o.k = FLUSH; o.a = 99; o.b = 10000000; if (use_default) pr[t].ops.push_back(o); } continue; }
			}
			if (x < 6 && usable.size()) { o.k = SLEEP; o.a = g.of({10, 400, 3000, 10000}); }
			else if (x < 6 + pflush) { o.k = FLUSH; o.a = usable[g(usable.size())]; o.b = g.of({10000000, 10000000, 10000000, 0, 1000, 3000}); }
			else if (x < 6 + pflush + pts) { o.k = CHTS; o.a = usable[g(usable.size())]; o.b = g(3); o.c = g.of({10000000, 10000000, 0, 2000}); }
			else if (x < 10 + pflush + pts && use_default) { o.k = TPOST; o.b = sec; }
			else {
				o.k = POST; o.a = usable[g(usable.size())]; o.b = sec;
				if (rs[o.a].owner >= 0 && g.chance(20)) o.k = POSTU;
				// bursts
				unsigned n = g.chance(25) ? g.range(2, S_order ? 20 : 12) : 1;
				while (--n) pr[t].ops.push_back(o);
			}
			pr[t].ops.push_back(o);
		}
	}
	prog mainp;
	unsigned restarts = S_restart ? g.range(1, 2) : 0;
	std::vector<prog> between(restarts);
	for (unsigned i = 0; i < restarts; i++)
		for (unsigned k = g(12); k-- > 0;) { op o = { TPOST, 0, (int) g(3), 0, 0 }; between[i].ops.push_back(o); }
	bool threads_over_restart = S_restart && g.chance(60);

	hl::raw("{\"sd\":%llu,\"suite\":\"%s\",\"ev\":[", (unsigned long long) seed, suite);

	so.max_idle = 3000;
	rt::on_poll = poll; rt::on_free = on_free;
	rt::begin(so);

	activate();
	area = eng->add_area("AREA", sections);
	if (threads_over_restart) {
		// areas of an engine go away with it
		area = new hogl::area("AREA0", sections);
		area->enable(0); area->enable(1); area->enable(2);
	}

	for (unsigned i = 0; i < nr; i++) {
		char n[8]; snprintf(n, sizeof(n), "M%u", i);
		hogl::ringbuf::options ro = ropts(rs[i].cap, rs[i].prio, rs[i].flags);
		CALL("add", ",\"name\":\"%s\",\"blk\":%d,\"shr\":%d,\"reu\":%d", n, !!(rs[i].flags & hogl::ringbuf::BLOCKING), !!(rs[i].flags & hogl::ringbuf::SHARED), !!(rs[i].flags & hogl::ringbuf::REUSABLE));
		hogl::ringbuf *r;
		if (g.chance(25)) {
			r = new hogl::ringbuf(n, ro);
			r->hold();
			if (!eng->add_ring(r)) { r->release(); r = 0; }
		} else
			r = eng->add_ring(n, ro);
		slots->push_back(r);
		{ rt::quiet q; int id = discover(r);
		RET(",\"v\":%d,\"rname\":\"%s\",\"src\":%d", id, r ? r->name() : "", r ? src_of(r->timesource()) : 0); }
	}

	std::vector<worker> w(nthr);
	for (unsigned t = 0; t < nthr; t++) { w[t].p = &pr[t]; w[t].idx = t; w[t].first = S_stop ? (*slots)[t] : 0; pthread_create(&w[t].h, 0, work, &w[t]); }

	bool early_release = g.chance(30);
	if (threads_over_restart) {
		// deactivate while threads are still posting to the immortal default ring; release all other rings first
		// (threads of this suite only use their thread ring)
	}
	if (!(threads_over_restart && nr == 0) && !S_stop)
		for (unsigned t = 0; t < nthr; t++) pthread_join(w[t].h, 0);

	// Quiescent reference counts
	{ rt::quiet q;
	if (!(threads_over_restart && nr == 0) && !S_stop) {
		ev(true, "{\"e\":\"quies\",\"ref\":[");
		bool f = true;
		for (size_t i = 0; i < rings->size(); i++) if (!(*rings)[i].freed && !(*rings)[i].p->immortal()) { hl::raw("%s{\"r\":%d,\"n\":%d}", f ? "" : ",", (int) i + 1, (*rings)[i].p->refcnt()); f = false; }
		hl::raw("]}");
	} }

	for (unsigned i = 0; i < nr; i++) {
		hogl::ringbuf *r = (*slots)[i];
		if (r && !S_stop) {
			if (early_release) do_post(r, false, false, 0);
			CALL("rel", ",\"r\":%d", rid_of(r)); r->release(); RET("");
		}
	}
	// (in the stop suite the threads still use their rings and the engine, which goes away only after they are done)
	if (S_stop && g.chance(50)) usleep(g.of({10, 300, 3000}));
	deactivate();
	if (S_stop) for (unsigned t = 0; t < nthr; t++) pthread_join(w[t].h, 0);
	for (unsigned i = 0; i < restarts; i++) {
		if (!threads_over_restart) {
			area = new hogl::area("AREA2", sections);
			area->enable(0); area->enable(1); area->enable(2);
		}
		if (!(threads_over_restart && nr == 0)) run_prog(between[i]);
		activate();
		run_prog(between[i]);
		if (i + 1 == restarts && threads_over_restart && nr == 0)
			for (unsigned t = 0; t < nthr; t++) pthread_join(w[t].h, 0);
		deactivate();
	}
	ev(true, "{\"e\":\"end\"}");
	rt::end();
}

int main(int argc, char **argv)
{
	if (argc < 5) return 2;
	suite = argv[2];
	return hl::run_all(argv[1], strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), one);
}
