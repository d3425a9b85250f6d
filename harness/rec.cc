// Sequential driver for records: storage of arguments, rendering, headers (spec/RecArgs.tla, spec/Text.tla).
#include "args.h"
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "hogl/area.hpp"
#include "hogl/post.hpp"
#include "hogl/timesource.hpp"
#include "hogl/detail/ringbuf.hpp"
#include "hogl/detail/ostrbuf.hpp"
#include "hogl/format-basic.hpp"

struct strbuf : public hogl::ostrbuf {
	std::string s;
	strbuf() : ostrbuf(0) { }
	virtual void do_flush(const uint8_t *d, size_t n) { s.append((const char *) _data, _size); reset(); if (n) s.append((const char *) d, n); }
};

// the clocks of the system show what the driver says (for the built-in time sources)
static uint64_t now;
static bool own_clock;
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) noexcept
{
	if (!own_clock) return syscall(SYS_clock_gettime, id, ts);
	uint64_t t = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? now : now / 2;   // the monotonic clock shows something else
	ts->tv_sec = t / 1000000000ull; ts->tv_nsec = t % 1000000000ull;
	return 0;
}
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept
{
	struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
// time t as a record gets it from a time source
static hogl::timestamp stamp(hl::prng &g, uint64_t t)
{
	unsigned how = g(6);
	if (how > 2) return hogl::timestamp(t);
	if (how == 2 && t >= 1ull << 63) how = 0;
	now = how == 2 ? t * 2 : t;
	own_clock = true;
	hogl::timestamp r = how == 0 ? hogl::realtime_timesource.timestamp() : how == 1 ? hogl::default_timesource.timestamp() : hogl::monotonic_timesource.timestamp();
	own_clock = false;
	return r;
}
static hogl::timestamp get_now(const hogl::timesource *) { return hogl::timestamp(now); }

static const char *fname[] = { "timespec", "timestamp", "timedelta", "ring", "seqnum", "area", "section" };
static const int tzs[] = { 0, 0, 330, -480, 60, 765, -570 };

struct fields { std::string text, json; uint32_t bits; };
static fields pick_fields(hl::prng &g, bool simple)
{
	fields r; r.bits = 0;
	static const uint32_t nice[] = { 0x7a, 0x79, 0x7d, 8 };
	r.bits = simple ? 8 : g.chance(40) ? nice[g(3)] : g(128);
	char sep = g(2) ? ',' : '|';
	r.json = "[";
	for (int i = 0; i < 7; i++) if (r.bits >> i & 1) { if (r.text.size()) { r.text += sep; r.json += ","; } r.text += fname[i]; r.json += std::string("\"") + fname[i] + "\""; }
	r.json += "]";
	return r;
}

static hogl::format_basic *mkfmt(hl::prng &g, const fields &f)
{
	if (g(2)) return new hogl::format_basic(f.bits);
	if (f.bits == 0x7a && g(2)) return new hogl::format_basic(g(2) ? (const char *) 0 : "default");
	if (f.bits == 0x79 && g(2)) return new hogl::format_basic("fast0");
	if (f.bits == 0x7d && g(2)) return new hogl::format_basic(std::string("fast1"));
	return new hogl::format_basic(f.text.c_str());
}

static void set_tz(int off)
{
	char b[32]; int a = off < 0 ? -off : off;
	snprintf(b, sizeof(b), "XYZ%c%02d:%02d", off > 0 ? '-' : '+', a / 60, a % 60);
	setenv("TZ", b, 1); tzset();
}

static void head_json(hl::text &o, const std::string &ring, const std::string &area, const std::string &sect, uint64_t ts, uint64_t seq)
{
	o += "\"ring\":"; o.bytes(ring.data(), ring.size());
	o += ",\"area\":"; o.bytes(area.data(), area.size());
	o += ",\"sect\":"; o.bytes(sect.data(), sect.size());
	o += ",\"ts\":"; o.bytes(&ts, 8);
	o += ",\"seq\":"; o.bytes(&seq, 8);
}

static void one(const char *suite, uint64_t seed, hl::text &o)
{
	hl::prng g(seed);
	bool hdr = !strcmp(suite, "hdr");
	fields f = pick_fields(g, !hdr);
	int tz = tzs[g(7)];
	set_tz(tz);
	hogl::format_basic *fmt = mkfmt(g, f);
	static const char *secs[] = { "ONE", "S2", "THE-LONGEST-SECTION-OF-ALL-OF-THEM", "x", 0 };
	const char *an[] = { "AREA", "B", "SOME-AREA-WITH-A-LONG-NAME" };
	hogl::area area(an[g(3)], g(2) ? secs : 0);
	area.enable();
	o.f("{\"sd\":%llu,\"suite\":\"%s\",\"f\":%s,\"tz\":%d,", (unsigned long long) seed, suite, f.json.c_str(), tz);

	if (hdr) {
		o += "\"recs\":[";
		unsigned n = g.range(1, 6);
		uint64_t t = g.chance(20) ? g(3) : g.chance(50) ? 1500000000000000000ull + g.next() % 100000000000000000ull : g.next() >> g(40);
		static const char *rings[] = { "R", "DEFAULT", "a-ring-with-quite-a-long-name-to-print" };
		for (unsigned i = 0; i < n; i++) {
			switch (g(8)) {
			case 0: break;
			case 1: t += g(10000); break;
			case 2: t += 10000ull * g(100000); break;
			case 3: t += 1000000000ull * g(100000); break;
			case 4: t -= g(2) ? g(20000) : 1000000000ull * g(3); break;
			case 5: t = t / 1000000000ull * 1000000000ull + g.of({0, 9999, 10000, 99999999, 999999999}); break;
			case 6: t = (t + g.next() % 400000000000000000ull); break;
			default: t ^= 1ull << g(60); break;
			}
			hogl::record *r = (hogl::record *) calloc(1, sizeof(hogl::record) + 64);
			bool noarea = g.chance(5);
			r->area = noarea ? 0 : &area; r->timestamp = stamp(g, t);
			uint64_t seq = g.next() >> (12 + g(52)); r->seqnum = seq;
			unsigned sec = g.chance(90) ? g(area.size()) : g.of({(unsigned) area.size(), (unsigned) area.size() + 1, g(4095)}); r->section = sec;
			std::string ring = rings[g(3)];
			arggen ag(g); ag.number(g(4));
			r->set_args(sizeof(r->argval) + 64, ARGS16(ag));
			hogl::format::data d; d.ring_name = ring.c_str(); d.record = r;
			strbuf sb; fmt->process(sb, d);
			o += i ? ",{" : "{";
			head_json(o, ring, noarea ? "INVALID" : area.name(), noarea ? "INVALID" : area.section_name(sec), t, seq);
			o += ",\"mode\":9,\"as\":"; ag.json(o);
			o += ",\"got\":"; stored_json(o, *r, &ag.args);
			o += ",\"spill\":0,\"text\":"; o.bytes(sb.s.data(), sb.s.size());
			o += "}";
			free(r);
		}
		o += "]}";
		delete fmt;
		return;
	}

	hogl::ringbuf::options ro = { 0, 0, 0, 0 };
	ro.capacity = 1u << g.range(1, 4);
	ro.record_tailroom = g.of({0u, 80u, 128u, 129u, 160u, 161u, 200u, 300u, 500u, 1000u});
	if (g(2)) ro.flags = hogl::ringbuf::SHARED;
	ro.flags |= hogl::ringbuf::IMMORTAL;
	hogl::ringbuf ring("R", ro);
	hogl::timesource ts("fake", get_now);
	ring.timesource(&ts);
	o.f("\"tail\":%u,\"recs\":[", ring.record_tailroom());
	unsigned cap = ring.capacity(), sz = ring.record_size();
	uint8_t *top = (uint8_t *) ring.push_begin();
	// whatever is around must stay as it is
	unsigned rounds = g.range(1, 3), done = 0;
	for (unsigned q = 0; q < rounds; q++) {
		unsigned n = g.range(1, cap - 1 > 3 ? 3 : cap - 1);
		std::deque<arggen> ags;
		std::vector<hl::text> line;
		std::vector<uint64_t> tsv, seqv; std::vector<unsigned> secv, mode, spill;
		for (unsigned i = 0; i < n; i++) {
			ags.emplace_back(g);
			arggen &ag = ags.back();
			ag.list();
			now = 1000000000ull * g(1000000) + g(1000000000);
			unsigned sec = g(area.size()), m = g(4);
			uint64_t seq = ring.seqnum();
			uint8_t *slot = (uint8_t *) ring.push_begin();
			std::string before((char *) top, (size_t) cap * sz);
			hogl::argpack ap;
			memset((void *) &ap, 0xa5, sizeof(ap));
			switch (m) {
			case 0: hogl::push(&ring, &area, sec, ARGS16(ag)); break;
			case 1: hogl::push_unlocked(&ring, &area, sec, ARGS16(ag)); break;
			case 2: ap.populate(ARGS16(ag)); hogl::post_impl::locked(&ring, &area, sec, ap); break;
			case 3: { hogl::record *r = hogl::post_impl::begin_unlocked(&ring, &area, sec); r->set_args(ring.record_tailroom(), ARGS16(ag)); hogl::post_impl::finish_unlocked(&ring); } break;
			}
			unsigned sp = 0;
			for (size_t j = 0; j < before.size(); j++) if ((uint8_t) before[j] != top[j] && (top + j < slot || top + j >= slot + sz)) sp++;
			tsv.push_back(now); seqv.push_back(seq); secv.push_back(sec); mode.push_back(m); spill.push_back(sp);
		}
		for (unsigned i = 0; i < n; i++) {
			hogl::record *r = ring.pop_begin();
			o += done++ ? ",{" : "{";
			std::string an = r && r->area == &area ? area.name() : "?";
			head_json(o, ring.name(), an, area.section_name(secv[i]), tsv[i], seqv[i]);
			o.f(",\"mode\":%u,\"as\":", mode[i]); ags[i].json(o);
			o += ",\"got\":";
			bool same = r && (uint64_t) r->timestamp == tsv[i] && r->seqnum == seqv[i] && r->section == secv[i] && r->area == &area;
			if (!same) spill[i]++;
			strbuf sb;
			if (r) { stored_json(o, *r, &ags[i].args); hogl::format::data d; d.ring_name = ring.name(); d.record = r; fmt->process(sb, d); } else o += "[]";
			o.f(",\"spill\":%u,\"text\":", spill[i]).bytes(sb.s.data(), sb.s.size());
			o += "}";
			if (r) ring.pop_commit();
		}
	}
	o += "]}";
	delete fmt;
}

int main(int argc, char **argv) { return hl::seq_main(argc, argv, one); }
