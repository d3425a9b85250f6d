// Recovery of pending records from a memory image (spec/Recover.tla): rings, areas and outputs with a history, an image
// of the process, and what the recovery tool shows of it.
#include "args.h"
#include "image.h"
#include "tool.h"
#include <algorithm>
#include <map>
#include "hogl/area.hpp"
#include "hogl/post.hpp"
#include "hogl/timesource.hpp"
#include "hogl/output-plainfile.hpp"
#include "hogl/detail/ringbuf.hpp"
#include "hogl/detail/ostrbuf.hpp"
#include "hogl/format-basic.hpp"

struct strbuf : public hogl::ostrbuf {
	std::string s;
	strbuf() : ostrbuf(16) { }
	virtual void do_flush(const uint8_t *d, size_t n) { s.append((const char *) _data, _size); reset(); if (n) s.append((const char *) d, n); }
};

static uint64_t now;
static hogl::timestamp get_now(const hogl::timesource *) { return hogl::timestamp(now); }
static hogl::timesource fake("fake", get_now), fake2("other", get_now);
static const char *lits[] = { "a literal", "%d of %s", "", "literal with %% sign" };

struct rinfo { std::string head, sect, body; hl::text got; uint64_t ts, seq; const hogl::area *area; bool special; };
// a record as it is in the ring
static rinfo look(hogl::record *r, const char *area = 0, const char *sect = 0)
{
	rinfo q;
	q.ts = (uint64_t) r->timestamp; q.seq = r->seqnum; q.area = r->area; q.special = area;
	q.head = area ? area : r->area ? r->area->name() : "INVALID";
	q.sect = sect ? sect : r->area ? r->area->section_name(r->section) : "INVALID";
	if (!area) {
		static hogl::format_basic none((uint32_t) 0);
		strbuf sb; hogl::format::data d; d.ring_name = "X"; d.record = r;
		none.process(sb, d); sb.flush();
		q.body = noaddr(sb.s);
	} else q.body = "\n";
	return q;
}
static const char *fname[] = { "timespec", "timestamp", "timedelta", "ring", "seqnum", "area", "section" };

static void scene(const char *suite, uint64_t seed, hl::text &o)
{
	hl::prng g(seed);
	setenv("TZ", "UTC0", 1); tzset();
	static const uint32_t nice[] = { 0x7a, 0x79, 0x7d, 0x7c, 0x18, 0x68 };
	uint32_t bits = nice[g(6)] | (g(2) ? 0x18 : 0);
	std::string fields, fj = "[";
	for (int i = 0; i < 7; i++) if (bits >> i & 1) { if (fields.size()) { fields += ","; fj += ","; } fields += fname[i]; fj += std::string("\"") + fname[i] + "\""; }
	fj += "]";
	unsigned how = g(4);                // 0: everything is in the image, 1: no read-only data, 2: the same and the program is given, 3: adjacent pieces
	bool lit = how != 1, all = g.chance(15);
	unsigned nr = g.range(1, 4), na = g.range(1, 3), no = g(3);
	std::deque<std::string> names;
	std::vector<hogl::area *> area; std::vector<hogl::ringbuf *> ring; std::vector<std::string> rname;
	// at the end of a page, with nothing behind it
	auto edge = [](size_t n, size_t al) {
		char *m = (char *) mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		mprotect(m + 4096, 4096, PROT_NONE);
		return (void *) (m + (4096 - n) / al * al);
	};
	static const char *many[301];
	for (unsigned i = 0, n = g.of({63u, 64u, 65u, 70u, 300u}); i < n; i++) { names.push_back("S" + std::to_string(i)); many[i] = names.back().c_str(); many[i + 1] = 0; }
	static const char *secs[] = { "ONE", "S2", "THE-LONGEST-SECTION-OF-ALL-OF-THEM", 0 }, *secs6[] = { "a", "b", "c", "d", "e", "f", 0 };
	for (unsigned i = 0; i < na; i++) { const char *n = g.of({"AREA", "B2", "SOME-AREA-WITH-A-LONG-NAME"}); const char **sn = g.chance(50) ? 0 : g.chance(60) ? secs : g.chance(70) ? secs6 : many;
		area.push_back(g.chance(25) ? ::new (edge(sizeof(hogl::area), alignof(hogl::area))) hogl::area(n, sn) : new hogl::area(n, sn)); }
	std::deque<arggen> ags;
	o.f("{\"sd\":%llu,\"suite\":\"%s\",\"how\":%u,\"all\":%d,\"f\":%s,\"caps\":[", (unsigned long long) seed, suite, how, all, fj.c_str());
	for (unsigned i = 0; i < nr; i++) {
		hogl::ringbuf::options ro = { 0, 0, 0, 0 };
		ro.capacity = g.range(2, 12);
		ro.record_tailroom = g.of({0u, 128u, 129u, 200u, 500u, 3000u});
		ro.prio = g.of({0u, 1u, 9999u, 100000u});
		ro.flags = g.of({0u, (unsigned) hogl::ringbuf::SHARED, (unsigned) hogl::ringbuf::REUSABLE}) | hogl::ringbuf::IMMORTAL;
		rname.push_back(g.of({"RR", "DEFAULT", "a-ring-with-quite-a-long-name-to-print"}) + std::string(g(2), 'x'));
		hogl::ringbuf *r;
		if (g.chance(30)) {
			// at the end of a page, with nothing behind it
			char *m = (char *) mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
			mprotect(m + 4096, 4096, PROT_NONE);
			size_t al = alignof(hogl::ringbuf);
			r = ::new (m + (g.chance(20) ? 0 : (4096 - sizeof(hogl::ringbuf)) / al * al)) hogl::ringbuf(rname[i].c_str(), ro);
		} else if (g.chance(20)) {
			static union slot { char b[sizeof(hogl::ringbuf)]; long long x; slot() { } } mem[4];
			r = ::new (&mem[i]) hogl::ringbuf(rname[i].c_str(), ro);
		} else r = new hogl::ringbuf(rname[i].c_str(), ro);
		r->hold();
		if (g.chance(50)) r->timesource(g(2) ? &fake : &fake2); else { fake.timestamp(); r->timesource(&fake); }
		ring.push_back(r);
		o.f("%s%u", i ? "," : "", ro.capacity);
	}
	std::vector<hogl::output *> outs;
	hogl::format_basic text(fields.c_str());
	for (unsigned i = 0; i < no; i++) {
		unsigned cap = g.of({100000u, 65536u});
		outs.push_back(g.chance(25) ? ::new (edge(sizeof(hogl::output_plainfile), alignof(hogl::output_plainfile))) hogl::output_plainfile("/dev/null", text, cap) : new hogl::output_plainfile("/dev/null", text, cap));
	}
	std::vector<std::string> obuf(no);
	o += "],\"ops\":[";
	std::vector<rinfo> recs;
	now = 1500000000000000000ull + g.next() % 100000000000000000ull;
	unsigned nops = g(40), tie = g.of({0u, 20u, 60u, 100u}), back = g.chance(25);
	bool first = true;
	auto op = [&](const char *k, unsigned r, int rec) { o.f("%s{\"k\":\"%s\",\"r\":%u,\"q\":%d}", first ? "" : ",", k, r + 1, rec + 1); first = false; };
	auto fill = [&](arggen &ag) {
		if (g(3)) { if (lit && g.chance(20)) { const char *l = lits[g(4)]; ag.add("gstr", (uint64_t) l, 8, l, hogl::arg(hogl::arg_gstr(l))); ag.number(0); ag.str(ag.word(g(10))); } else ag.fmt(g(4)); }
		else { unsigned m = g.chance(20) ? g(17) : g(5); for (unsigned j = 0; j < m; j++) { unsigned x = g(10); if (x < 4) ag.number(); else if (x < 5) ag.raw(); else if (x < 6) ag.xdump(); else if (x < 8) { const char *p = ag.cstr(ag.word(g(10))); ag.add("gstr", (uint64_t) p, 8, p, hogl::arg(hogl::arg_gstr(p))); } else ag.str(ag.word(g(10))); } }
	};
	for (unsigned i = 0; i < nops; i++) {
		unsigned r = g(nr), k = g(100);
		if (!g.chance(tie)) now += g(100000);
		if (back && g.chance(20)) now -= g(300000);
		if (k < 65) {
			ags.emplace_back(g); fill(ags.back());
			unsigned a = g(na), s = g.chance(95) ? g(area[a]->size()) : g(4096);
			hogl::record *slot = ring[r]->push_begin();
			if (g(2)) hogl::push(ring[r], area[a], s, ARGS16(ags.back())); else hogl::push_unlocked(ring[r], area[a], s, ARGS16(ags.back()));
			recs.push_back(look(slot)); op("push", r, recs.size() - 1);
		} else if (k < 85) {
			for (unsigned m = g(5); m && ring[r]->pop_begin(); m--) { ring[r]->pop_commit(); op("pop", r, -1); }
		} else if (k < 92) {
			if (!ring[r]->room()) continue;
			hogl::record *slot = ring[r]->push_begin();
			unsigned ty = g.of({0u, 1u, 0u, 7u});
			slot->special(ty, g.next(), g.next());
			slot->seqnum = ring[r]->inc_seqnum(); slot->timestamp = ring[r]->timestamp();
			recs.push_back(look(slot, "SPECIAL", ty == 0 ? "FLUSH" : ty == 1 ? "TIMESOURCE_CHANGE" : "INVALID"));
			ring[r]->push_commit(); op("push", r, recs.size() - 1);
		} else if (no) {
			unsigned b = g(no);
			hogl::record *h = ring[r]->pop_begin();
			if (h && !h->special() && g(3)) { hogl::format::data d; d.ring_name = ring[r]->name(); d.record = h; strbuf sb; hogl::format_basic f2(fields.c_str());
				outs[b]->get_ostrbuf()->size(); unsigned s0 = outs[b]->get_ostrbuf()->size(); outs[b]->process(d);
				obuf[b] += std::string((const char *) outs[b]->get_ostrbuf()->head() + s0, outs[b]->get_ostrbuf()->size() - s0); }
			else { outs[b]->flush(); obuf[b].clear(); }
		}
	}
	// writing
	for (unsigned r = 0; r < nr; r++) if (g.chance(40)) {
		ags.emplace_back(g); fill(ags.back());
		if (g(2)) { hogl::record *q = hogl::post_impl::begin_unlocked(ring[r], area[0], 0); if (g(2)) q->set_args(ring[r]->record_tailroom(), ARGS16(ags.back())); if (g.chance(20)) q->area = (hogl::area *) 0x10; }
		else { hogl::record *q = ring[r]->push_begin(); if (g(2)) q->argtype = g.next(); if (g(2)) q->area = (hogl::area *) g.next(); }
	}
	std::vector<uint64_t> ts; for (auto &q : recs) ts.push_back(q.ts);
	std::sort(ts.begin(), ts.end()); ts.erase(std::unique(ts.begin(), ts.end()), ts.end());
	o += "],\"recs\":[";
	for (size_t i = 0; i < recs.size(); i++) {
		rinfo &q = recs[i];
		o.f("%s{\"k\":%d,\"sp\":%d,\"ts\":", i ? "," : "", (int) (std::lower_bound(ts.begin(), ts.end(), q.ts) - ts.begin()), q.special).bytes(&q.ts, 8);
		o += ",\"seq\":"; o.bytes(&q.seq, 8);
		o += ",\"area\":"; o.bytes(q.head.data(), q.head.size());
		o += ",\"sect\":"; o.bytes(q.sect.data(), q.sect.size());
		o += ",\"body\":"; o.bytes(q.body.data(), q.body.size());
		o += "}";
	}
	o += "],\"rings\":[";
	for (unsigned r = 0; r < nr; r++) { if (r) o += ","; o.bytes(rname[r].data(), rname[r].size()); }
	o += "],\"bufs\":[";
	for (unsigned b = 0; b < no; b++) { obuf[b] = noaddr(obuf[b]); if (b) o += ","; o.bytes(obuf[b].data(), obuf[b].size()); }
	// image
	{
		image im(how == 0 || (how == 3 && lit));
		if (how == 3) im.split(g, 1 + g(40));
		im.write("core");
	}
	std::vector<std::string> av;
	if (all) av.push_back("-a");
	av.push_back("-f"); av.push_back(fields); av.push_back("core");
	if (how == 2) av.push_back(self);
	std::string pre, rec;
	int rc = recovered(av, all, pre, rec);
	o.f("],\"rc\":%d,\"pre\":", rc).bytes(pre.data(), pre.size());
	o += ",\"out\":"; o.bytes(rec.data(), rec.size()); o += "}";
	if (!getenv("KEEP")) unlink("core");
}

// every image is of a fresh process
static void one(const char *suite, uint64_t seed, hl::text &o)
{
	unlink("line");
	pid_t p = fork();
	if (!p) {
		alarm(50);
		hl::text t; scene(suite, seed, t);
		int fd = open("line", O_CREAT | O_TRUNC | O_WRONLY, 0644);
		size_t k = 0;
		while (k < t.size()) { ssize_t n = write(fd, t.data() + k, t.size() - k); if (n <= 0) break; k += n; }
		_exit(0);
	}
	int st; waitpid(p, &st, 0);
	if (st) { if (WIFSIGNALED(st)) raise(WTERMSIG(st)); _exit(WEXITSTATUS(st)); }
	o += slurp("line");
}

int main(int argc, char **argv) { static char me[4096]; if (readlink("/proc/self/exe", me, 4095) < 0) return 1; self = me; if (argc > 5) tool = argv[5]; return hl::seq_main(argc, argv, one, 60); }
