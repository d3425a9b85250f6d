// Programs over the public operations, run through the C interface, the C++ interface or a mixture (spec/CApiTrace.tla).
#include "seq.h"
#include "args.h"
#include "asts.h"
#include <condition_variable>
#include <functional>
#include <map>
#include <mutex>
#include <thread>
#include <algorithm>
#include <glob.h>
#include <time.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include "hogl/engine.hpp"
#include "hogl/area.hpp"
#include "hogl/mask.hpp"
#include "hogl/post.hpp"
#include "hogl/flush.hpp"
#include "hogl/tls.hpp"
#include "hogl/format-basic.hpp"
#include "hogl/output-file.hpp"
#include "hogl/output-plainfile.hpp"
#include "hogl/output-pipe.hpp"
#include "hogl/output-stdout.hpp"
#include "hogl/output-stderr.hpp"
#include "hogl/c-api/area.h"
#include "hogl/c-api/mask.h"
#include "hogl/c-api/format.h"
#include "hogl/c-api/output.h"
#include "hogl/c-api/engine.h"
#include "hogl/c-api/tls.h"
#include "hogl/c-api/post.h"
#include "capi.h"

// sizes of the writes to outputs
static std::vector<size_t> *writes;
extern "C" {
ssize_t __real_writev(int, const struct iovec *, int);
ssize_t __wrap_writev(int fd, const struct iovec *v, int n) { ssize_t r = __real_writev(fd, v, n); if (writes) writes->push_back(r); return r; }
}

// ---- lists of arguments (capi_x.cc)
typedef void part_fn(int what, unsigned n, hl::text &o, void **a, unsigned *s, const cvals *v, unsigned *ev);
part_fn part0, part1, part2, part3, part4, part5, part6, part7;
static part_fn *parts[] = { part0, part1, part2, part3, part4, part5, part6, part7 };
#define L(n, ...)
#include "lists.h"
#undef L

// ---- threads that perform operations in turn
struct worker {
	std::mutex m; std::condition_variable c; std::function<void()> f; bool busy = false, quit = false; std::thread t;
	void start() { if (!t.joinable()) t = std::thread([this] { std::unique_lock<std::mutex> l(m); for (;;) { c.wait(l, [this] { return busy || quit; }); if (quit) return; f(); busy = false; c.notify_all(); } }); }
	void run(std::function<void()> g) { start(); std::unique_lock<std::mutex> l(m); f = g; busy = true; c.notify_all(); c.wait(l, [this] { return !busy; }); }
	void stop() { if (!t.joinable()) return; { std::lock_guard<std::mutex> l(m); quit = true; c.notify_all(); } t.join(); quit = false; }
};
static void tick() { timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a); do clock_gettime(CLOCK_MONOTONIC, &b); while ((b.tv_sec - a.tv_sec) * 1000000000l + b.tv_nsec - a.tv_nsec < 2000); }

struct fields { const char *text; std::vector<std::string> set; int strip; };
static const fields FIELDS[] = {   // strip: 1 date and time, 2 also the difference, 3 seconds, 4 seconds and the difference
	{ "ring,seqnum,area,section", { "ring", "seqnum", "area", "section" }, 0 }, { "area|section|seqnum|ring", { "ring", "seqnum", "area", "section" }, 0 },
	{ "ring,area", { "ring", "area" }, 0 }, { "seqnum,section", { "seqnum", "section" }, 0 }, { "area", { "area" }, 0 }, { "section", { "section" }, 0 }, { "ring", { "ring" }, 0 },
	{ "seqnum", { "seqnum" }, 0 }, { "none", { }, 0 }, { "", { }, 0 }, { 0, { "ring", "seqnum", "area", "section" }, 1 }, { "default", { "ring", "seqnum", "area", "section" }, 1 },
	{ "timestamp,timedelta,area", { "area" }, 2 }, { "timestamp|ring|seqnum", { "ring", "seqnum" }, 1 }, { "fast0", { "ring", "seqnum", "area", "section" }, 3 }, { "fast1", { "ring", "seqnum", "area", "section" }, 4 },
	{ "ring|seqnum|area|section", { "ring", "seqnum", "area", "section" }, 0 }, { "ring,seqnum,area,section", { "ring", "seqnum", "area", "section" }, 0 } };

static bool digits(const std::string &s, size_t &p, size_t n) { size_t q = p; while (p < s.size() && isdigit(s[p])) p++; return n ? p - q == n : p > q; }
static bool chr(const std::string &s, size_t &p, char c) { if (p >= s.size() || s[p] != c) return false; p++; return true; }
static std::string strip_line(const std::string &s, int how)
{
	size_t p = 0; bool ok = true;
	if (how == 1 || how == 2) ok = digits(s, p, 8) && chr(s, p, ' ') && digits(s, p, 2) && chr(s, p, ':') && digits(s, p, 2) && chr(s, p, ':') && digits(s, p, 2) && chr(s, p, '.') && digits(s, p, 9) && chr(s, p, ' ');
	if (how == 3 || how == 4) ok = digits(s, p, 0) && chr(s, p, '.') && digits(s, p, 9) && chr(s, p, ' ');
	if (ok && (how == 2 || how == 4)) ok = chr(s, p, '(') && digits(s, p, 0) && chr(s, p, ')') && chr(s, p, ' ');
	return ok ? s.substr(p) : "?" + s;
}
static std::string strip(const std::string &s, int how)
{
	if (!how) return s;
	std::string r; size_t p = 0;
	while (p < s.size()) { size_t e = s.find('\n', p); e = e == s.npos ? s.size() : e + 1; r += strip_line(s.substr(p, e - p), how); p = e; }
	return r;
}
static std::string slurp(const std::string &f) { std::string s; FILE *h = fopen(f.c_str(), "r"); if (!h) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof(b), h)) > 0) s.append(b, n); fclose(h); return s; }

enum { PLAIN, FILE_, PIPE, OUT, ERR };
static const char *kinds[] = { "plain", "file", "pipe", "stdout", "stderr" };
struct outp { hogl_output_t o; int kind; std::string name; int strip; size_t size; unsigned count, perms; bool open; unsigned grew; size_t last; };
struct chunk { unsigned idx, width, mode; std::string data; };
static std::vector<chunk> chunks(const outp &o)   // in the order they were written
{
	std::vector<chunk> r; glob_t g;
	if (glob((o.name + ".*.log").c_str(), 0, 0, &g)) return r;
	for (size_t i = 0; i < g.gl_pathc; i++) {
		std::string s(g.gl_pathv[i]); s = s.substr(o.name.size() + 1, s.size() - o.name.size() - 5);
		struct stat st; stat(g.gl_pathv[i], &st);
		r.push_back({ (unsigned) atoi(s.c_str()), (unsigned) s.size(), st.st_mode & 07777u, slurp(g.gl_pathv[i]) });
	}
	globfree(&g);
	std::sort(r.begin(), r.end(), [](const chunk &a, const chunk &b) { return a.idx < b.idx; });
	char l[256]; ssize_t n = readlink((o.name + ".log").c_str(), l, sizeof(l) - 1); if (n < 0) n = 0; l[n] = 0;
	unsigned cur = n ? atoi(l + o.name.size() + 1) : 0;
	std::vector<chunk> q; for (auto &c : r) if (c.idx > cur) q.push_back(c);
	for (auto &c : r) if (c.idx <= cur) q.push_back(c);
	return q;
}
static std::string content(const outp &o)
{
	if (o.kind != FILE_) return strip(slurp(o.name), o.strip);
	std::string s; for (auto &c : chunks(o)) s += c.data;
	return strip(s, o.strip);
}

struct program {
	hl::prng g, gl; int mode; bool twin; hl::text o; unsigned long rngs = 0;   // mode: 0 mixture, 1 C, 2 C++
	struct ar { hogl_area_t p; std::string name; std::vector<std::string> secs; }; std::vector<ar> areas;
	struct mk { hogl_mask_t p; unsigned id; }; std::vector<mk> masks; unsigned nmask = 0;
	struct tl { hogl_tls_t p; bool c; unsigned ring; }; std::vector<tl> tls[3]; unsigned nring = 0;
	std::vector<outp> outs; worker w[3]; cvals v; int more = 0; std::deque<std::string> keep; std::vector<hogl_format_t> fmts; std::vector<size_t> wr; unsigned cur = 0; bool tso = true;
	unsigned nops = 0;

	program(uint64_t sd, int mode, bool twin) : g(sd * 3 + 1), gl(sd * 5 + 2), mode(mode), twin(twin) { memset(&v, 0, sizeof(v)); }
	bool C() { bool r = gl(2); return mode == 0 ? r : mode == 1; }
	hl::text &ev(const char *op) { if (nops++) o += ","; return o.f("{\"o\":\"%s\"", op); }
	void bits()
	{
		o += ",\"bits\":[";
		for (size_t i = 0; i < areas.size(); i++) {
			o += i ? ",[" : "["; bool c = C();
			for (size_t s = 0; s < areas[i].secs.size(); s++) o.f("%s%d", s ? "," : "", (int) (c ? hogl_area_test(areas[i].p, s) : ((const hogl::area *) areas[i].p)->test(s)));
			o += "]";
		}
		o += "]";
	}
	void end() { bits(); o += "}"; }
	void rule_list(const std::vector<rule> &r) { o += "["; for (size_t i = 0; i < r.size(); i++) { if (i) o += ","; o += r[i].json; } o += "]"; }
	rule any_rule()
	{
		std::vector<std::string> an, sn; for (auto &a : areas) { an.push_back(a.name); for (auto &s : a.secs) sn.push_back(s); }
		rule r;
		do r = rule_gen(g, an, sn); while (r.text.empty());   // the constructor of C++ ends its list at an empty rule
		return r;
	}
	rule quiet() { rex h = rex_lit("HOGL"), all = { "{\"k\":\"all\"}", ".*" }; return { "{\"neg\":true,\"form\":\"as\",\"a\":" + h.json + ",\"b\":" + all.json + "}", "!HOGL:.*" }; }
	void values()
	{
		auto b = [&]() -> uint64_t { switch (g(6)) { case 0: return g(10); case 1: return ~0ull - g(3); case 2: return 1ull << g(64); case 3: return 0x80000000ull + g(3) - 1; default: return g.next(); } };
		v.b = g(2); v.c = (char) b(); v.sc = b(); v.uc = b(); v.sh = b(); v.us = b(); v.i = b() & 0x3fffffff; if (g(2)) v.i = -v.i; v.ci = b(); v.u = b(); v.l = b(); v.ul = b(); v.ll = b(); v.ull = b();
		v.i8 = b(); v.u8 = b(); v.i16 = b(); v.u16 = b(); v.i32 = b(); v.u32 = b(); v.i64 = b(); v.u64 = b(); v.z = b();
		auto k = [&] { long x = (long) g(131072) - 65536; if (g(2)) x &= ~63l; return x / 64.0; };
		v.f = k(); v.d = k(); v.p = (void *) b(); v.ip = (int *) (g(10) ? b() : 0); v.sp = (cvals *) b(); v.vp = (volatile int *) b(); v.dp = (double *) b();
		auto s = [&] { std::string x; unsigned n = g(8) ? 1 + g(12) : g(60); for (unsigned i = 0; i < n; i++) x += "abcdefghijXYZ 0189._-"[g(21)]; keep.push_back(x.empty() ? "q" : x); return &keep.back()[0]; };
		v.more = &more; v.s = s(); v.cs = s(); v.t = s(); v.nul = g(2) ? 0 : s(); v.us8 = (const unsigned char *) s();
	}

	hogl_format_t format(int &strip, std::vector<std::string> &set)
	{
		unsigned k; do k = g(sizeof(FIELDS) / sizeof(FIELDS[0])); while (twin && FIELDS[k].strip % 2 == 0 && FIELDS[k].strip);   // differences of times vary in length
		const fields &f = FIELDS[k]; strip = f.strip; set = f.set;
		hogl_format_t r = C() ? hogl_new_format_basic(f.text) : (hogl_format_t) static_cast<hogl::format *>(f.text ? new hogl::format_basic(f.text) : new hogl::format_basic());
		fmts.push_back(r); return r;
	}
	void output()
	{
		outp n = {}; std::vector<std::string> set;
		hogl_format_t f = format(n.strip, set); hogl::format &ff = *(hogl::format *) f;
		n.kind = g.of({PLAIN, PLAIN, PLAIN, FILE_, FILE_, FILE_, FILE_, PIPE, OUT, ERR}); n.open = true;
		if (twin && n.kind > FILE_) n.kind = FILE_;
		for (auto &x : outs) if (x.kind == n.kind && n.kind >= OUT) n.kind = PLAIN;
		n.name = n.kind == OUT ? "so" : n.kind == ERR ? "se" : "o" + std::to_string(outs.size());
		bool c = C();
		ev("out").f(",\"kind\":\"%s\",\"f\":[", kinds[n.kind]); for (size_t i = 0; i < set.size(); i++) o.f("%s\"%s\"", i ? "," : "", set[i].c_str()); o += "]";
		hogl::output *p = 0;
		switch (n.kind) {
		case PLAIN: if (c) n.o = hogl_new_output_plainfile(n.name.c_str(), f); else p = new hogl::output_plainfile(n.name.c_str(), ff); break;
		case PIPE: { std::string cmd = "cat > " + n.name + ".t && mv " + n.name + ".t " + n.name; if (c) n.o = hogl_new_output_pipe(cmd.c_str(), f); else p = new hogl::output_pipe(cmd.c_str(), ff); } break;
		case OUT: if (c) n.o = hogl_new_output_stdout(f); else p = new hogl::output_stdout(ff); break;
		case ERR: if (c) n.o = hogl_new_output_stderr(f); else p = new hogl::output_stderr(ff); break;
		case FILE_: {
			std::string nm = n.name + ".#.log"; bool dflt = g.chance(20);
			cfopts fo = { g.of({0666u, 0600u, 0644u, 0640u, 0666u}), g.of<size_t>({100, 300, 1000, 3000, 100000, (1ull << 32) + 100, (1ull << 33) + 300}), g.of({3u, 9u, 11u, 100u, 101u, 500u, 2000u}), g.of({1u, 40u, 100u, 1000u, 8192u}), 0, 0, g(2) ? "" : (const char *) 0 };
			if (twin) fo.size = 10000000;
			if (dflt) { n.perms = hogl::output_file::default_options.perms; n.size = hogl::output_file::default_options.max_size; n.count = hogl::output_file::default_options.max_count; if (c) n.o = hogl_new_output_file(nm.c_str(), f, 0); else p = new hogl::output_file(nm.c_str(), ff); }
			else {
				n.perms = fo.perms; n.size = fo.size; n.count = fo.count;
				if (c) n.o = c_file(nm.c_str(), f, &fo);
				else { hogl::output_file::options xo = hogl::output_file::default_options; xo.perms = fo.perms; xo.max_size = fo.size; xo.max_count = fo.count; xo.buffer_capacity = fo.cap; xo.schedparam = new hogl::schedparam(0, 0, hogl::schedparam::DELETE_ON_EXIT, ""); p = new hogl::output_file(nm.c_str(), ff, xo); }
			}
		} break;
		}
		if (p) n.o = (hogl_output_t) p;
		o.f(",\"ok\":%d", n.o != 0); end();
		outs.push_back(n); cur = outs.size() - 1;
	}
	void bad_output()   // creation that must fail
	{
		int strip; std::vector<std::string> set; hogl_format_t f = format(strip, set); hogl::format &ff = *(hogl::format *) f;
		bool c = C(), failed = false; int k = g(2), e = dup(2), z = open("/dev/null", O_WRONLY); dup2(z, 2); close(z);
		if (c) failed = !(k ? hogl_new_output_plainfile("no/such/dir", f) : hogl_new_output_file("no/such/dir.#.log", f, 0));
		else { try { if (k) new hogl::output_plainfile("no/such/dir", ff); else new hogl::output_file("no/such/dir.#.log", ff); } catch (const std::exception &) { failed = true; } }
		dup2(e, 2); close(e);
		ev("badout").f(",\"failed\":%d", failed); end();
	}
	void close_output(unsigned k) { if (!outs[k].open) return; if (C()) hogl_delete_output(outs[k].o); else delete (hogl::output *) outs[k].o; outs[k].open = false; }

	void activate()
	{
		bool c = C(), none = g.chance(25); std::vector<rule> r; bool dm = g.chance(65); unsigned n = g(4);
		copts co = { g.chance(25) ? 1u : 0u, g.of({500u, 1000u, 3000u}), g.of({1024u, 2048u, 5000u}), 0, 0, 0, g(2) ? (const char *) 0 : g(2) ? "" : g(2) ? "0xffffffffffffffff" : "list:0-255" };   // never fails, so that the engine posts nothing on its own
		hogl::mask dmask; if (dm) { for (unsigned i = 0; i < n; i++) r.push_back(any_rule()); }
		const hogl::engine::options &D = hogl::engine::default_options;
		if (none) { co.feats = D.features; co.poll = D.polling_interval_usec; co.tso = D.tso_buffer_capacity; dm = false; r.clear(); }
		if (none) { if (c) hogl_activate(outs[cur].o, 0); else hogl::activate(*(hogl::output *) outs[cur].o); }
		else {
			for (auto &x : r) dmask << x.text;
			if (c) { hogl_mask_t m = dm ? (hogl_mask_t) new hogl::mask(dmask) : 0; co.mask = m; c_activate(outs[cur].o, &co); if (m) { if (gl(2)) hogl_delete_mask(m); else delete (hogl::mask *) m; } }
			else {
				hogl::engine::options eo = D; eo.features = co.feats; eo.polling_interval_usec = co.poll; eo.tso_buffer_capacity = co.tso; if (dm) eo.default_mask = dmask;
				eo.schedparam = new hogl::schedparam(co.policy, co.prio, hogl::schedparam::DELETE_ON_EXIT, co.aff ? co.aff : "");
				hogl::activate(*(hogl::output *) outs[cur].o, eo);
			}
		}
		tso = !(co.feats & 1);
		ev("act").f(",\"out\":%u,\"none\":%d,\"dm\":%d,\"rules\":", cur + 1, none, dm); rule_list(r);
		const hogl::engine::options &G = hogl::default_engine->get_options();
		bool aff = none ? G.schedparam == D.schedparam : G.schedparam && G.schedparam->cpu_affinity == (co.aff ? co.aff : "") && G.schedparam->policy == co.policy && G.schedparam->priority == co.prio && (G.schedparam->flags & hogl::schedparam::DELETE_ON_EXIT);
		o.f(",\"want\":[%u,%u,%u,1],\"got\":[%u,%u,%u,%d]", co.feats, co.poll, co.tso, G.features, G.polling_interval_usec, G.tso_buffer_capacity, aff);
		hogl::area *ia = (hogl::area *) hogl::default_engine->internal_area();
		if (C()) hogl_area_reset_all((hogl_area_t) ia); else ia->reset();
		end();
	}
	void add_area()
	{
		std::string name; std::vector<std::string> secs; bool dflt = g.chance(25), again = areas.size() && g.chance(15);
		static const char *D[] = { "INFO", "WARN", "ERROR", "FATAL", "DEBUG", "TRACE" };
		name = name_gen(g, false);
		unsigned n = g.chance(7) ? g.range(60, 70) : g.range(1, 7);
		for (unsigned i = 0; i < n; i++) secs.push_back(g(6) ? name_gen(g, true) : D[g(6)]);
		if (dflt) secs.assign(D, D + 6);
		if (again) { const ar &a = areas[g(areas.size())]; name = a.name; if (g(3)) { secs = a.secs; dflt = false; } }
		const char *sp[80]; for (size_t i = 0; i < secs.size(); i++) sp[i] = secs[i].c_str(); sp[secs.size()] = 0;
		bool c = C();
		hogl_area_t p = c ? hogl_add_area(name.c_str(), dflt ? 0 : sp) : (hogl_area_t) hogl::add_area(name.c_str(), dflt ? 0 : sp);
		unsigned id = 0; for (size_t i = 0; i < areas.size(); i++) if (areas[i].p == p) id = i + 1;
		bool fresh = p && !id;
		ev("area").f(",\"id\":%u,\"fresh\":%d,\"nm\":%s,\"name\":", id, fresh, chars(name).c_str()).bytes(name.data(), name.size());
		o += ",\"secs\":["; for (size_t i = 0; i < secs.size(); i++) { if (i) o += ","; o += chars(secs[i]); }
		o += "],\"sb\":["; for (size_t i = 0; i < secs.size(); i++) { if (i) o += ","; o.bytes(secs[i].data(), secs[i].size()); } o += "]";
		if (fresh) areas.push_back({ p, name, secs });
		end();
	}
	void area_op()
	{
		if (areas.empty()) return;
		unsigned k = g(areas.size()), s = g(areas[k].secs.size()), x = g(8); hogl_area_t p = areas[k].p; hogl::area *a = (hogl::area *) p; bool c = C();
		if (g(4) == 0) s = areas[k].secs.size() - 1;
		const char *n = x < 4 ? "set" : x < 6 ? "reset" : x < 7 ? "setall" : "resetall";
		if (x < 4) { if (c) hogl_area_set(p, s); else a->set(s); } else if (x < 6) { if (c) hogl_area_reset(p, s); else a->reset(s); }
		else if (x < 7) { if (c) hogl_area_set_all(p); else a->set(); } else { if (c) hogl_area_reset_all(p); else a->reset(); }
		ev(n).f(",\"k\":%u,\"s\":%u", k + 1, s + 1); end();
	}
	void mask_op()
	{
		unsigned x = g(10);
		if (masks.empty() || x < 2) {
			unsigned n = g(5); std::vector<rule> r; for (unsigned i = 0; i < n; i++) r.push_back(any_rule());
			const char *s[4]; for (unsigned i = 0; i < n; i++) s[i] = r[i].text.c_str();
			hogl_mask_t m; if (C()) m = c_mask(n, s); else { hogl::mask *h = n == 0 ? new hogl::mask() : n == 1 ? new hogl::mask(s[0], (char *) 0) : n == 2 ? new hogl::mask(s[0], s[1], (char *) 0) : n == 3 ? new hogl::mask(s[0], s[1], s[2], (char *) 0) : new hogl::mask(s[0], s[1], s[2], s[3], (char *) 0); m = (hogl_mask_t) h; }
			masks.push_back({ m, ++nmask }); ev("mnew").f(",\"m\":%u,\"rules\":", nmask); rule_list(r); end(); return;
		}
		unsigned k = g(masks.size()); mk &m = masks[k]; bool c = C();
		auto add = [&](const rule &r) { if (C()) hogl_mask_add(m.p, r.text.c_str()); else *(hogl::mask *) m.p << r.text; ev("madd").f(",\"m\":%u,\"rules\":[", m.id); o += r.json; o += "]"; end(); };
		if (x < 4) add(any_rule());
		else if (x < 5) { if (c) hogl_mask_clear(m.p); else ((hogl::mask *) m.p)->clear(); ev("mclr").f(",\"m\":%u", m.id); end(); }
		else if (x < 9) { add(quiet()); if (c) hogl_apply_mask(m.p); else hogl::apply_mask(*(hogl::mask *) m.p); ev("mapply").f(",\"m\":%u", m.id); end(); }
		else { if (c) hogl_delete_mask(m.p); else delete (hogl::mask *) m.p; masks.erase(masks.begin() + k); }
	}
	void new_tls(unsigned t)
	{
		std::string name = "R" + std::to_string(++nring); unsigned cap = g.of({64u, 100u, 128u, 1000u, 1024u}), prio = g(5), tail = g.of({0u, 80u, 128u, 129u, 200u, 500u}); bool c = C(), c2 = C();
		hogl::ringbuf::options ro = {}; ro.capacity = cap; ro.prio = prio; ro.record_tailroom = tail ? tail : 80; ro.flags = 0;
		hogl::ringbuf *ref = new hogl::ringbuf("ref", ro); ref->hold(); 
		ev("tls");
		w[t].run([&] {
			hogl_tls_t p = c ? c_tls(name.c_str(), cap, prio, tail) : (hogl_tls_t) new hogl::tls(name.c_str(), ro);
			tls[t].push_back({ p, c2, nring });
			hogl::ringbuf *r = hogl::tls::ring();
			o.f(",\"want\":[\"%s\",%u,%u,%u,%u,1],\"got\":[\"%s\",%u,%u,%u,%u,%d]", name.c_str(), ref->capacity(), ref->prio(), ref->record_tailroom(), (unsigned) ref->shared() * 4 + ref->reusable() * 2 + ref->immortal(),
				r->name(), r->capacity(), r->prio(), r->record_tailroom(), (unsigned) r->shared() * 4 + r->reusable() * 2 + r->immortal(), (int) (p && ((hogl::tls *) p)->valid()));
		});
		ref->release(); end();
	}
	void del_tls(unsigned t)
	{
		if (tls[t].empty()) return;
		tl x = tls[t].back(); tls[t].pop_back(); ev("untls");
		w[t].run([&] { if (x.c) hogl_delete_tls(x.p); else delete (hogl::tls *) x.p; hogl::ringbuf *r = hogl::tls::ring(); std::string n = tls[t].empty() ? "DEFAULT" : "R" + std::to_string(tls[t].back().ring); o.f(",\"want\":[\"%s\"],\"got\":[\"%s\"]", n.c_str(), r->name()); });
		end();
	}
	void post(unsigned t)
	{
		if (areas.empty()) return;
		unsigned k = g(areas.size()), n = areas[k].secs.size(), s = g(n), l = g(LISTS), how = gl(3); hogl_area_t p = areas[k].p; hogl::area *a = (hogl::area *) p;
		for (unsigned i = 0; i < n && g(8) && !a->test(s); i++) s = (s + 1) % n;
		values(); if (mode == 1) how = 0; if (mode == 2) how = 1;
		ev("post").f(",\"k\":%u,\"s\":%u", k + 1, s + 1);
		w[t].run([&] {
			tick();
			hogl::ringbuf *r = hogl::tls::ring();
			void *pa[4] = { p, p, p, p }; unsigned sa[4] = { s, (s + 1) % n, s, s }, evals[2] = { 1, 1 };
			more = 70;
			if (how == 0) c_post(pa, sa, l, &v, evals); else parts[l % 8](how, l, o, pa, sa, &v, evals);
			o.f(",\"ring\":").bytes(r->name(), strlen(r->name())).f(",\"tail\":%u,\"ev\":[%u,%u],\"as\":[", r->record_tailroom(), evals[0], evals[1]);
			more = 70;
			parts[l % 8](0, l, o, 0, 0, &v, 0);
			tick();
		});
		o += "]}";
		if (twin) flush(t);
	}
	void flush(unsigned t)
	{
		bool c = C(); outp &x = outs[cur];
		w[t].run([&] { tick(); if (c) hogl_flush(); else hogl::flush(); hogl::ringbuf *r = hogl::tls::ring(); ev("flush").f(",\"ring\":").bytes(r->name(), strlen(r->name())); });
		long n = -1, rot = 1;
		if (x.kind != PIPE && x.kind != OUT) {
			n = content(x).size();
			if (x.kind == FILE_ && !twin) {
				std::vector<chunk> q = chunks(x);
				if (q.size() == 1 && q[0].data.size() >= x.size && q[0].data.size() > x.last) {
					x.last = q[0].data.size();
					if (++x.grew == 2) { rot = 0; for (int i = 0; i < 5000 && !rot; i++) { usleep(2000); rot = chunks(x).size() > 1; } }
				}
				n = x.count > 400 ? (long) content(x).size() : -1;
			}
		}
		o.f(",\"n\":%ld,\"rot\":%ld}", n, rot);
	}
	void run(const std::string &dir)
	{
		if (chdir(dir.c_str())) _exit(7);
		umask(0);
		if (twin) writes = &wr;
		unsigned cycles = g.range(1, 3); bool quit = g.chance(10);
		o += "\"ops\":[";
		for (unsigned cy = 0; cy < cycles; cy++) {
			if (g.chance(10)) bad_output();
			std::vector<unsigned> live; for (size_t i = 0; i < outs.size(); i++) if (outs[i].open) live.push_back(i);
			if (live.size() && g.chance(35)) cur = live[g(live.size())]; else output();
			activate();
			unsigned n = g.range(10, twin ? 25 : 50), th = g.range(1, 3); if (!tso) th = 1;
			for (unsigned i = 0; i < n; i++) {
				unsigned x = g(100), t = g(th);
				if (i == 0 || x < 9) add_area(); else if (x < 20) area_op(); else if (x < 34) mask_op();
				else if (x < 42) { if (!tso) { if (i == 1) new_tls(t); } else if (tls[t].size() < 2 && g(3)) new_tls(t); else del_tls(t); }
				else if (x < 50) flush(t); else post(t);
			}
			if (cy + 1 == cycles && quit && outs[cur].kind != PIPE) {   // deactivation at exit
				for (size_t i = 0; i < outs.size(); i++) if (i != cur) close_output(i);
				for (unsigned t = 0; t < 3; t++) while (tls[t].size()) del_tls(t);   // the engine waits for their rings
				finish(); writes = 0; exit(0);
			}
			for (unsigned t = 0; t < 3; t++) { while (tls[t].size()) del_tls(t); w[t].stop(); }
			if (C()) hogl_deactivate(); else hogl::deactivate();
			ev("deact").f(",\"off\":%d}", hogl::default_engine == 0);
			areas.clear();
			if (g.chance(40)) close_output(cur);
		}
		for (size_t i = 0; i < outs.size(); i++) close_output(i);
		for (auto f : fmts) if (C()) hogl_delete_format(f); else delete (hogl::format *) f;
		for (auto &m : masks) if (C()) hogl_delete_mask(m.p); else delete (hogl::mask *) m.p;
		writes = 0; fflush(stdout);
		finish(); _exit(0);
	}
	void finish()
	{
		o += "],\"w\":["; for (size_t i = 0; i < wr.size(); i++) o.f("%s%zu", i ? "," : "", wr[i]); o += "]";
		FILE *f = fopen("ops", "w"); fwrite(o.data(), 1, o.size(), f); fclose(f);
		f = fopen("meta", "w"); for (auto &x : outs) fprintf(f, "%d %s %d %zu %u %u\n", x.kind, x.name.c_str(), x.strip, x.size, x.count, x.perms); fclose(f);
	}
};

static void run1(uint64_t sd, int mode, bool twin, hl::text &o)
{
	std::string dir = std::string("./p") + std::to_string(getpid());
	mkdir(dir.c_str(), 0755);
	pid_t p = fork();
	if (!p) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		int f1 = open((dir + "/so").c_str(), O_CREAT | O_RDWR | O_TRUNC | O_APPEND, 0644), f2 = open((dir + "/se").c_str(), O_CREAT | O_RDWR | O_TRUNC | O_APPEND, 0644);
		int keep = dup(2); (void) keep; dup2(f1, 1); dup2(f2, 2);
		program *q = new program(sd, mode, twin); q->run(dir);
	}
	int st; waitpid(p, &st, 0);
	std::vector<outp> outs;
	if (!st) {
		o += "{" + slurp(dir + "/ops") + ",\"outs\":[";
		FILE *f = fopen((dir + "/meta").c_str(), "r"); char nm[64]; outp x = {};
		if (f) { while (fscanf(f, "%d %63s %d %zu %u %u", &x.kind, nm, &x.strip, &x.size, &x.count, &x.perms) == 6) { x.name = nm; outs.push_back(x); } fclose(f); }
		char cwd[4096]; if (!getcwd(cwd, sizeof(cwd)) || chdir(dir.c_str())) _exit(7);
		for (size_t i = 0; i < outs.size(); i++) {
			outp y = outs[i];
			if (y.kind == OUT) y.name = "so";
			if (y.kind == ERR) y.name = "se";
			if (y.kind == PIPE) for (int k = 0; k < 3000 && access(y.name.c_str(), F_OK); k++) usleep(2000);
			std::string s = content(y);
			o.f("%s{\"kind\":\"%s\",\"c\":", i ? "," : "", kinds[y.kind]).bytes(s.data(), s.size());
			o.f(",\"size\":%u,\"count\":%u,\"perms\":%u,\"chunks\":[", (unsigned) std::min<size_t>(y.size, 1 << 30), y.count, y.perms);
			if (y.kind == FILE_) { bool first = true; for (auto &c : chunks(y)) { o.f("%s[%u,%u,%u,%zu]", first ? "" : ",", c.idx, c.width, c.mode, c.data.size()); first = false; } }
			o += "]}";
		}
		if (chdir(cwd)) _exit(7);
		o += "]}";
	} else fprintf(stderr, "%s\n", slurp(dir + "/se").c_str());
	std::string cmd = "find " + dir + " -delete"; if (system(cmd.c_str())) {}
	if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }
	if (st) _exit(WEXITSTATUS(st));
}

static void one(const char *suite, uint64_t sd, hl::text &o)
{
	bool twin = !strcmp(suite, "twin");
	o.f("{\"sd\":%llu,\"suite\":\"%s\",\"runs\":[", (unsigned long long) sd, suite);
	if (twin) { run1(sd, 1, true, o); o += ","; run1(sd, 2, true, o); }
	else run1(sd, sd % 5 == 3 ? 1 : sd % 5 == 4 ? 2 : 0, false, o);
	o += "]}";
}
int main(int argc, char **argv) { return hl::seq_main(argc, argv, one, 60); }
