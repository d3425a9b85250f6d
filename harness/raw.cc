// Raw logs: written by format_raw, read by the raw parser and by the cook tool (spec/RawCodec.tla).
#include "args.h"
#include <sys/wait.h>
#include <dirent.h>
#include <sys/inotify.h>
#include <signal.h>
#include "hogl/area.hpp"
#include "hogl/detail/ostrbuf.hpp"
#include "hogl/format-basic.hpp"
#include "hogl/format-raw.hpp"
#include "tools/rdbuf.cc"
#include "tools/raw-parser.cc"
#define main cook_main
#include "tools/cook.cc"
#undef main

struct strbuf : public hogl::ostrbuf {
	std::string s;
	strbuf(unsigned c = 0) : ostrbuf(c) { }
	virtual void do_flush(const uint8_t *d, size_t n) { s.append((const char *) _data, _size); reset(); if (n) s.append((const char *) d, n); }
};

// the address of raw data is different after reading
static std::string noaddr(const std::string &s)
{
	std::string r; size_t i = 0;
	while (i < s.size()) {
		size_t j = s.find(" bytes @ 0x", i);
		if (j == std::string::npos) { r += s.substr(i); break; }
		j += 11; r += s.substr(i, j - i); i = j;
		while (i < s.size() && isxdigit((unsigned char) s[i])) i++;
	}
	return r;
}

static std::string slurp(const char *p)
{
	std::string s; char b[65536]; ssize_t n;
	int fd = open(p, O_RDONLY);
	while ((n = read(fd, b, sizeof(b))) > 0) s.append(b, n);
	close(fd);
	return s;
}
static void spit(const char *p, const std::string &s) { int fd = open(p, O_CREAT | O_TRUNC | O_WRONLY, 0644); if (write(fd, s.data(), s.size()) != (ssize_t) s.size()) abort(); close(fd); }

// the same record as version 1.0 had it: sizes of raw data have 16 bits
static std::string v1(const hogl::record &r, const std::string &bin)
{
	std::string o; size_t at = 16;
	for (int i = 0; i < 3; i++) at += 1 + (unsigned char) bin[at];
	at += 8; o = bin.substr(0, at);
	for (unsigned i = 0; i < hogl::record::NARGS; i++) {
		unsigned t = r.get_arg_type(i), n;
		if (t == hogl::arg::NONE) break;
		if (t == hogl::arg::RAW || t == hogl::arg::XDUMP) { memcpy(&n, bin.data() + at, 4); o += bin.substr(at, 2) + bin.substr(at + 4, n); at += 4 + n; continue; }
		if (t == hogl::arg::CSTR || t == hogl::arg::GSTR) { uint16_t w; memcpy(&w, bin.data() + at, 2); n = 2 + w; } else n = hogl::arg::is_32bit(t) ? 4 : 8;
		o += bin.substr(at, n); at += n;
	}
	return o;
}

// the tool reads a file, its standard input (a pipe that delivers the log in pieces) or follows a file that grows in pieces
enum via { FILE_, STDIN_, TAILF_ };
static void pieces(hl::prng &g, int fd, const std::string &s)
{
	for (size_t i = 0; i < s.size(); ) {
		size_t n = std::min(s.size() - i, (size_t) g.of({1u, 10u, 100u, 1000u, 5000u, 70000u}) + g(50));
		ssize_t r = write(fd, s.data() + i, n);
		if (r <= 0) break;
		i += r;
		if (g(2)) usleep(g(200));
	}
}
static int *late;   // executions in which the tool did not show everything in time (shared, because this process may be restarted)
static int ms() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (t.tv_sec & 0xfffff) * 1000 + t.tv_nsec / 1000000; }
static bool watching(pid_t p)
{
	char dir[64]; snprintf(dir, sizeof(dir), "/proc/%d/fdinfo", (int) p);
	DIR *d = opendir(dir);
	if (!d) return false;
	bool is = false;
	while (struct dirent *e = readdir(d)) if (e->d_name[0] != '.' && slurp((std::string(dir) + "/" + e->d_name).c_str()).find("inotify wd:") != std::string::npos) is = true;
	closedir(d);
	return is;
}
static int cook(hl::prng &g, via how, const std::string &file, const char *fmt, unsigned min, unsigned max, bool v1, const std::string &expect, std::string &out)
{
	int pf[2] = { -1, -1 };
	if (how == TAILF_) { int fd = inotify_init(); if (fd < 0 || inotify_add_watch(fd, ".", IN_MODIFY) < 0) how = FILE_; close(fd); }   // the system has none
	spit("cooked", "");
	if (how == TAILF_) { std::string old; for (unsigned i = g(3) ? g(40) : 0; i; i--) old += (char) g(256); spit("rawlog", old); }   // what is there already is not shown
	if (how == STDIN_ && pipe(pf)) abort();
	pid_t p = fork();
	if (!p) {
		int o = open("cooked", O_CREAT | O_TRUNC | O_WRONLY, 0644), e = open("/dev/null", O_WRONLY);
		dup2(o, 1); dup2(e, 2);
		if (how == STDIN_) { dup2(pf[0], 0); close(pf[0]); close(pf[1]); }
		char m[16], M[16]; snprintf(m, sizeof(m), "%u", min); snprintf(M, sizeof(M), "%u", max);
		const char *av[] = { "hogl-cook", "-R", m, "-M", M, "-f", fmt, "-v", v1 ? "1.0" : "1.1", how == STDIN_ ? "-" : "rawlog", how == TAILF_ ? "-t" : 0, 0 };
		alarm(18);
		if (how == TAILF_) setvbuf(stdout, 0, _IOLBF, 0);   // as on a terminal
		int r = cook_main(how == TAILF_ ? 11 : 10, (char **) av);
		fflush(stdout);
		_exit(r);
	}
	int st;
	if (how == STDIN_) { close(pf[0]); pieces(g, pf[1], file); close(pf[1]); }
	if (how == TAILF_) {
		const int patience = *late > 1 ? 300 : 14000;   // in ms; be patient, but not for long with a tool that shows nothing
		int w0 = ms();
		while (ms() - w0 < patience && !watching(p)) usleep(500);
		int fd = open("rawlog", O_WRONLY | O_APPEND);
		pieces(g, fd, file);
		bool ended = false, all = false;
		while (!ended && !all && ms() - w0 < patience) {
			usleep(300);
			ended = waitpid(p, &st, WNOHANG) == p;
			out = slurp("cooked");
			all = out.size() >= expect.size() && noaddr(out) == expect;
		}
		close(fd);
		if (!ended && !all) ++*late;
		if (!ended) { usleep(g(3) ? 0 : 2000); kill(p, SIGKILL); waitpid(p, &st, 0); out = slurp("cooked"); return 0; }
	} else waitpid(p, &st, 0);
	out = slurp("cooked");
	return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}

static void one(const char *suite, uint64_t seed, hl::text &o)
{
	hl::prng g(seed);
	setenv("TZ", "UTC0", 1); tzset();
	bool dmg = !strcmp(suite, "rawdmg");
	static const char *secs[] = { "ONE", "S2", "THE-LONGEST-SECTION-OF-ALL-OF-THEM", 0 };
	const char *an[] = { "AREA", "B2", "SOME-AREA-WITH-A-LONG-NAME" };
	hogl::area area(an[g(3)], g(2) ? secs : 0), other("OTHER AREA");
	const char *fields = dmg ? g.of({"ring|seqnum|area|section", "default", "seqnum"}) : g.of({"default", "fast0", "fast1", "timestamp,timedelta,seqnum", "ring,section"});
	hogl::format_basic text(fields);
	hogl::format_raw raw;
	unsigned n = dmg ? g.range(1, 9) : g(6);
	const char *kind = dmg ? g.of({"damage", "damage", "head", "head", "tail"}) : g.of({"whole", "whole", "whole", "tail"});
	bool old = !dmg && g.chance(20);
	struct rec { std::string bin, text, as, got; size_t s, e; int same; };
	std::vector<rec> rs;
	std::vector<uint64_t> tsv, seqv;
	std::string file;
	std::deque<arggen> ags;
	std::vector<std::string> rings; std::vector<const hogl::area *> av; std::vector<unsigned> sv;
	uint64_t t = 1500000000000000000ull + g.next() % 100000000000000000ull;
	for (unsigned i = 0; i < n; i++) {
		ags.emplace_back(g);
		arggen &ag = ags.back();
		if (dmg) { if (g(2)) ag.fmt(g(3)); else for (unsigned j = g(4); j; j--) { if (g.chance(60)) ag.number(); else ag.str(ag.word(g(10))); } } else ag.list();
		unsigned tail = 128 + g.of({0u, 32u, 100u, 500u, 3000u, 40000u});
		hogl::record *r = (hogl::record *) calloc(1, hogl::record::header_size() + tail + 64);
		bool noarea = g.chance(3);
		r->area = noarea ? 0 : g.chance(80) ? &area : &other;
		t += g.chance(80) ? g(100000) : g.next() >> 20;
		if (g.chance(5)) t = g(100);
		r->timestamp = hogl::timestamp(t);
		r->seqnum = dmg ? g(300) : g.next() >> (12 + g(52));
		r->section = g.chance(95) ? g(3) : g(4095);
		std::string ring = g.of({"RR", "DEFAULT", "a-ring-with-quite-a-long-name-to-print"});
		if (g.chance(5)) ring = std::string(g.of({2, 127, 128}), 'r');
		r->set_args(tail, ARGS16(ag));
		hogl::format::data d; d.ring_name = ring.c_str(); d.record = r;
		rec q; strbuf sb, rb(g.of({0u, 16u, 4096u}));
		text.process(sb, d); raw.process(rb, d); rb.flush();
		q.bin = old ? v1(*r, rb.s) : rb.s; q.text = noaddr(sb.s); q.s = file.size(); file += q.bin; q.e = file.size(); q.same = 1;
		hl::text as; stored_json(as, *r, &ag.args); q.as = as; q.got = "[]";
		rs.push_back(q);
		rings.push_back(ring); av.push_back(r->area); sv.push_back(r->section); tsv.push_back(t); seqv.push_back(r->seqnum);
		free(r);
	}
	unsigned min = dmg ? g.of({0u, 1u, 2u, 4u, 4u}) : g.of({0u, 4u, 4u}), max = dmg ? g.of({4096u, 1000u, 65536u, 10485760u}) : 10485760u;
	bool lng = dmg && g.chance(3);   // damage longer than the reader is ready to search
	if (lng) { kind = "damage"; max = 500; }
	size_t dp = (size_t) -1;   // where the damage is
	if (!strcmp(kind, "tail") && file.size()) {
		size_t p = g.chance(50) && n ? rs[g(n)].e - g(12) : g(file.size() + 1);
		if (p > file.size()) p = 0;
		file.resize(p);
		for (auto &r : rs) if (r.e > p) r.s = (size_t) -1;
		dp = p;
	} else if (!strcmp(kind, "damage") && file.size()) {
		size_t p = g.chance(60) && n ? rs[g(n)].s + g(50) : g(file.size()), l = g.chance(40) ? 1 : g(60) + 1;
		if (lng) { size_t add = 500 + g(300); p = n > 1 ? rs[g(n - 1) + 1].s : g(rs[0].e); file.insert(p, std::string(add, g(8) ? 0 : 'x')); l = add; for (auto &r : rs) { if (r.s >= p) r.s += add; if (r.e > p) r.e += add; } }
		if (p >= file.size()) p = file.size() - 1;
		if (p + l > file.size()) l = file.size() - p;
		dp = p;
		unsigned how = g(4);
		bool changed = false; (void) changed;
		for (size_t i = p; i < p + l; i++) { char c = how == 0 ? 0 : how == 1 ? (char) 255 : how == 2 ? (char) g(256) : file[i] ^ (1 << g(8)); file[i] = c; }
		for (auto &r : rs) if (r.e > p && r.s < p + l) r.s = (size_t) -1;
	} else if (!strcmp(kind, "head") && file.size()) {
		size_t p = 0; long shift;
		if (g.chance(70)) { p = g.chance(50) ? 1 + g(40) : g(file.size()); if (p > file.size()) p = file.size(); file.erase(0, p); shift = -(long) p; }
		else { std::string junk; for (unsigned l = 1 + g(100); l; l--) junk += (char) (g.chance(50) ? 0 : g(256)); file = junk + file; shift = junk.size(); }
		for (auto &r : rs) { if (r.s < p) r.s = (size_t) -1; else r.s += shift; r.e += shift; }
	}
	size_t pre = 0;   // records in front of the damage
	while (strcmp(kind, "head") && pre < n && rs[pre].s != (size_t) -1 && rs[pre].e <= dp) pre++;
	spit("rawlog", file);
	if (!strcmp(kind, "whole")) {
		hogl::file_rdbuf in("rawlog", 0, g.of({1u, 7u, 64u, 4096u}));
		hogl::raw_parser ps(in, old ? hogl::raw_parser::V1 : hogl::raw_parser::V1_1);
		for (unsigned i = 0; i < n; i++) {
			const hogl::format::data *d = ps.next();
			if (!d) { rs[i].same = 0; continue; }
			hl::text got; stored_json(got, *d->record, &ags[i].args); rs[i].got = got;
			// a string read back is kept by its text, whether or not it was a global one
			std::string a = av[i] ? av[i]->name() : "INVALID", s = av[i] ? av[i]->section_name(sv[i]) : "INVALID";
			rs[i].same = rings[i] == d->ring_name && a == d->record->area->name() && s == d->record->area->section_name(0) && (uint64_t) d->record->timestamp == tsv[i] && d->record->seqnum == seqv[i];
		}
		if (ps.next() || ps.failed()) for (auto &r : rs) r.same = 0;
	}
	std::string out;
	via how = dmg ? FILE_ : g.of({FILE_, FILE_, STDIN_, TAILF_});
	std::string expect;
	for (size_t i = 0; i < (strcmp(kind, "tail") ? n : pre); i++) expect += rs[i].text;
	int rc = cook(g, how, file, fields, min, max, old, expect, out);
	out = noaddr(out);
	o.f("{\"sd\":%llu,\"suite\":\"%s\",\"v1\":%d,\"kind\":\"%s\",\"min\":%u,\"max\":%u,\"rc\":%d,\"pre\":%zu,\"recs\":[", (unsigned long long) seed, suite, old, kind, min, max, rc, pre);
	for (unsigned i = 0; i < n; i++) {
		o.f("%s{\"s\":%ld,\"same\":%d,\"as\":", i ? "," : "", (long) rs[i].s, rs[i].same);
		o += rs[i].as; o += ",\"got\":"; o += rs[i].got; o += ",\"text\":"; o.bytes(rs[i].text.data(), rs[i].text.size());
		if (!dmg) {
			std::string an = av[i] ? av[i]->name() : "INVALID", sn = av[i] ? av[i]->section_name(sv[i]) : "INVALID";
			o += ",\"bin\":"; o.bytes(rs[i].bin.data(), rs[i].bin.size());
			o += ",\"ts\":"; o.bytes(&tsv[i], 8); o += ",\"sq\":"; o.bytes(&seqv[i], 8);
			o += ",\"ring\":"; o.bytes(rings[i].data(), rings[i].size());
			o += ",\"area\":"; o.bytes(an.data(), an.size());
			o += ",\"sect\":"; o.bytes(sn.data(), sn.size());
		}
		o += "}";
	}
	o += "],\"file\":"; if (dmg) o.bytes(file.data(), file.size()); else o += "[]";
	o += ",\"out\":"; o.bytes(out.data(), out.size()); o += "}";
}

int main(int argc, char **argv) { signal(SIGPIPE, SIG_IGN); late = (int *) mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return hl::seq_main(argc, argv, one); }
