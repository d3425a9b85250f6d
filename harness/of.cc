// Scheduled driver for the file output (spec/OutFile.tla): every system call that changes the directory is a preemption
// point, after which the state of the directory is compared with what it was and the changes are logged.
#include "log.h"
#include "asts.h"
#include <vector>
#include <map>
#include <algorithm>
#include <pthread.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <errno.h>
#include <stdexcept>
#include "hogl/output-file.hpp"
#include "hogl/detail/format.hpp"
#include "hogl/detail/ostrbuf.hpp"

using hl::ev;
using hl::raw;

static std::string root;                       // scratch directory of this execution
static bool  on;                               // logging
static hl::prng *fg;                           // fault generator
static struct { unsigned open, hdr, part, eintr; } fault;
static int   mainthr;

static void log(const std::string &s) { ev(true, "%s", s.c_str()); }
static std::string num(long n) { char b[32]; snprintf(b, sizeof(b), "%ld", n); return b; }

// ------------------------------------------------------------------ directory state
static std::string norm(const std::string &p)   // path relative to the scratch directory, without . and ..
{
	std::string s = p;
	if (s.compare(0, root.size() + 1, root + "/") == 0) s = s.substr(root.size() + 1);
	if (s.size() && s[0] == '/') return s;
	std::vector<std::string> c;
	size_t i = 0;
	while (i <= s.size()) {
		size_t j = s.find('/', i); if (j == s.npos) j = s.size();
		std::string x = s.substr(i, j - i);
		if (x == "..") { if (c.size()) c.pop_back(); else c.push_back(x); }
		else if (x != "." && x != "") c.push_back(x);
		i = j + 1;
	}
	std::string r;
	for (auto &x : c) r += (r.empty() ? "" : "/") + x;
	return r;
}

struct fstate { std::vector<std::string> tok; bool part; };
static std::map<std::string, fstate> *files;
static std::map<std::string, std::string> *links;

static std::string token(const std::string &t)   // [D:t:k:pad] [H:name:first] [F:name]
{
	std::vector<std::string> p;
	size_t i = 1;
	while (i < t.size()) { size_t j = t.find_first_of(":]", i); if (j == t.npos) break; p.push_back(t.substr(i, j - i)); i = j + 1; }
	if (p.size() >= 3 && p[0] == "D") return "[\"D\"," + num(atoi(p[1].c_str())) + "," + num(atoi(p[2].c_str())) + "," + num(t.size()) + "]";
	if (p.size() == 3 && p[0] == "H") return "[\"H\"," + chars(norm(p[1])) + "," + (p[2] == "1" ? "1" : "0") + "," + num(t.size()) + "]";
	if (p.size() == 2 && p[0] == "F") return "[\"F\"," + chars(norm(p[1])) + ",0," + num(t.size()) + "]";
	return "[\"?\"," "0,0," + num(t.size()) + "]";
}

static fstate parse(const std::string &path)
{
	fstate r; r.part = false;
	int fd = ::openat(AT_FDCWD, path.c_str(), O_RDONLY);
	std::string s;
	char b[65536]; ssize_t n;
	while ((n = ::read(fd, b, sizeof(b))) > 0) s.append(b, n);
	::close(fd);
	size_t i = 0;
	while (i < s.size()) {
		size_t j = s[i] == '[' ? s.find(']', i) : i, k = s.find('[', i + 1);
		if (s[i] == '[' && j == s.npos && k == s.npos) { r.part = true; break; }
		if (s[i] != '[' || (k != s.npos && k < j)) { r.tok.push_back("?"); i = k == s.npos ? s.size() : k; continue; }
		r.tok.push_back(s.substr(i, j + 1 - i));
		i = j + 1;
	}
	return r;
}

static bool busy;
static void scan()
{
	if (!on || busy) return;
	rt::quiet q;
	busy = true;
	std::map<std::string, fstate> f;
	std::map<std::string, std::string> l;
	std::vector<std::string> dirs(1, "");
	for (size_t d = 0; d < dirs.size(); d++) {
		DIR *D = opendir((root + "/" + dirs[d]).c_str());
		if (!D) continue;
		while (struct dirent *e = readdir(D)) {
			std::string n = e->d_name;
			if (n == "." || n == "..") continue;
			std::string rel = dirs[d] + n, full = root + "/" + rel;
			struct stat st;
			if (lstat(full.c_str(), &st)) continue;
			if (S_ISDIR(st.st_mode)) { dirs.push_back(rel + "/"); continue; }
			if (S_ISLNK(st.st_mode)) {
				char b[4096]; ssize_t k = ::readlink(full.c_str(), b, sizeof(b));
				std::string to(b, k > 0 ? k : 0);
				if (to.empty() || to[0] != '/') to = dirs[d] + to;
				l[rel] = norm(to);
			} else f[rel] = parse(full);
		}
		closedir(D);
	}
	// files first: a link may only lead to what is there already
	std::vector<std::string> out, gone;
	for (auto &x : f) {
		auto o = files->find(x.first);
		size_t k = 0;
		if (o != files->end()) {
			while (k < x.second.tok.size() && k < o->second.tok.size() && x.second.tok[k] == o->second.tok[k]) k++;
			if (k == x.second.tok.size() && k == o->second.tok.size() && x.second.part == o->second.part) continue;
		}
		std::string s = "{\"e\":\"f\",\"n\":" + chars(x.first) + ",\"gone\":0,\"keep\":" + num(k) + ",\"add\":[";
		for (size_t i = k; i < x.second.tok.size(); i++) s += (i > k ? "," : "") + token(x.second.tok[i]);
		out.push_back(s + "],\"part\":" + num(x.second.part) + "}");
	}
	for (auto &x : *files) if (!f.count(x.first)) gone.push_back("{\"e\":\"f\",\"n\":" + chars(x.first) + ",\"gone\":1,\"keep\":0,\"add\":[],\"part\":0}");
	for (auto &x : l) {
		auto o = links->find(x.first);
		if (o != links->end() && o->second == x.second) continue;
		out.push_back("{\"e\":\"l\",\"n\":" + chars(x.first) + ",\"gone\":0,\"to\":" + chars(x.second) + "}");
	}
	for (auto &x : *links) if (!l.count(x.first)) out.push_back("{\"e\":\"l\",\"n\":" + chars(x.first) + ",\"gone\":1,\"to\":[]}");
	out.insert(out.end(), gone.begin(), gone.end());
	files->swap(f); links->swap(l);
	for (auto &x : out) log(x);
	busy = false;
}

// ------------------------------------------------------------------ system calls
static void before() { if (on && !busy && rt::active() && rt::self() >= 0) { rt::yield(); } }
static bool can_fault() { return on && !busy && rt::active() && rt::self() >= 0; }
static void faulted(const char *k) { log(std::string("{\"e\":\"fault\",\"k\":\"") + k + "\"}"); }

extern "C" {
#define W(ret, name, decl, call) ret __real_##name decl; ret __wrap_##name decl { before(); ret r = __real_##name call; int e = errno; scan(); errno = e; return r; }

int __real_open(const char *p, int fl, ...);
static int opened(const char *p, int fl, mode_t m)
{
	before();
	if (can_fault() && (fl & O_CREAT) && fg->chance(fault.open)) { faulted("open"); errno = EMFILE; return -1; }
	int r = __real_open(p, fl, m), e = errno;
	scan(); errno = e;
	return r;
}
int __wrap_open(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); return opened(p, fl, m); }
int __wrap_open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); return opened(p, fl, m); }
int __wrap_creat(const char *p, mode_t m) { return opened(p, O_CREAT | O_TRUNC | O_WRONLY, m); }
int __real_openat(int d, const char *p, int fl, ...);
int __wrap_openat(int d, const char *p, int fl, ...)
{
	va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a);
	if (!on || busy || d != AT_FDCWD) return __real_openat(d, p, fl, m);
	return opened(p, fl, m);
}

ssize_t __real_write(int, const void *, size_t);
ssize_t __real_writev(int, const struct iovec *, int);
static ssize_t fault_write(int fd, const struct iovec *v, int c, bool &done)
{
	done = true;
	size_t n = 0;
	for (int i = 0; i < c; i++) n += v[i].iov_len;
	const char *first = 0;
	for (int i = 0; i < c && !first; i++) if (v[i].iov_len) first = (const char *) v[i].iov_base;
	if (can_fault()) {
		if (first && n > 1 && first[0] == '[' && first[1] == 'H' && rt::self() != mainthr && fg->chance(fault.hdr)) {
			faulted("hdr");
			if (fg->chance(40)) { if (__real_write(fd, first, v[0].iov_len > 3 ? 3 : 1) < 0) {} }
			scan(); errno = ENOSPC; return -1;
		}
		if (n && fg->chance(fault.eintr)) { faulted("eintr"); errno = EINTR; return -1; }
		if (n > 1 && fg->chance(fault.part)) {
			size_t k = 1 + (*fg)(n - 1), w = 0;
			faulted("part");
			for (int i = 0; i < c && w < k; i++) { size_t m = std::min(v[i].iov_len, k - w); ssize_t r = __real_write(fd, v[i].iov_base, m); if (r < 0) break; w += r; }
			scan();
			return w;
		}
	}
	done = false;
	return 0;
}
ssize_t __wrap_write(int fd, const void *p, size_t n)
{
	if (!on || hl::done) return __real_write(fd, p, n);
	before();
	struct iovec v = { (void *) p, n };
	bool d; ssize_t r = fault_write(fd, &v, 1, d);
	if (d) return r;
	r = __real_write(fd, p, n); int e = errno;
	scan(); errno = e;
	return r;
}
ssize_t __wrap_writev(int fd, const struct iovec *v, int c)
{
	before();
	bool d; ssize_t r = fault_write(fd, v, c, d);
	if (d) return r;
	r = __real_writev(fd, v, c); int e = errno;
	scan(); errno = e;
	return r;
}
W(ssize_t, pwrite, (int fd, const void *p, size_t n, off_t o), (fd, p, n, o))
W(int, close, (int fd), (fd))
W(int, symlink, (const char *a, const char *b), (a, b))
W(int, symlinkat, (const char *a, int d, const char *b), (a, d, b))
W(int, link, (const char *a, const char *b), (a, b))
W(int, rename, (const char *a, const char *b), (a, b))
W(int, renameat, (int d, const char *a, int e_, const char *b), (d, a, e_, b))
W(int, remove, (const char *a), (a))
W(int, unlink, (const char *a), (a))
W(int, unlinkat, (int d, const char *a, int f), (d, a, f))
W(ssize_t, readlink, (const char *a, char *b, size_t n), (a, b, n))
W(int, fsync, (int fd), (fd))
W(int, fdatasync, (int fd), (fd))
W(int, ftruncate, (int fd, off_t n), (fd, n))
W(int, truncate, (const char *p, off_t n), (p, n))
}

// ------------------------------------------------------------------ format
class ofmt : public hogl::format {
public:
	void process(hogl::ostrbuf &s, const data &d) { s.push_back((const uint8_t *) d.ring_name, strlen(d.ring_name)); }
	void header(hogl::ostrbuf &s, const char *n, bool first)
	{
		std::string h;
		{ rt::quiet q; h = std::string("[H:") + n + (first ? ":1]" : ":0]"); }
		s.push_back((const uint8_t *) h.data(), h.size());
	}
	void footer(hogl::ostrbuf &s, const char *n)
	{
		std::string h;
		{ rt::quiet q; h = std::string("[F:") + (n ? n : "") + "]"; }
		s.push_back((const uint8_t *) h.data(), h.size());
	}
};

// ------------------------------------------------------------------ programs
enum opk { PROC, FLUSH, DIRECT, SWITCH, SLEEP };
struct op { opk k; int a; };
typedef std::vector<op> prog;

static hogl::output_file *of;
static std::vector<std::string> *names;   // as given to the output
static int ctr[3];

static void unit(int t, int len, bool direct)
{
	std::string s;
	int k = ++ctr[t];
	{ rt::quiet q;
	s = "[D:" + num(t) + ":" + num(k) + ":";
	while ((int) s.size() + 1 < len) s += 'x';
	s += "]"; }
	log("{\"e\":\"d\",\"t\":" + num(t) + ",\"k\":" + num(k) + "}");
	if (direct) {
		ssize_t n = of->write(s.data(), s.size());
		log("{\"e\":\"dret\",\"t\":" + num(t) + ",\"k\":" + num(k) + ",\"ok\":" + num(n == (ssize_t) s.size()) + "}");
	} else {
		hogl::format::data d;
		d.ring_name = s.c_str(); d.record = 0;
		of->process(d);
	}
}
static void flush() { of->flush(); log("{\"e\":\"fl\"}"); }

static void run(prog &p)
{
	for (auto &o : p) {
		switch (o.k) {
		case PROC:   unit(1, o.a, false); break;
		case DIRECT: unit(2, o.a, true); break;
		case FLUSH:  flush(); break;
		case SWITCH:
			{ rt::quiet q; log("{\"e\":\"sw\",\"name\":" + chars(norm((*names)[o.a])) + "}"); }
			of->switch_name((*names)[o.a]);
			log("{\"e\":\"swret\"}");
			break;
		case SLEEP: usleep(o.a); break;
		}
	}
}
static void *work(void *a) { run(*(prog *) a); return 0; }

static void idle()
{
	usleep(500000);
	log("{\"e\":\"quiet\"}");
	for (int i = 0; i < 4; i++) {
		unit(1, 14, false);
		flush();
		usleep(300000);
	}
	rt::quiet q;
	log("{\"e\":\"idle\",\"ix\":" + num(of->index()) + "}");
}

static void mkfile(const std::string &p, const std::string &c)
{
	int fd = __real_open((root + "/" + p).c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
	if (fd < 0) return;
	if (__real_write(fd, c.data(), c.size()) < 0) {}
	__real_close(fd);
}

static std::string linkname(const std::string &n)
{
	size_t h = n.find('#');
	if (h == n.npos) return n;
	std::string suf = n.substr(h + 1), pre = n.substr(0, h);
	if (pre.size() && suf.size() && pre[pre.size() - 1] == suf[0]) pre.erase(pre.size() - 1);
	return pre + suf;
}
static std::string chunk(const std::string &n, const std::string &ix)
{
	size_t h = n.find('#');
	return h == n.npos ? n + "." + ix : n.substr(0, h) + ix + n.substr(h + 1);
}

static std::string suite;

static void one(uint64_t seed)
{
	hl::prng g(seed);
	rt::opts so = hl::schedule(g, seed);
	bool names_suite = suite == "ofname";
	char cwd[4096];
	if (!getcwd(cwd, sizeof(cwd))) _exit(3);
	root = std::string(cwd) + "/x" + num(seed);
	mkdir(root.c_str(), 0755); mkdir((root + "/d1").c_str(), 0755); mkdir((root + "/d2").c_str(), 0755);
	if (chdir(root.c_str())) _exit(3);
	files = new std::map<std::string, fstate>;
	links = new std::map<std::string, std::string>;
	names = new std::vector<std::string>;
	fg = new hl::prng(seed * 7 + 5);

	static const char *stem[] = { "log.#.txt", "log", "a-#-b", "lx#", "#.log", "q#.txt", "z_#_y.txt", "n.#", "w.#x.log", "m.#.0.t", "k1#" };
	unsigned mode = g(4), nn = g.range(1, 3);
	for (unsigned i = 0; i < nn; i++) {
		std::string s = stem[names_suite ? g(11) : g.of({0, 0, 0, 1, 2, 6})];
		if (mode == 1) s = "d1/" + s;
		else if (mode == 2) s = root + "/d1/" + s;
		else if (mode == 3) s = (i == 1 ? "d2/" : "d1/") + s;
		names->push_back(s);
	}
	unsigned nlife = g.range(1, names_suite ? 4 : 2);
	unsigned count = g.of({2, 2, 3, 4, 10, 11, 12});
	size_t max = g.of({1, 40, 60, 100, 200, 100000});
	bool faults = g.chance(35);
	fault = { 0, 0, 0, 0 };
	if (faults) switch (g(4)) {
		case 0: fault.open = g.of({10, 40, 70}); break;
		case 1: fault.hdr = g.of({20, 60}); break;
		case 2: fault.part = g.of({10, 40}); fault.eintr = g.of({0, 10, 30}); break;
		case 3: fault.open = 20; fault.hdr = 20; fault.part = 10; fault.eintr = 10; break;
	}

	// What earlier runs (of this or another program) left behind
	struct pre { std::string link, to; };
	std::vector<pre> pl;
	if (g.chance(names_suite ? 85 : 30)) {
		std::string n = (*names)[0], dir = n.find('/') == n.npos ? "" : n.substr(0, n.rfind('/') + 1);
		std::string b = n[0] == '/' ? n : n.substr(dir.size());    // the link holds a name relative to its directory
		std::string ix = num(g.chance(70) ? g(count) : g(count + 5));
		unsigned width = num(count - 1).size();
		if (g.chance(80)) while (ix.size() < width) ix = "0" + ix;
		std::string to = chunk(b, ix);
		switch (g(100) < 65 ? 99 : g(12)) {
		case 0: to = chunk(b, "x"); break;
		case 1: to = chunk(b, ""); break;
		case 2: to = chunk(b, ix + "a"); break;
		case 3: to = chunk(b, "-" + ix); break;
		case 4: to = chunk(b, ix) + ".bak"; break;
		case 5: to = "other." + ix + ".txt"; break;
		case 6: to = chunk(b, "99999"); break;
		case 7: to = n[0] == '/' ? "/nowhere" + chunk(n, ix) : "../d2/" + chunk(b, ix); break;
		case 8: to = chunk(b, " " + ix); break;
		case 9: to = chunk(b, "+" + ix); break;
		case 10: to = chunk(b, "0000" + ix); break;
		case 11: to = std::string(n[0] == '/' ? "/" : "") + std::string(60, 'v') + "/" + chunk(b, ix); break;
		}
		if (__real_symlink(to.c_str(), linkname(n).c_str())) {}
		if (g.chance(60)) { std::string t = norm(to[0] == '/' ? to : dir + to); mkfile(t, "[H:" + t + ":1][D:9:1:xx][F:]"); }
	}
	if (g.chance(10)) { if (__real_symlink("leftover", (linkname((*names)[0]) + "$").c_str())) {} }

	struct life { unsigned name, count, max, cap; std::vector<prog> p; bool idle, idle2; prog tail; };
	std::vector<life> lives;
	for (unsigned i = 0; i < nlife; i++) {
		life L;
		L.name = i ? g(nn) : 0; L.count = (i && g.chance(20)) ? (unsigned) g.of({2, 3, 5, 11}) : count; L.max = max; L.cap = g.of({0, 16, 64, 256, 8192});
		L.p.resize(3);
		unsigned scale = names_suite ? 4 : 10;
		unsigned nw = g.range(0, scale);
		for (unsigned k = 0; k < nw; k++) {
			unsigned x = g(100);
			L.p[0].push_back(x < 65 ? op{PROC, (int) g.of({9, 14, 30, 70})} : x < 85 ? op{FLUSH, 0} : op{SLEEP, (int) g.of({1, 50, 1000, 20000})});
		}
		if (g.chance(50)) { unsigned n = g.range(1, scale / 2); for (unsigned k = 0; k < n; k++) L.p[1].push_back(g.chance(80) ? op{DIRECT, (int) g.of({9, 20, 60})} : op{SLEEP, (int) g.of({1, 50, 5000})}); }
		if (g.chance(60)) { unsigned n = g.range(1, 3); for (unsigned k = 0; k < n; k++) { if (g.chance(40)) L.p[2].push_back(op{SLEEP, (int) g.of({1, 100, 10000})}); L.p[2].push_back(op{SWITCH, (int) g(nn)}); } }
		L.idle = g.chance(50); L.idle2 = g.chance(20);
		if (g.chance(30)) L.tail.push_back(op{SWITCH, (int) g(nn)});
		if (g.chance(40)) L.tail.push_back(op{PROC, (int) g.of({9, 30})});
		lives.push_back(L);
	}

	raw("{\"sd\":%llu,\"suite\":\"%s\",\"ev\":[", (unsigned long long) seed, suite.c_str());
	so.max_idle = 3000;
	hogl::format *fmt = new ofmt;
	rt::begin(so);
	mainthr = rt::self();
	on = true;
	scan();
	for (auto &L : lives) {
		{ rt::quiet q; log("{\"e\":\"ctor\",\"name\":" + chars(norm((*names)[L.name])) + ",\"max\":" + num(L.max) + ",\"count\":" + num(L.count) + "}"); }
		for (int i = 0; i < 3; i++) ctr[i] = 0;
		hogl::output_file::options o = hogl::output_file::default_options;
		o.max_size = L.max; o.max_count = L.count; o.buffer_capacity = L.cap;
		bool ok = true;
		try { of = new hogl::output_file((*names)[L.name], *fmt, o); } catch (const std::exception &) { ok = false; }
		{ rt::quiet q; log("{\"e\":\"ctorret\",\"ok\":" + num(ok) + ",\"nm\":" + (ok ? chars(norm(of->name())) : "[]") + "}"); }
		if (!ok) { usleep(100000); continue; }
		pthread_t h[3];
		for (int i = 0; i < 3; i++) pthread_create(&h[i], 0, work, &L.p[i]);
		for (int i = 0; i < 3; i++) pthread_join(h[i], 0);
		if (L.idle) idle();
		if (L.idle2) { auto f = fault; fault = { 0, 0, 0, 0 }; idle(); fault = f; }
		run(L.tail);
		{ rt::quiet q; log("{\"e\":\"dtor\",\"nm\":" + chars(norm(of->name())) + "}"); }
		delete of;
		log("{\"e\":\"dtorret\"}");
	}
	usleep(100000);
	on = false;
	rt::end();
}

int main(int argc, char **argv)
{
	if (argc < 5) return 2;
	suite = argv[2];
	return hl::run_all(argv[1], strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), one);
}
