// Sequential driver for the output buffers and simple outputs (spec/OutBuf.tla).
#include "seq.h"
#include <string.h>
#include <errno.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <algorithm>
#include <stdexcept>
#include "hogl/detail/ostrbuf.hpp"
#include "hogl/detail/ostrbuf-fd.hpp"
#undef HOGL_DETAIL_OSTRBUF_FD_HPP
#include "hogl/detail/ostrbuf-stdio.hpp"
#include "hogl/detail/ostrbuf-tee.hpp"
#include "hogl/detail/ostrbuf-null.hpp"
#include "hogl/output-plainfile.hpp"
#include "hogl/output-pipe.hpp"
#include "hogl/output-stdout.hpp"
#include "hogl/output-stderr.hpp"
#include "hogl/output-tee.hpp"
#include "hogl/output-null.hpp"
#include "hogl/format-null.hpp"

// ---- faults of the system: decided per call
static hl::prng *fg;
static struct { unsigned part, eintr, err; } fault;
static int  nerr;                  // errors given to the code so far
static int  target[2] = { -1, -1 };

static bool is_target(int fd) { return fd >= 0 && (fd == target[0] || fd == target[1]); }

extern "C" {
ssize_t __real_write(int, const void *, size_t);
ssize_t __real_writev(int, const struct iovec *, int);
static ssize_t put(int fd, const struct iovec *v, int c)
{
	size_t n = 0;
	for (int i = 0; i < c; i++) n += v[i].iov_len;
	if (n && fg->chance(fault.eintr)) { errno = EINTR; return -1; }
	if (n && fg->chance(fault.err)) { nerr++; errno = fg->of({ENOSPC, EIO, EPIPE, EAGAIN, EFBIG}); return -1; }
	size_t k = n > 1 && fg->chance(fault.part) ? 1 + (*fg)(n - 1) : n, w = 0;
	for (int i = 0; i < c && w < k; i++) { size_t m = std::min(v[i].iov_len, k - w); if (!m) continue; ssize_t r = __real_write(fd, v[i].iov_base, m); if (r < 0) return -1; w += r; }
	return w;
}
ssize_t __wrap_write(int fd, const void *p, size_t n) { if (!is_target(fd)) return __real_write(fd, p, n); struct iovec v = { (void *) p, n }; return put(fd, &v, 1); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int c) { if (!is_target(fd)) return __real_writev(fd, v, c); return put(fd, v, c); }
}

static ssize_t cookie_write(void *c, const char *b, size_t n)
{
	if (n && fg->chance(fault.err)) { nerr++; errno = ENOSPC; return 0; }
	size_t k = n > 1 && fg->chance(fault.part) ? 1 + (*fg)(n - 1) : n;
	return __real_write(*(int *) c, b, k);
}

// ---- sinks
struct sink { std::string path; int fd; size_t seen; FILE *file; };
static std::string slurp(const std::string &p)
{
	std::string s; char b[65536]; ssize_t n;
	int fd = open(p.c_str(), O_RDONLY);
	if (fd < 0) return s;
	while ((n = read(fd, b, sizeof(b))) > 0) s.append(b, n);
	close(fd);
	return s;
}
static void arrived(hl::text &o, std::vector<sink> &sk)
{
	o.f(",\"got\":[");
	for (size_t i = 0; i < sk.size(); i++) {
		std::string s = slurp(sk[i].path);
		if (i) o += ",";
		// what is new, and whether the old part is still there
		if (s.size() < sk[i].seen) { o.f("[-1]"); continue; }
		o.bytes(s.data() + sk[i].seen, s.size() - sk[i].seen);
		sk[i].seen = s.size();
	}
	o += "]";
}

struct ofmt : public hogl::format {
	std::string h, f;
	void process(hogl::ostrbuf &s, const data &d) { s.push_back((const uint8_t *) d.ring_name, strlen(d.ring_name)); }
	void header(hogl::ostrbuf &s, const char *, bool) { s.push_back(h); }
	void footer(hogl::ostrbuf &s, const char *) { s.push_back(f); }
};

static unsigned pos;
static std::string data(unsigned n) { std::string s; for (unsigned i = 0; i < n; i++, pos++) s += (char) ('!' + (pos * 7 + pos / 93) % 90); return s; }

static void ops(hl::prng &g, hl::text &o, hogl::ostrbuf &b, std::vector<sink> &sk, unsigned nops, bool raw)
{
	for (unsigned i = 0; i < nops; i++) {
		unsigned n = g.chance(70) ? g(12) : g.of({0u, 1u, 15u, 16u, 17u, 40u, 64u, 65u, 200u});
		unsigned x = raw ? g(100) : g(75);
		std::string d = data(n);
		const char *op = "a";
		int e0 = nerr;
		if (x < 25) b.push_back((const uint8_t *) d.data(), d.size());
		else if (x < 35) b.push_back(d.c_str());
		else if (x < 45) b.push_back(d);
		else if (x < 55) for (char c : d) b.push_back(c);
		else if (x < 65) { std::string t = data(3); char num[16]; snprintf(num, sizeof(num), "%05d", (int) g(90000)); b.printf("%s<%s>%d%%", d.c_str(), t.c_str(), atoi(num)); char e[400]; snprintf(e, sizeof(e), "%s<%s>%d%%", d.c_str(), t.c_str(), atoi(num)); d = e; }
		else if (x < 75) { b.push_back(d.data(), d.size()); }
		else if (x < 90) { b.flush(); d = ""; op = "f"; }
		else { b.flush((const uint8_t *) d.data(), d.size()); op = "f"; }
		for (auto &s : sk) if (s.file) fflush(s.file);
		o.f("%s{\"op\":\"%s\",\"d\":", i ? "," : "", op).bytes(d.data(), d.size());
		arrived(o, sk);
		o.f(",\"err\":%d,\"failed\":%d,\"msg\":%d}", nerr - e0, b.failed(), (int) strlen(b.error()));
	}
}

static sink mk(const char *n)
{
	sink s; s.path = std::string("sink") + n; s.seen = 0; s.file = 0;
	s.fd = open(s.path.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
	return s;
}

static void one(const char *suite, uint64_t seed, hl::text &o)
{
	hl::prng g(seed);
	fg = new hl::prng(seed * 13 + 1);
	nerr = 0; pos = g(1000); fault = { 0, 0, 0 }; target[0] = target[1] = -1;
	unsigned caps[] = { 0, 1, 2, 7, 16, 64, 8192 };
	unsigned cap = caps[g(7)], nops = g.range(1, 14);
	if (g.chance(60)) { fault.part = g.of({0, 20, 60}); fault.eintr = g.of({0, 20, 40}); fault.err = g.of({0, 0, 3, 10}); }
	std::vector<sink> sk;
	o.f("{\"sd\":%llu,\"suite\":\"%s\",", (unsigned long long) seed, suite);

	if (!strcmp(suite, "ob")) {
		unsigned k = g(4);
		if (k == 0) {   // descriptor
			sk.push_back(mk("0")); target[0] = sk[0].fd;
			o.f("\"kind\":\"fd\",\"cap\":%u,\"pre\":[[]],\"ops\":[", cap);
			{ hogl::ostrbuf_fd b(sk[0].fd, 0, cap); ops(g, o, b, sk, nops, true); }
			o.f("]}");
			close(sk[0].fd);
		} else if (k == 1) {   // stdio stream
			sk.push_back(mk("0"));
			fault.eintr = fault.part = 0;   // stdio does not go on after either
			cookie_io_functions_t io = { 0, cookie_write, 0, 0 };
			FILE *f = fopencookie(&sk[0].fd, "w", io);
			if (fault.err || g.chance(60)) setvbuf(f, 0, _IONBF, 0);
			sk[0].file = f;
			o.f("\"kind\":\"stdio\",\"cap\":%u,\"pre\":[[]],\"ops\":[", cap);
			{ hogl::ostrbuf_stdio b(f, hogl::ostrbuf_stdio::CLOSE_ON_DELETE, cap); ops(g, o, b, sk, nops, true); }
			o.f("]}");
			close(sk[0].fd);
		} else if (k == 2) {   // tee of two descriptors, which may hold some bytes already
			sk.push_back(mk("0")); sk.push_back(mk("1"));
			unsigned c0 = caps[g(7)], c1 = caps[g(7)];
			hogl::ostrbuf_fd b0(sk[0].fd, 0, c0), b1(sk[1].fd, 0, c1);
			std::string p0 = data(g(5)), p1 = data(g(5));
			b0.push_back(p0); b1.push_back(p1);
			target[0] = sk[0].fd; if (g.chance(70)) target[1] = sk[1].fd;
			o.f("\"kind\":\"tee\",\"cap\":%u,\"pre\":[", cap + std::max(c0, c1)).bytes(p0.data(), p0.size()); o += ","; o.bytes(p1.data(), p1.size()); o += "],\"ops\":[";
			{ hogl::ostrbuf_tee b(&b0, &b1, cap); ops(g, o, b, sk, nops, true); }
			o.f("]}");
			close(sk[0].fd); close(sk[1].fd);
		} else {   // nothing arrives anywhere
			o.f("\"kind\":\"null\",\"cap\":%u,\"pre\":[],\"ops\":[", cap);
			{ hogl::ostrbuf_null b(cap); ops(g, o, b, sk, nops, true); }
			o.f("]}");
		}
		delete fg;
		return;
	}

	// ---- outputs: header, what is processed, footer
	fault = { 0, 0, 0 };
	ofmt fmt; fmt.h = g.chance(90) ? data(g.of({1, 5, 20, 100})) : ""; fmt.f = g.chance(90) ? data(g.of({1, 5, 20, 100})) : "";
	unsigned k = g(6);
	static const char *kn[] = { "plainfile", "pipe", "stdout", "stderr", "outtee", "outnull" };
	std::string want;
	hl::text oo;
	std::vector<hogl::output *> outs;
	hogl::output *out = 0, *top;
	sink s0; s0.path = "sinkA"; s0.seen = 0; s0.fd = -1; s0.file = 0;
	sink s1 = s0; s1.path = "sinkB";
	unlink("sinkA"); unlink("sinkB");
	int save = -1, sfd = -1;
	auto mkout = [&](unsigned kind, const std::string &path) -> hogl::output * {
		switch (kind) {
		case 0: return new hogl::output_plainfile(path, fmt, cap);
		case 1: return new hogl::output_pipe("cat > " + path, fmt, cap);
		case 2: case 3: {
			FILE *F = kind == 2 ? stdout : stderr;
			fflush(F);
			sfd = kind == 2 ? 1 : 2;
			save = dup(sfd);
			int n = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(n, sfd); close(n);
			if (kind == 2) return new hogl::output_stdout(fmt, cap);
			return new hogl::output_stderr(fmt, cap); }
		case 5: return new hogl::output_null(fmt, cap);
		}
		return 0;
	};
	if (k == 4) {
		unsigned a = g(4), b = g.of({0, 1});
		outs.push_back(mkout(a, s0.path)); outs.push_back(mkout(b, s1.path));
		top = new hogl::output_tee(outs[0], outs[1], caps[g(7)]);
		sk.push_back(s0); sk.push_back(s1);
	} else {
		top = out = mkout(k, s0.path);
		if (k != 5) sk.push_back(s0);
	}
	for (unsigned i = 0; i < nops; i++) {
		std::string d = data(g.of({0, 1, 5, 16, 17, 63, 64, 65, 200}));
		hogl::format::data fd; fd.ring_name = d.c_str(); fd.record = 0;
		top->process(fd);
		want += d;
		if (g.chance(20)) top->flush();
	}
	bool failed = top->failed();
	if (k == 4) { delete top; delete outs[0]; delete outs[1]; } else delete top;
	if (sfd >= 0) { fflush(sfd == 1 ? stdout : stderr); dup2(save, sfd); close(save); }
	std::string all = fmt.h + want + fmt.f;
	o.f("\"kind\":\"%s\",\"failed\":%d,\"h\":", kn[k], failed).bytes(fmt.h.data(), fmt.h.size());
	o += ",\"b\":"; o.bytes(want.data(), want.size());
	o += ",\"f\":"; o.bytes(fmt.f.data(), fmt.f.size());
	arrived(o, sk);
	o += "}";
	delete fg;
}

int main(int argc, char **argv) { signal(SIGPIPE, SIG_IGN); return hl::seq_main(argc, argv, one); }
