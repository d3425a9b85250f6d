// Generated arguments of records: the objects to post and their JSON description for spec/Text.tla and spec/RecArgs.tla
#pragma once
#include "seq.h"
#include <deque>
#include <string>
#include <vector>
#include "hogl/detail/args.hpp"
#include "hogl/detail/record.hpp"

struct garg {
	const char *t;
	uint64_t v;         // value
	unsigned vlen;      // its bytes
	std::string d;      // data
	long k;             // double: multiple of 1/64
	hogl::arg a;
};
static const long NOK = 1000000000;

static void arg_json(hl::text &o, const char *t, uint64_t v, unsigned vlen, const std::string &d, long k, int z, uint64_t addr)
{
	o.f("{\"t\":\"%s\",\"v\":", t).bytes(&v, vlen);
	o += ",\"d\":"; o.bytes(d.data(), d.size());
	o += ",\"a\":"; o.bytes(&addr, 8);
	o.f(",\"k\":%ld,\"z\":%d}", k, z);
}

struct arggen {
	hl::prng &g;
	std::deque<garg> args;
	std::vector<void *> mem;
	std::deque<hogl::arg_xdump> xd;
	std::deque<std::string> st;
	arggen(hl::prng &g) : g(g) { }
	~arggen() { for (void *p : mem) free(p); }

	void *blob(const std::string &s) { void *p = malloc(s.size() ? s.size() : 1); memcpy(p, s.data(), s.size()); mem.push_back(p); return p; }
	char *cstr(const std::string &s) { char *p = (char *) malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); mem.push_back(p); return p; }

	unsigned length() { unsigned x = g(10); return x < 5 ? g(12) : x < 8 ? g(60) : x < 9 ? g.of({0u, 1u, 2u, 3u, 4u, 5u, 8u}) : g(400); }
	std::string word(unsigned n, bool pct = false) { std::string s; for (unsigned i = 0; i < n; i++) { char c = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789 .,:;<>[]!#"[g(54)]; s += c ? c : 'q'; if (pct && g.chance(6)) s += '%'; } return s; }
	std::string bytes(unsigned n) { std::string s; for (unsigned i = 0; i < n; i++) s += (char) g(256); return s; }
	uint64_t bits() { switch (g(7)) { case 0: return g(10); case 1: return 0; case 2: return ~0ull - g(3); case 3: return 1ull << g(64); case 4: return (1ull << g(64)) - 1; case 5: return 0x80000000ull + g(3) - 1; default: return g.next(); } }

	garg &add(const char *t, uint64_t v, unsigned vlen, const std::string &d, hogl::arg a, long k = NOK) { args.push_back({ t, v, vlen, d, k, a }); return args.back(); }

	void number(int want = -1)   // 0 i32 1 u32 2 i64 3 u64 4 ptr 5 dbl
	{
		uint64_t b = bits();
		switch (want < 0 ? g(6) : want) {
		case 0: switch (g(4)) {
			case 0: { int8_t x = b; add("i32", (uint32_t) (int32_t) x, 4, "", hogl::arg(x)); return; }
			case 1: { short x = b; add("i32", (uint32_t) (int32_t) x, 4, "", hogl::arg(x)); return; }
			default: { int x = b; add("i32", (uint32_t) x, 4, "", hogl::arg(x)); return; } }
		case 1: switch (g(6)) {
			case 0: { bool x = b & 1; add("u32", x, 4, "", hogl::arg(x)); return; }
			case 1: { uint8_t x = b; add("u32", x, 4, "", hogl::arg(x)); return; }
			case 2: { uint16_t x = b; add("u32", x, 4, "", hogl::arg(x)); return; }
			default: { unsigned x = b; add("u32", x, 4, "", hogl::arg(x)); return; } }
		case 2: if (g(2)) { long x = b; add("i64", b, 8, "", hogl::arg(x)); } else { long long x = b; add("i64", b, 8, "", hogl::arg(x)); } return;
		case 3: if (g(2)) { unsigned long x = b; add("u64", b, 8, "", hogl::arg(x)); } else { unsigned long long x = b; add("u64", b, 8, "", hogl::arg(x)); } return;
		case 4: if (g(2)) { void *x = (void *) b; add("ptr", b, 8, "", hogl::arg(x)); } else { volatile void *x = (volatile void *) b; add("ptr", b, 8, "", hogl::arg(x)); } return;
		default: dbl(); return;
		}
	}
	void dbl()
	{
		if (g.chance(70)) {
			long k = (long) g(131072) - 65536;
			if (g.chance(50)) k &= ~63l; else if (g.chance(50)) k &= ~15l;
			double x = k / 64.0; uint64_t u; memcpy(&u, &x, 8);
			if (g.chance(30)) { float f = x; add("dbl", u, 8, "", hogl::arg(f), k); } else add("dbl", u, 8, "", hogl::arg(x), k);
		} else { uint64_t u = bits(); double x; memcpy(&x, &u, 8); memcpy(&u, &x, 8); add("dbl", u, 8, "", hogl::arg(x)); }
	}
	void str(const std::string &s)
	{
		unsigned x = g(10);
		if (x < 2) { const char *p = cstr(s); std::string d(p); garg &r = add("gstr", (uint64_t) p, 8, d, hogl::arg(hogl::arg_gstr(p))); (void) r; }
		else if (x < 6) { st.push_back(s); add("cstr", 0, 0, s, hogl::arg(st.back())); }
		else if (x == 6 && s.empty()) add("cstr", 0, 0, "", hogl::arg((const char *) 0));
		else { const char *p = cstr(s); add("cstr", 0, 0, std::string(p), hogl::arg(p)); }
	}
	void string() { std::string s = word(length()); if (g.chance(3)) s += std::string(1, '\0') + word(3); str(s); }
	void raw() { std::string s = bytes(length()); add("raw", 0, 0, s, hogl::arg(hogl::arg_raw(blob(s), s.size()))); }
	void xdump()
	{
		std::string s = g.chance(50) ? bytes(length()) : word(length());
		uint8_t type = g.chance(90) ? (uint8_t) "HHxduf"[g(6)] : (uint8_t) g.of({113, 0, 255});
		uint8_t bw = type == 'H' ? (g.chance(85) ? 1 : g(16)) : g.chance(85) ? 1u << g(4) : g(16), lw = g.chance(70) ? g(24) : g.of({0, 1, 20, 255});
		xd.push_back(hogl::arg_xdump(blob(s), s.size(), type, bw, g(16), lw, g.of({' ', ',', '-'})));
		std::string d((const char *) &xd.back().fmt, 4);
		add("xdump", 0, 0, d + s, hogl::arg(xd.back()));
	}
	void any() { unsigned x = g(20); if (x < 10) number(); else if (x < 15) string(); else if (x < 17) raw(); else xdump(); }

	// a format string and arguments that mostly fit it
	void fmt(unsigned n)
	{
		std::string f = word(g(6));
		std::vector<int> kinds;
		for (unsigned i = 0; i < n; i++) {
			int k = g(9); std::string c;
			std::string fl = g.chance(70) ? "" : g.of({"-", "0", ""});
			if (g.chance(30)) fl += std::to_string(1 + g(20));
			if (g.chance(3)) { f += g.of({"%", "%q", "%1$d", "%-", "%.f", "%#x", "%+d", "% d", "%c", "%e", "%5.", "%hhd", "%zu", "%n"}); }
			switch (k) {
			case 0: c = g.of({"d", "i"}); break;
			case 1: c = g.of({"u", "x", "X"}); break;
			case 2: c = g.of({"ld", "lld"}); break;
			case 3: c = g.of({"lu", "llu", "lx", "llx"}); break;
			case 4: c = "p"; break;
			case 5: c = g.of({"f", ".2f", "lf", ".0f"}); break;
			default: c = "s"; break;
			}
			if (g.chance(4)) c = g.of({"d", "s", "f", "c", "x", "p"});
			f += "%" + fl + c + word(g(5));
			if (g.chance(10)) f += "%%";
			kinds.push_back(k);
		}
		str(f);
		for (int k : kinds) { if (k < 6) number(k); else if (k < 8 || g.chance(80)) string(); else if (g(2)) raw(); else xdump(); }
		if (g.chance(5) && args.size() > 2) args.pop_back();
	}
	void list()   // a whole argument list
	{
		unsigned x = g(10);
		if (x < 4) { fmt(g.chance(80) ? g(5) : g(16)); return; }
		unsigned n = g.chance(70) ? g(6) : g(17);
		if (x < 6) string();
		for (unsigned i = args.size(); i < n; i++) any();
		while (args.size() > 16) args.pop_back();
	}
	void json(hl::text &o)
	{
		o += "[";
		for (size_t i = 0; i < args.size(); i++) { if (i) o += ","; const garg &a = args[i]; arg_json(o, a.t, a.v, a.vlen, a.d, a.k, 1, 0); }
		o += "]";
	}
	hogl::arg at(unsigned i) const { return i < args.size() ? args[i].a : hogl::arg(); }
};
#define ARGS16(x) x.at(0), x.at(1), x.at(2), x.at(3), x.at(4), x.at(5), x.at(6), x.at(7), x.at(8), x.at(9), x.at(10), x.at(11), x.at(12), x.at(13), x.at(14), x.at(15)

// what a record holds; ks: the doubles as posted
static void stored_json(hl::text &o, const hogl::record &r, const std::deque<garg> *posted)
{
	static const char *tn[] = { "none", "u32", "i32", "u64", "i64", "ptr", "dbl", "cstr", "gstr", "xdump", "raw" };
	o += "[";
	for (unsigned i = 0; i < hogl::record::NARGS; i++) {
		unsigned t = r.get_arg_type(i), len = 0;
		if (t == hogl::arg::NONE) break;
		std::string d; uint64_t v = 0, addr = 0; unsigned vlen = 0; int z = 1;
		if (t == hogl::arg::CSTR || t == hogl::arg::XDUMP || t == hogl::arg::RAW) {
			const uint8_t *p = r.get_arg_data(i, len);
			d.assign((const char *) p, len); addr = (uint64_t) p;
			if (t == hogl::arg::CSTR && len) z = p[len] == 0;
		} else {
			if (hogl::arg::is_32bit(t)) { v = r.get_arg_val32(i); vlen = 4; } else { v = r.get_arg_val64(i); vlen = 8; }
			if (t == hogl::arg::GSTR && posted && i < posted->size() && v == (*posted)[i].v) d = (*posted)[i].d;
		}
		long k = NOK;
		if (t == hogl::arg::DOUBLE && posted && i < posted->size()) k = (*posted)[i].k;
		if (i) o += ",";
		arg_json(o, t < 11 ? tn[t] : "bad", v, vlen, d, k, z, addr);
	}
	o += "]";
}
