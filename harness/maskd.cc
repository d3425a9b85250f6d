// Sequential driver for masks: prints one line per mask applied to an area (spec/MaskTrace.tla).
#include "asts.h"
#include "hogl/mask.hpp"
#include "hogl/area.hpp"
#include <sstream>
#include <signal.h>
#include "seq.h"

static std::string bits(const hogl::area &a)
{
	std::string s = "[";
	for (unsigned i = 0; i < a.size(); i++) s += (i ? "," : "") + std::string(a.test(i) ? "1" : "0");
	return s + "]";
}

// every text of up to six characters over a small alphabet, alone and behind others, against areas and sections with such names
static void texts(uint64_t sd, hl::text &o)
{
	static const char alpha[] = "!:aB.";
	static const char *secs[] = { "a", "B", "aa", "aB", "Ba", "a:a", "B:", ":", "!a", "aaa", "A", "b", 0 }, *areas[] = { "a", "B", "aB", "!", "!a", "Ba", "aaa", "b" };
	hl::prng g(sd + 3);
	auto nth = [&](uint64_t k) { unsigned l = 0; uint64_t n = 1; while (k >= n) { k -= n; n *= 5; l++; } std::string s; for (unsigned i = 0; i < l; i++) { s += alpha[k % 5]; k /= 5; } return s; };
	o.f("{\"sd\":%llu,\"secs\":[", (unsigned long long) sd);
	for (unsigned i = 0; secs[i]; i++) { if (i) o += ","; o += chars(secs[i]); }
	o += "],\"texts\":[";
	for (unsigned k = 0; k < 20; k++) {
		std::vector<std::string> m; for (unsigned j = g(3); j; j--) m.push_back(nth(g(g(2) ? 31 : 3906)));
		m.push_back(nth((sd * 20 + k) % 19531)); if (g.chance(20)) m.push_back(nth(g(156)));
		const char *an = areas[g(8)]; hogl::area a(an, secs); if (g(2)) a.set(); for (unsigned i = 0; i < a.size(); i++) if (g.chance(30)) a.set(i, g(2));
		o.f("%s{\"an\":%s,\"before\":%s,\"m\":[", k ? "," : "", chars(an).c_str(), bits(a).c_str());
		hogl::mask x; for (size_t j = 0; j < m.size(); j++) { x << m[j]; if (j) o += ","; o += chars(m[j]); }
		x.apply(a);
		o.f("],\"after\":%s}", bits(a).c_str());
	}
	o += "]}";
}

static void one(const char *suite, uint64_t sd, hl::text &o)
{
	if (!strcmp(suite, "mtext")) { texts(sd, o); return; }
	{
		hl::prng g(sd + 7);
		// area
		bool big = g.chance(15);
		unsigned n = big ? g.range(60, 140) : g.range(1, 7);
		std::vector<std::string> secs;
		for (unsigned i = 0; i < n; i++) {
			std::string s;
			if (big) for (unsigned b = 0; b < 8; b++) s += i >> b & 1 ? "A" : "B";
			else s = name_gen(g, true);
			secs.push_back(s);
		}
		std::string an = name_gen(g, false);
		const char *sp[200];
		for (unsigned i = 0; i < n; i++) sp[i] = secs[i].c_str();
		sp[n] = 0;
		std::vector<rule> rules;
		unsigned nr = g.range(0, 5);
		for (unsigned i = 0; i < nr; i++) rules.push_back(rule_gen(g, { an, name_gen(g, false) }, secs));

		uint64_t init = g.next();
		auto fresh = [&](hogl::area &a) {
			hl::prng h(init + 1);
			switch (init % 4) {
			case 0: a.set(); break;
			case 1: a.reset(); break;
			default: for (unsigned i = 0; i < n; i++) a.set(i, h.chance(50));
			}
		};
		std::string before, res;
		auto apply = [&](const char *how, const hogl::mask &m, bool ptr) {
			hogl::area a(an.c_str(), sp);
			fresh(a);
			before = bits(a);
			if (ptr) m.apply(&a); else m.apply(a);
			res += std::string(res.empty() ? "" : ",") + "{\"how\":\"" + how + "\",\"after\":" + bits(a) + "}";
		};
		// the same mask built in several ways
		hogl::mask m1; for (auto &r : rules) m1 << r.text;
		apply("added", m1, false);
		hogl::mask m2; for (auto &r : rules) m2.add(r.text);
		apply("add()", m2, true);
		hogl::mask m3(m1); apply("copied", m3, false);
		const hogl::mask &cm = m1; hogl::mask m4(cm); apply("const copied", m4, false);
		hogl::mask m5("A:B", "!B", 0); m5 = m1; apply("assigned", m5, false);
		hogl::mask &self = m5; m5 = self; apply("self-assigned", m5, false);
		const char *x[5] = { 0, 0, 0, 0, 0 };
		for (unsigned i = 0; i < nr && i < 5; i++) x[i] = rules[i].text.empty() ? 0 : rules[i].text.c_str();
		bool empty = false;
		for (unsigned i = 0; i < nr; i++) if (rules[i].text.empty()) empty = true;
		if (!empty) { hogl::mask m6(x[0], x[1], x[2], x[3], x[4], (const char *) 0); apply("variadic", m6, false); }
		std::stringstream ss; ss << m1;
		std::string shown = "[", text = "[";
		{
			std::string l; bool f = true; std::istringstream is(ss.str());
			while (std::getline(is, l)) { shown += (f ? "\"" : ",\"") + esc(l) + "\""; f = false; }
			shown += "]";
		}
		if (!empty) { hogl::mask m7; ss >> m7; apply("read back", m7, false); }
		m5.clear(); for (auto &r : rules) m5 << r.text; apply("cleared and refilled", m5, false);
		std::string rj = "[", sj = "[";
		for (unsigned i = 0; i < nr; i++) { rj += (i ? "," : "") + rules[i].json; text += (i ? ",\"" : "\"") + esc(rules[i].text) + "\""; }
		for (unsigned i = 0; i < n; i++) sj += (i ? "," : "") + chars(secs[i]);
		res += ",{\"how\":\"shown\",\"text\":" + shown + "}";
		o.f("{\"sd\":%llu,\"an\":%s,\"secs\":%s],\"rules\":%s],\"text\":%s],\"before\":%s,\"res\":[%s]}", (unsigned long long) sd, chars(an).c_str(), sj.c_str(), rj.c_str(), text.c_str(), before.c_str(), res.c_str());
	}
}

int main(int argc, char **argv) { return hl::seq_main(argc, argv, one); }
