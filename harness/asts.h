// Random extended regular expressions as syntax trees (JSON and text), see spec/Mask.tla
#pragma once
#include "prng.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>

struct rex {
	std::string json, text;
};

static const char *rex_alpha[] = { "A", "B", "_", "1", "D", "b", "." };
enum { ALPHA = 7 };

static rex rex_ch(char c) { return { std::string("{\"k\":\"ch\",\"c\":\"") + c + "\"}", std::string(c == '.' ? "\\" : "") + c }; }

static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '\\' || c == '"') r += '\\'; r += c; } return r; }

static rex rex_gen(hl::prng &g, int depth, bool colon)
{
	rex r;
	unsigned k = depth <= 0 ? g(5) : g(12);
	if (k <= 1 || (k == 2 && !colon)) {
		return rex_ch(rex_alpha[g(ALPHA)][0]);
	}
	if (k == 2) return { "{\"k\":\"ch\",\"c\":\":\"}", ":" };
	if (k == 3) return { "{\"k\":\"any\"}", "." };
	if (k == 4) {
		bool neg = g.chance(30);
		std::string t, s;
		unsigned n = g.range(1, 3), b = g(ALPHA);
		if (g.chance(25)) { bool d = g(2); t = d ? "0-2" : "A-D"; s = d ? "\"0\",\"1\",\"2\"" : "\"A\",\"B\",\"C\",\"D\""; }
		else for (unsigned i = 0; i < n; i++) { std::string c = rex_alpha[(b + i) % ALPHA]; t += c; s += (i ? ",\"" : "\"") + c + "\""; }
		return { std::string("{\"k\":\"cls\",\"neg\":") + (neg ? "true" : "false") + ",\"t\":\"" + t + "\",\"s\":[" + s + "]}", std::string("[") + (neg ? "^" : "") + t + "]" };
	}
	rex a = rex_gen(g, depth - 1, colon);
	if (k <= 7) {
		rex b = rex_gen(g, depth - 1, colon);
		return { "{\"k\":\"cat\",\"a\":" + a.json + ",\"b\":" + b.json + "}", a.text + b.text };
	}
	if (k == 8) {
		rex b = rex_gen(g, depth - 1, colon);
		return { "{\"k\":\"alt\",\"a\":" + a.json + ",\"b\":" + b.json + "}", "(" + a.text + "|" + b.text + ")" };
	}
	if (k == 11) {
		unsigned lo = g(3), hi = lo + g(2) + !lo; char b[64], t[16];
		snprintf(b, sizeof(b), "{\"k\":\"rep\",\"lo\":%u,\"hi\":%u,\"a\":", lo, hi); snprintf(t, sizeof(t), "{%u,%u}", lo, hi);
		return { b + a.json + "}", "(" + a.text + ")" + t };
	}
	const char *n[] = { "star", "plus", "opt" }, *o[] = { "*", "+", "?" };
	unsigned q = g(3);
	return { std::string("{\"k\":\"") + n[q] + "\",\"a\":" + a.json + "}", "(" + a.text + ")" + o[q] };
}

// literal text as a tree
static rex rex_lit(const std::string &s)
{
	rex r = { "{\"k\":\"eps\"}", "" };
	for (size_t i = 0; i < s.size(); i++) {
		rex c = rex_ch(s[i]);
		if (i) r = { "{\"k\":\"cat\",\"a\":" + r.json + ",\"b\":" + c.json + "}", r.text + c.text };
		else r = c;
	}
	return r;
}

static std::string chars(const std::string &s)
{
	std::string r = "[";
	for (size_t i = 0; i < s.size(); i++) r += std::string(i ? ",\"" : "\"") + s[i] + "\"";
	return r + "]";
}

static std::string name_gen(hl::prng &g, bool colon)
{
	std::string s;
	unsigned n = g.range(1, 5);
	for (unsigned i = 0; i < n; i++) s += colon && g.chance(10) ? ":" : rex_alpha[g(ALPHA)];
	return s;
}

// std::regex takes exponential time with nested repetitions
static bool nested(const std::string &t)
{
	std::vector<bool> rep(1, false); unsigned n = 0;
	for (size_t i = 0; i < t.size(); i++) {
		if (t[i] == '(') { rep.push_back(false); continue; }
		if (t[i] != ')') continue;
		bool in = rep.back(), q = i + 1 < t.size() && strchr("*+?{", t[i + 1]); rep.pop_back();
		if (in && q) return true;
		if (in || q) rep.back() = true;
		n += q;
	}
	return n > 4;
}

struct rule { std::string json, text; };

// A rule: aims at existing names often enough to hit something
static rule rule_gen1(hl::prng &g, const std::vector<std::string> &areas, const std::vector<std::string> &secs)
{
	bool neg = g.chance(45), sform = g.chance(20);
	rex eps = { "{\"k\":\"eps\"}", "" }, all = { "{\"k\":\"cat\",\"a\":{\"k\":\"star\",\"a\":{\"k\":\"any\"}},\"b\":{\"k\":\"eps\"}}", "(.)*" };
	auto part = [&](const std::vector<std::string> &v, bool colon) -> rex {
		unsigned x = g(100);
		if (x < 18) return eps;
		if (x < 30) return all;
		if (x < 55 && v.size()) return rex_lit(v[g(v.size())]);
		if (x < 75 && v.size()) {   // prefix + anything
			std::string s = v[g(v.size())];
			rex p = rex_lit(s.substr(0, g(s.size()) + 1));
			return { "{\"k\":\"cat\",\"a\":" + p.json + ",\"b\":" + all.json + "}", p.text + all.text };
		}
		rex p = rex_gen(g, 3, colon);
		if (x < 80) return { "{\"k\":\"cat\",\"a\":{\"k\":\"bol\"},\"b\":{\"k\":\"cat\",\"a\":" + p.json + ",\"b\":{\"k\":\"eol\"}}}", "^" + p.text + "$" };
		return p;
	};
	rex a = sform ? eps : part(areas, false);
	bool colon = !sform;
	rex b = part(secs, colon);
	if (sform && b.text.find(':') != std::string::npos) b = all;
	rule r;
	r.text = (neg ? "!" : "") + (sform ? "" : a.text + ":") + b.text;
	r.json = std::string("{\"neg\":") + (neg ? "true" : "false") + ",\"form\":\"" + (sform ? "s" : "as") + "\",\"a\":" + a.json + ",\"b\":" + b.json + "}";
	return r;
}
static rule rule_gen(hl::prng &g, const std::vector<std::string> &areas, const std::vector<std::string> &secs) { rule r; do r = rule_gen1(g, areas, secs); while (nested(r.text)); return r; }
