// Scheduled driver for areas and masks of an engine (spec/Registry.tla).
#include "log.h"
#include "asts.h"
#include <vector>
#include <map>
#include <pthread.h>
#include "hogl/engine.hpp"
#include "hogl/output-null.hpp"
#include "hogl/area.hpp"
#include "hogl/mask.hpp"
#include "hogl/format-null.hpp"
#include "hogl/detail/engine.hpp"

using hl::ev;
using hl::raw;

static hogl::engine *eng;
static std::vector<const hogl::area *> *known;
static std::map<std::string, std::vector<std::string> > *variants;   // name -> section sets
static std::vector<std::vector<rule> > *masks;
static const char *names[] = { "A1", "AB", "A", "B_1", "DD", "A11", "b_1" };
enum { NAMES = 7 };
static const char *defsecs[] = { "INFO", "WARN", "ERROR", "FATAL", "DEBUG", "TRACE", 0 };
static std::vector<std::vector<std::string> > *secsets;

static int aid(const hogl::area *a)
{
	if (!a) return 0;
	for (size_t i = 0; i < known->size(); i++) if ((*known)[i] == a) return i + 1;
	known->push_back(a);
	return known->size();
}

static std::string secs_of(const hogl::area *a)
{
	std::string s = "[";
	for (unsigned i = 0; i < a->size(); i++) s += (i ? "," : "") + chars(a->section_name(i));
	return s + "]";
}
static std::string bits_of(const hogl::area *a)
{
	std::string s = "[";
	for (unsigned i = 0; i < a->size(); i++) s += (i ? "," : "") + std::string(a->test(i) ? "1" : "0");
	return s + "]";
}
static std::string area_json(const hogl::area *a)
{
	char b[32]; snprintf(b, sizeof(b), "%d", aid(a));
	return std::string("\"id\":") + b + ",\"name\":\"" + a->name() + "\",\"secs\":" + secs_of(a) + ",\"bits\":" + bits_of(a);
}

static void log(const std::string &s) { ev(true, "%s", s.c_str()); }
static std::string T() { char b[16]; snprintf(b, sizeof(b), "\"t\":%d", rt::self() + 1); return b; }

enum opk { ADDA, FINDA, MASK, LISTA, SLEEP };
struct op { opk k; int a, b; };
typedef std::vector<op> prog;

static hogl::mask build(int m)
{
	hogl::mask x;
	for (auto &r : (*masks)[m]) x << r.text;
	return x;
}

static void run(prog &p)
{
	for (auto &o : p) {
		switch (o.k) {
		case ADDA: {
			const char *sp[16]; unsigned n = 0;
			std::vector<std::string> ss;
			{ rt::quiet q; if (o.b < 0) ss.assign(defsecs, defsecs + 6); else ss = (*secsets)[o.b]; }
			{ rt::quiet q;
			std::string sj = "[";
			for (auto &s : ss) { sj += (n ? "," : "") + chars(s); sp[n++] = s.c_str(); }
			sp[n] = 0;
			log("{\"e\":\"op\"," + T() + ",\"o\":\"adda\",\"name\":\"" + names[o.a] + "\",\"nm\":" + chars(names[o.a]) + ",\"secs\":" + sj + "]}"); }
			const hogl::area *a = eng->add_area(names[o.a], o.b < 0 ? 0 : sp);
			rt::quiet q;
			log("{\"e\":\"ret\"," + T() + "," + (a ? area_json(a) : "\"id\":0") + "}");
			break;
		}
		case FINDA: {
			{ rt::quiet q; log(std::string("{\"e\":\"op\",") + T() + ",\"o\":\"finda\",\"name\":\"" + names[o.a] + "\"}"); }
			const hogl::area *a = eng->find_area(names[o.a]);
			rt::quiet q;
			log("{\"e\":\"ret\"," + T() + "," + (a ? area_json(a) : "\"id\":0") + "}");
			break;
		}
		case MASK: {
			hogl::mask *m;
			{ rt::quiet q; m = new hogl::mask(build(o.a)); char b[100]; snprintf(b, sizeof(b), ",\"o\":\"mask\",\"m\":%d}", o.a + 1); log("{\"e\":\"op\"," + T() + b); }
			eng->apply_mask(*m);
			rt::quiet q;
			log("{\"e\":\"ret\"," + T() + "}");
			delete m;
			break;
		}
		case LISTA: {
			{ rt::quiet q; log("{\"e\":\"op\"," + T() + ",\"o\":\"lista\"}"); }
			hogl::string_list l;
			eng->list_areas(l);
			rt::quiet q;
			std::string s;
			for (auto &x : l) s += (s.empty() ? "\"" : ",\"") + x + "\"";
			log("{\"e\":\"ret\"," + T() + ",\"v\":[" + s + "]}");
			break;
		}
		case SLEEP: usleep(o.a); break;
		}
	}
}
static void *work(void *a) { run(*(prog *) a); return 0; }

static void all(const char *what)
{
	rt::quiet q;
	hogl::string_list l;
	eng->list_areas(l);
	std::string s;
	for (auto &x : l) s += (s.empty() ? "{" : ",{") + area_json(eng->find_area(x.c_str())) + "}";
	log(std::string("{\"e\":\"") + what + "\",\"v\":[" + s + "]}");
}

static void one(uint64_t seed)
{
	hl::prng g(seed);
	rt::opts so = hl::schedule(g, seed);
	known = new std::vector<const hogl::area *>;
	masks = new std::vector<std::vector<rule> >;
	secsets = new std::vector<std::vector<std::string> >;

	unsigned nsets = g.range(2, 4);
	std::vector<std::string> allsecs, nm(names, names + NAMES);
	for (unsigned i = 0; i < nsets; i++) {
		std::vector<std::string> s;
		if (g.chance(12)) s.assign(defsecs, defsecs + 6);
		else if (i && g.chance(50)) {   // nearly the same
			s = (*secsets)[0];
			switch (g(4)) {
			case 0: s.push_back("X1"); break;
			case 1: if (s.size() > 1) s.pop_back(); break;
			case 2: s[g(s.size())] += "D"; break;
			case 3: if (s.size() > 1) std::swap(s[0], s[s.size() - 1]); break;
			}
		} else {
			unsigned n = g.range(1, 4);
			for (unsigned k = 0; k < n; k++) s.push_back(name_gen(g, true));
		}
		secsets->push_back(s);
		allsecs.insert(allsecs.end(), s.begin(), s.end());
	}
	unsigned nm_ = g.range(2, 4);
	for (unsigned i = 0; i < nm_; i++) {
		std::vector<rule> r;
		unsigned n = g.range(i ? 0 : 1, 3);
		for (unsigned k = 0; k < n; k++) r.push_back(rule_gen(g, nm, allsecs));
		masks->push_back(r);
	}
	unsigned phases = g.range(1, 3), nthr = g.range(2, 4);
	std::vector<std::vector<prog> > pr(phases, std::vector<prog>(nthr));
	for (auto &ph : pr) for (auto &p : ph) {
		unsigned n = g.range(1, 4);
		for (unsigned k = 0; k < n; k++) {
			unsigned x = g(100);
			op o = { ADDA, (int) g(3), (int) g(nsets) };
			if (x < 45) { if (g.chance(60)) o.b = 0; if (g.chance(12)) o.b = -1; }
			else if (x < 60) { o.k = FINDA; }
			else if (x < 90) { o.k = MASK; o.a = g(nm_); }
			else if (x < 95) o.k = LISTA;
			else { o.k = SLEEP; o.a = g.of({10, 1000}); }
			if (o.k == ADDA || o.k == FINDA) o.a = g(5) ? g(3) : g(NAMES);
			p.push_back(o);
		}
	}

	raw("{\"sd\":%llu,\"suite\":\"reg\",\"masks\":[", (unsigned long long) seed);
	for (unsigned i = 0; i < nm_; i++) {
		raw("%s[", i ? "," : "");
		for (size_t k = 0; k < (*masks)[i].size(); k++) raw("%s%s", k ? "," : "", (*masks)[i][k].json.c_str());
		raw("]");
	}
	raw("],\"chars\":{\"HOGL\":[\"H\",\"O\",\"G\",\"L\"]");
	for (unsigned i = 0; i < NAMES; i++) raw(",\"%s\":%s", names[i], chars(names[i]).c_str());
	raw("},\"ev\":[");

	hogl::engine::options eo = hogl::engine::default_options;
	eo.default_mask = build(0);
	eo.polling_interval_usec = 2000;
	eo.tso_buffer_capacity = 16;
	hogl::format_null *fmt = new hogl::format_null;
	hogl::output_null *out = new hogl::output_null(*fmt);

	so.max_idle = 3000;
	rt::begin(so);
	eng = new hogl::engine(*out, eo);
	all("start");
	for (unsigned ph = 0; ph < phases; ph++) {
		pthread_t h[8];
		for (unsigned t = 0; t < nthr; t++) pthread_create(&h[t], 0, work, &pr[ph][t]);
		for (unsigned t = 0; t < nthr; t++) pthread_join(h[t], 0);
		all("obs");
		if (g.chance(40)) {   // sections switched by hand
			{ rt::quiet q; for (auto a : *known) { hogl::area *x = (hogl::area *) a; switch (g(5)) { case 0: x->set(); break; case 1: x->reset(); break; default: for (unsigned i = 0; i < x->size(); i++) if (g.chance(40)) x->set(i, g(2)); } } }
			all("start");
		}
	}
	delete eng;
	rt::end();
}

int main(int argc, char **argv)
{
	if (argc < 5) return 2;
	return hl::run_all(argv[1], strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), one);
}
