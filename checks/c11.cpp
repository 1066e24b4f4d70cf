// C11: compiled transducers mean what their source says
#include <cmath>
#include "att.hpp"
#include "model.hpp"
#include "query.hpp"
using namespace att;

static const std::vector<std::string> LETTERS = {"a", "b", "c", "d", "e", "z", "ä", "ö", "š", "-", "1"};
static std::vector<std::string> letters(pbt::Ctx & c, bool exotic) {
	std::vector<std::string> r(LETTERS.begin(), LETTERS.begin() + c.range(1, 9));
	if (exotic && c.chance(1, 4)) { r.push_back("-"); r.push_back("1"); }
	if (exotic && c.chance(1, 6)) r.push_back("\xF0\x90\x8C\xB0"); // outside the basic plane
	if (exotic && c.chance(1, 6)) r.push_back("@_SPACE_@");
	return r;
}

static std::string dictionary(Scratch & sc, const char * mor, bool spell, bool sugg) {
	std::string d = sc.dir("5/mor-x");
	sc.file(d + "/index.txt", std::string("Voikko-Dictionary-Format: 5\nLanguage: fi\nMorphology-Backend: ") + mor + "\nGrammar-Backend: null\n" +
		(spell ? "Speller-Backend: vfst\n" : "") + (sugg ? "Suggestion-Backend: vfst\n" : ""));
	return d;
}

static void compiled(pbt::Ctx & c, Scratch & sc, const std::string & text, const std::string & file, bool weighted, bool be, bool logs = false) {
	int rc = compile(sc, text, file, weighted, be, logs);
	if (rc == -2) c.discard();
	if (rc) c.fail("the compiler ended with status " + std::to_string(rc) + " for\n" + text.substr(0, 3000));
}

static W word(pbt::Ctx & c, const Automaton & a, const std::vector<std::string> & in) {
	W w = a.walk(c, c.chance(1, 12) ? 270 : 24);
	if (c.chance(1, 3)) {
		size_t at = c.below(w.size() + 1);
		W ch = Automaton::sym(c.pick(in));
		switch (c.below(4)) {
			case 0: w.insert(at, ch); break;
			case 1: if (at < w.size()) w.erase(at, 1); break;
			case 2: if (at < w.size()) w[at] = ch[0]; break;
			default: w.insert(at, L"q"); break; // not a symbol
		}
	}
	if (w.size() > 255) w.resize(255);
	return w;
}

// words to look up; with a state of hundreds of transitions also every letter of the alphabet at one place of a word
static std::vector<W> words(pbt::Ctx & c, const Automaton & a, const Shape & sh, int n) {
	std::vector<W> r;
	for (int i = 0; i < n; i++) r.push_back(word(c, a, sh.in));
	if (sh.big && c.chance(1, 2)) {
		W w = a.walk(c);
		size_t at = c.below(w.size() + 1);
		bool replace = at < w.size() && c.coin();
		std::set<wchar_t> syms;
		for (auto & st : a.st) for (auto & x : st.arcs) if (!Automaton::isFlag(x.in) && x.in != "@0@") syms.insert(Automaton::sym(x.in)[0]);
		for (wchar_t s : syms) { W v = w; if (replace) v[at] = s; else v.insert(at, 1, s); if (v.size() <= 255) r.push_back(v); }
	}
	return r;
}

static std::string showW(const std::vector<std::pair<W, double>> & v) {
	std::string s;
	for (size_t i = 0; i < v.size() && i < 20; i++) s += "  " + uni::show(v[i].first) + " " + Automaton::num(v[i].second) + "\n";
	return s;
}

PBT_PROP(weighted, 5) {
	Shape sh;
	sh.weighted = true;
	sh.in = letters(c, true);
	sh.out = sh.in;
	for (const char * t : {"[n]", "[plural]", "[", "[ä]", "xyz"}) if (std::string(t) != "[") sh.out.push_back(t);
	sh.big = c.chance(1, 10);
	Automaton a = automaton(c, sh);
	bool be = c.chance(2, 5);
	a.logs = c.chance(1, 4);
	std::string text = a.text(&c);
	c.note((a.logs ? "logarithmic weights, " : "") + std::string(be ? "big endian, " : "little endian, ") + std::string("source:\n") + text.substr(0, 3000));
	Scratch sc;
	std::string d = dictionary(sc, "vfst", false, false);
	compiled(c, sc, text, d + "/mor.vfst", true, be, a.logs);
	vk::Handle h(sc.path);
	if (!h.h) c.fail("the compiled transducer cannot be opened: " + h.error);
	size_t heavy = 0;
	for (W & w : words(c, a, sh, c.range(1, 12))) {
		if (w.empty()) continue;
		auto r = a.run(w);
		if ((heavy += r.steps) > 100000) break;
		if (r.limited || r.outs.size() > 99) { c.label("many paths"); continue; }
		std::vector<std::pair<W, double>> exp, got;
		int arcs = 0;
		double lowest = 0;
		for (auto & o : r.outs) { exp.push_back({o.out, std::exp(o.logp)}); arcs = std::max(arcs, o.arcs); lowest = std::min(lowest, o.logp); }
		if (lowest < (a.logs ? -30 : -300)) { c.label("weight too large"); continue; }
		for (auto & m : h.analyze(w)) {
			if (!m.count("FSTOUTPUT") || !m.count("WEIGHT")) c.fail("an analysis lacks output or weight");
			got.push_back({m["FSTOUTPUT"], std::wcstod(m["WEIGHT"].c_str(), 0)});
		}
		c.eval();
		if (!exp.empty()) { c.nontrivial(text + uni::enc(w) + (be ? "B" : "L")); c.label(sh.big ? "big state" : be ? "byte swapped" : "native"); if (c.wantSample()) c.sample("weighted, " + std::to_string(a.st.size()) + " states, " + uni::show(w) + " -> " + std::to_string(exp.size()) + " outputs"); }
		std::sort(exp.begin(), exp.end());
		std::sort(got.begin(), got.end());
		bool same = exp.size() == got.size();
		if (a.logs) {
			// the scale is not documented: better paths must not be called worse, and a path of weight 0 is certain
			for (size_t k = 0; same && k < exp.size(); k++) {
				same = exp[k].first == got[k].first && (exp[k].second < 1 || got[k].second > 0.999);
				for (size_t j = 0; same && j < exp.size(); j++) same = !(std::log(exp[j].second) - std::log(exp[k].second) > 0.001 * (arcs + 1) && got[j].second < got[k].second);
			}
			if (!same) c.fail("outputs for " + uni::show(w) + " differ; expected\n" + showW(exp) + "got\n" + showW(got));
			c.label("logarithmic weights");
			continue;
		}
		for (size_t k = 0; same && k < exp.size(); k++)
			same = exp[k].first == got[k].first && got[k].second >= exp[k].second * 0.999 && got[k].second <= exp[k].second * std::exp(0.01 * (arcs + 1)) * 1.001;
		if (!same) c.fail("outputs for " + uni::show(w) + " differ; expected\n" + showW(exp) + "got\n" + showW(got));
	}
}

PBT_PROP(unweighted, 5) {
	Shape sh;
	sh.in = letters(c, true);
	// the reader of this kind of file expects a class before everything else, and no more letters than it was given
	sh.prefix = "[Lh]";
	for (const char * t : {"[Sn]", "[Ny]", "[Ses]", "[Fko]", "[O3y]"}) sh.out.push_back(t);
	sh.big = c.chance(1, 10);
	Automaton a = automaton(c, sh);
	bool be = c.chance(2, 5);
	std::string text = a.text(&c);
	c.note((be ? "big endian, " : "little endian, ") + std::string("source:\n") + text.substr(0, 3000));
	Scratch sc;
	std::string d = dictionary(sc, "finnishVfst", false, false);
	compiled(c, sc, text, d + "/mor.vfst", false, be);
	vk::Handle h(sc.path);
	if (!h.h) c.fail("the compiled transducer cannot be opened: " + h.error);
	size_t heavy = 0;
	for (W & w : words(c, a, sh, c.range(1, 12))) {
		if (w.empty()) continue;
		auto r = a.run(w);
		if ((heavy += r.steps) > 100000) break;
		if (r.limited || r.outs.size() > 99) { c.label("many paths"); h.analyze(w); continue; }
		std::vector<W> exp, got;
		for (auto & o : r.outs) if (model::validAnalysis(o.out)) exp.push_back(o.out);
		for (auto & m : h.analyze(w)) { if (!m.count("FSTOUTPUT")) c.fail("an analysis lacks output"); got.push_back(m["FSTOUTPUT"]); }
		c.eval();
		if (!exp.empty()) { c.nontrivial(text + uni::enc(w) + (be ? "B" : "L")); c.label(sh.big ? "big state" : be ? "byte swapped" : "native"); if (c.wantSample()) c.sample("unweighted, " + std::to_string(a.st.size()) + " states, " + uni::show(w) + " -> " + std::to_string(exp.size()) + " outputs"); }
		std::sort(exp.begin(), exp.end());
		std::sort(got.begin(), got.end());
		if (exp != got) {
			std::string m = "outputs for " + uni::show(w) + " differ; expected";
			for (auto & x : exp) m += " " + uni::show(x);
			m += ", got";
			for (auto & x : got) m += " " + uni::show(x);
			c.fail(m);
		}
	}
}

PBT_PROP(speller, 3) {
	Shape sh;
	sh.weighted = true;
	sh.in = letters(c, false);
	std::vector<std::string> lower = sh.in;
	for (const char * u : {"A", "B", "Ä"}) if (c.coin()) sh.in.push_back(u);
	// letters whose two cases the library knows, also at the ends of their ranges, and their neighbours
	for (size_t k = c.coin() ? 1 + c.below(3) : 0; k--;) {
		const model::CaseRange & r = model::CASES[c.below(sizeof model::CASES / sizeof model::CASES[0])];
		wchar_t u = c.chance(1, 4) ? r.last : c.chance(1, 3) ? r.first : r.first + r.step * c.below((r.last - r.first) / r.step + 1);
		wchar_t l = model::lower(u);
		for (wchar_t x : {u, l, c.chance(1, 6) ? (wchar_t) (u + 1) : u, c.chance(1, 6) ? (wchar_t) (l + 1) : l}) {
			std::string t = uni::enc(W(1, x));
			if ((x >= 0xC0 || (x >= 0x61 && x <= 0x7A)) && std::find(sh.in.begin(), sh.in.end(), t) == sh.in.end()) sh.in.push_back(t);
		}
	}
	sh.out = sh.in;
	sh.big = c.chance(1, 12);
	Automaton a = automaton(c, sh);
	bool be = c.chance(2, 5);
	std::string text = a.text(&c);
	c.note((be ? "big endian, " : "little endian, ") + std::string("source:\n") + text.substr(0, 3000));
	Scratch sc;
	std::string d = dictionary(sc, "null", true, false);
	compiled(c, sc, text, d + "/spl.vfst", true, be);
	vk::Handle h(sc.path);
	if (!h.h) c.fail("the compiled transducer cannot be opened: " + h.error);
	size_t heavy = 0;
	for (W & w : words(c, a, sh, c.range(1, 16))) {
		if (w.empty()) continue;
		auto up = [](wchar_t x) { return x != model::lower(x); };
		int ups = 0;
		for (wchar_t x : w) ups += up(x);
		if (ups > 1 || (ups == 1 && !up(w[0]))) for (size_t k = 1; k < w.size(); k++) w[k] = model::lower(w[k]);
		ups = up(w[0]);
		W low = w;
		low[0] = model::lower(low[0]);
		if (ups && w.size() == 1) continue; // all upper case
		W cap = w;
		cap[0] = model::upper(cap[0]);
		auto r1 = a.run(low), r2 = a.run(cap);
		if ((heavy += r1.steps + r2.steps) > 100000) break;
		if (r1.limited || r2.limited) { c.label("many paths"); continue; }
		bool exp = !r1.outs.empty() || (ups && !r2.outs.empty());
		int got = h.spell(w);
		c.eval();
		if (exp) { c.nontrivial(text + uni::enc(w) + (be ? "B" : "L")); c.label(ups ? "capitalised word" : "lower case word"); if (c.wantSample()) c.sample("speller, " + std::to_string(a.st.size()) + " states, " + uni::show(w) + " accepted"); }
		if (got != (exp ? VOIKKO_SPELL_OK : VOIKKO_SPELL_FAILED)) c.fail("spelling of " + uni::show(w) + " gives " + std::to_string(got) + " but the source " + (exp ? "accepts" : "does not accept") + " it");
	}
}

PBT_PROP(suggestions, 4) {
	Shape sp, er;
	sp.weighted = er.weighted = true;
	sp.in = sp.out = letters(c, false);
	sp.maxStates = 5;
	er.in = er.out = sp.in;
	if (c.chance(1, 3)) er.out.push_back("x"); // not a letter of the speller
	Automaton s = automaton(c, sp), e = automaton(c, er);
	if (c.chance(2, 3)) {
		// an error model of the usual kind: everything may stay as it is, some things change
		e = Automaton();
		e.weighted = true;
		e.st.resize(3);
		for (int k = 0; k < 3; k++) {
			for (auto & l : sp.in) e.st[k].arcs.push_back({k, l, l, 1});
			e.st[k].finals = 1;
			e.st[k].fp = {1};
		}
		int n = c.range(1, 6);
		for (int i = 0; i < n; i++) {
			int from = c.below(2), to = from + 1;
			int kind = (int) c.below(4);
			std::string x = c.pick(sp.in), y = c.pick(sp.in);
			e.st[from].arcs.push_back({to, kind == 1 ? "@0@" : x, kind == 2 ? "@0@" : y, prob(c)});
		}
		if (c.chance(1, 3)) { e.st[0].arcs.push_back({1, "@P.F.a@", "@P.F.a@", prob(c)}); e.st[1].arcs.push_back({2, c.coin() ? "@R.F.a@" : "@D.F.a@", "@0@", prob(c)}); }
		if (c.chance(1, 2)) e.st[0].finals = 0, e.st[0].fp.clear();
	}
	bool be = c.chance(1, 4);
	s.logs = e.logs = c.chance(1, 4);
	std::string ts = s.text(&c), te = e.text(&c);
	c.note((s.logs ? "logarithmic weights, " : "") + std::string(be ? "big endian, " : "little endian, ") + std::string("speller:\n") + ts + "error model:\n" + te);
	Scratch sc;
	std::string d = dictionary(sc, "null", true, true);
	compiled(c, sc, ts, d + "/spl.vfst", true, be, s.logs);
	compiled(c, sc, te, d + "/err.vfst", true, be, e.logs);
	vk::Handle h(sc.path);
	if (!h.h) c.fail("the compiled transducers cannot be opened: " + h.error);
	int n = c.range(1, 8);
	for (int i = 0; i < n; i++) {
		W w = c.chance(2, 3) ? word(c, e, sp.in) : word(c, s, sp.in);
		if (w.size() < 2) continue;
		auto r = e.run(w);
		if (r.limited) { c.label("many paths"); continue; }
		struct Range { double lo, hi; };
		std::map<W, Range> exp; // weights, smaller is better
		std::map<W, double> best;
		bool skip = false;
		int arcs = 0;
		for (auto & o : r.outs) { if (o.logp < (s.logs ? -30 : -300)) skip = true; auto it = best.find(o.out); if (it == best.end() || -o.logp < it->second) best[o.out] = -o.logp; arcs = std::max(arcs, o.arcs); }
		for (auto & b : best) {
			auto q = s.run(b.first);
			if (q.limited) { skip = true; break; }
			if (q.outs.empty()) continue;
			if (b.first.empty()) { skip = true; break; }
			double lo = 1e9, hi = -1e9;
			for (auto & o : q.outs) { lo = std::min(lo, -o.logp); hi = std::max(hi, -o.logp); arcs = std::max(arcs, o.arcs); }
			if (hi + b.second > (s.logs ? 30 : 300)) skip = true;
			exp[b.first] = {lo + b.second, hi + b.second};
		}
		if (skip) { c.label("outside model"); continue; }
		std::vector<W> got = h.suggest(w);
		c.eval();
		if (!exp.empty()) { c.nontrivial(ts + te + uni::enc(w)); c.label(exp.size() > 5 ? ">5 suggestions" : "1-5 suggestions"); if (c.wantSample()) c.sample("suggestions, " + uni::show(w) + " -> " + std::to_string(exp.size())); }
		std::string list;
		for (auto & g : got) list += " " + uni::show(g);
		std::set<W> seen;
		for (auto & g : got) {
			if (!exp.count(g)) c.fail("suggestion " + uni::show(g) + " for " + uni::show(w) + " is not an output of the error model that the speller accepts");
			if (!seen.insert(g).second) c.fail("suggestion " + uni::show(g) + " is given twice:" + list);
		}
		if (got.size() != std::min<size_t>(5, exp.size())) c.fail(std::to_string(got.size()) + " suggestions for " + uni::show(w) + ":" + list + ", but the sources license " + std::to_string(exp.size()));
		// weights are rounded down to hundredths on each transition
		double tol = 0.01 * 2 * (arcs + 2);
		for (size_t k = 0; k + 1 < got.size(); k++) for (size_t j = k + 1; j < got.size(); j++)
			if (exp[got[k]].lo > exp[got[j]].hi + tol) c.fail("suggestions for " + uni::show(w) + " are not in the order of their weights:" + list);
		for (auto & x : exp) if (!seen.count(x.first)) for (auto & g : got)
			if (exp[g].lo > x.second.hi + tol) c.fail("suggestion " + uni::show(g) + " for " + uni::show(w) + " is given but the more probable " + uni::show(x.first) + " is not");
	}
}
// the dictionary of the test with every file of it in the other byte order
static std::string swapped(const std::string & data) {
	std::string r(data);
	auto turn = [&](size_t at, size_t n) { if (at + n <= r.size()) std::reverse(r.begin() + at, r.begin() + at + n); };
	bool weighted = data[8] == 1;
	size_t cell = weighted ? 16 : 8;
	unsigned count = (unsigned char) data[16] + 256 * (unsigned char) data[17];
	turn(0, 4);
	turn(4, 4);
	turn(16, 2);
	size_t p = 18;
	for (unsigned i = 0; i < count; i++) p += strlen(data.c_str() + p) + 1;
	if (p % cell) p += cell - p % cell;
	for (size_t more; p < r.size(); p += cell * (1 + more)) {
		// the cells of a state; the second of very many is a number
		more = weighted ? (unsigned char) data[p + 14] : (unsigned char) data[p + 7];
		bool number = more == 255;
		if (number) { uint32_t v; memcpy(&v, &data[p + cell], 4); more = v + 1; }
		for (size_t k = 0; k <= more; k++) {
			size_t q = p + k * cell;
			if (k == 1 && number) { turn(q, 4); continue; }
			if (weighted) { turn(q, 4); turn(q + 4, 4); turn(q + 8, 4); turn(q + 12, 2); }
			else { turn(q, 2); turn(q + 2, 2); turn(q + 4, 3); }
		}
	}
	return r;
}
static vk::Handle & twin() {
	static Scratch sc;
	static vk::Handle * h = [] {
		std::string from = vk::dictPath() + "/5/mor-standard", to = sc.dir("5/mor-standard");
		for (auto & e : std::filesystem::directory_iterator(from)) {
			std::ifstream f(e.path(), std::ios::binary);
			std::stringstream ss;
			ss << f.rdbuf();
			sc.file(to + "/" + e.path().filename().string(), e.path().extension() == ".vfst" ? swapped(ss.str()) : ss.str());
		}
		return new vk::Handle(sc.path);
	}();
	return *h;
}

PBT_PROP(byteorder, 4) {
	vk::Handle & b = twin();
	if (!b.h) c.fail("the dictionary in the other byte order cannot be opened: " + b.error);
	vk::Handle a;
	std::vector<W> ws, ts;
	int n = c.range(1, 10);
	for (int i = 0; i < n; i++) {
		query::Q q = query::gen(c, ws, ts);
		c.note(q.str());
		std::string x = query::answer(a, q), y = query::answer(b, q);
		c.eval();
		if (query::meaningful(q, x)) { c.nontrivial("order" + q.str()); c.label("dictionary in the other byte order"); if (c.wantSample()) c.sample(q.str().substr(0, 100) + " in both byte orders -> " + x.substr(0, 80)); }
		if (x != y) c.fail(q.str() + " gives " + x.substr(0, 600) + " with the dictionary in native byte order and " + y.substr(0, 600) + " in the other");
	}
}
PBT_MAIN
