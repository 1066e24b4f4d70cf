// C10: equivalent ways of writing the same characters are alike to the speller
#include "words.hpp"
#include "model.hpp"
using namespace gen;

namespace {

struct Way { W canon; std::vector<W> other; };

// canonical decompositions of the letters of Latin 1 and of some letters outside it, typographic characters and ligatures
const std::vector<Way> & ways() {
	static const std::vector<Way> v = [] {
		std::vector<Way> r;
		auto add = [&](const wchar_t * composed, const wchar_t * base, wchar_t mark) { for (size_t i = 0; base[i]; i++) r.push_back(Way{W(1, composed[i]), {W(1, base[i]) + mark}}); };
		add(L"ÀÈÌÒÙàèìòù", L"AEIOUaeiou", 0x300);
		add(L"ÁÉÍÓÚÝáéíóúý", L"AEIOUYaeiouy", 0x301);
		add(L"ÂÊÎÔÛâêîôû", L"AEIOUaeiou", 0x302);
		add(L"ÃÑÕãñõ", L"ANOano", 0x303);
		add(L"ÄËÏÖÜäëïöüÿ", L"AEIOUaeiouy", 0x308);
		add(L"Åå", L"Aa", 0x30A);
		add(L"Çç", L"Cc", 0x327);
		add(L"ŠšŽž", L"SsZz", 0x30C);
		add(L"\u0419\u0439", L"\u0418\u0438", 0x306);
		add(L"\u0400\u0450", L"\u0415\u0435", 0x300);
		add(L"\u0401\u0451\u04E6\u04E7", L"\u0415\u0435\u041E\u043E", 0x308);
		add(L"\u0403\u0453", L"\u0413\u0433", 0x301);
		r.push_back(Way{L"ffi", {L"\uFB03"}});
		r.push_back(Way{L"ffl", {L"\uFB04"}});
		r.push_back(Way{L"ff", {L"\uFB00"}});
		r.push_back(Way{L"fi", {L"\uFB01"}});
		r.push_back(Way{L"fl", {L"\uFB02"}});
		r.push_back(Way{L"°C", {L"\u2103"}});
		r.push_back(Way{L"°F", {L"\u2109"}});
		r.push_back(Way{L"'", {L"\u2019"}});
		r.push_back(Way{L"-", {L"\u2010", L"\u2011"}});
		return r;
	}();
	return v;
}

bool canonical(const W & w) {
	for (size_t i = 0; i < w.size(); i++) {
		if ((w[i] >= 0x300 && w[i] < 0x370)) return false;
		for (auto & y : ways()) for (auto & o : y.other) if (o.size() == 1 && w[i] == o[0]) return false;
	}
	return true;
}

// writes each character in one of the equivalent ways; returns how many were written in another way
size_t rewrite(Ctx & c, const W & w, W & out, int num, int den) {
	size_t k = 0;
	out.clear();
	for (size_t i = 0; i < w.size();) {
		std::vector<const Way *> m;
		for (auto & y : ways()) if (w.compare(i, y.canon.size(), y.canon) == 0) m.push_back(&y);
		if (!m.empty() && c.chance(num, den)) { const Way * y = m[c.below(m.size())]; out += y->other[c.below(y->other.size())]; i += y->canon.size(); k++; }
		else out += w[i++];
	}
	return k;
}

W plainHyphens(W w) { for (auto & ch : w) ch = ch == 0x2019 ? L'\'' : ch == 0x2010 || ch == 0x2011 ? L'-' : ch; return w; }
std::string str(const std::vector<W> & v) { std::string r; for (auto & s : v) r += uni::show(s) + " "; return r; }

}

PBT_PROP(equivalent, 10) {
	W w;
	switch (c.weighted({8, 3, 2, 2, 2, 3})) {
		case 0: w = c.chance(3, 4) ? lexWord(c) : candidate(c); for (int k = 0; k < 6 && w.find_first_of(L"äöåšž-'é") == W::npos && w.find(L"fi") == W::npos && w.find(L"fl") == W::npos && w.find(L"ff") == W::npos; k++) w = lexWord(c); break;
		case 1: w = hyphenated(c); break;
		case 2: { // a word with several convertible characters
			static const wchar_t * t[] = {L"efficiënt", L"fiancée", L"fiktiivinen", L"Flöjt", L"kahvi-fiesta", L"Šakki", L"žanri", L"10°C", L"°C", L"°F:n", L"raa'an", L"vaa'an", L"ruo'on", L"À", L"Étienne", L"señor", L"garçon", L"naïvi", L"Åland", L"grafiikka", L"affiini", L"muffini", L"refluksi", L"offline", L"Zürich", L"crème", L"Citroën", L"linja-auto", L"tšekki", L"büffee", L"rock'n'roll", L"Dvoøák", L"piñata", L"maître", L"ffiffi", L"fflffiffl", L"ffifflffiffi"};
			w = c.pick(t);
			if (c.coin()) w += c.coin() ? lexWord(c) : L"-" + lexWord(c);
			break;
		}
		case 3: { // names of letters
			static const wchar_t * t[] = {L":n", L":t", L":llä", L":lla", L":ssä", L":ssa", L":stä", L":ksi", L":hen", L":tä", L"-kirjain", L"-sana"};
			w = c.pick(ways()).canon;
			if (c.chance(3, 4)) w = lowered(w);
			w += c.pick(t);
			break;
		}
		case 4: { w = lexWord(c); if (w.size()) w[c.below(w.size())] = c.pick(ways()).canon[0]; break; }
		default: { // any convertible character inside
			W a = lexWord(c);
			a.insert(c.below(a.size() + 1), c.pick(ways()).canon);
			w = a;
			break;
		}
	}
	if (c.chance(1, 4)) w = recase(c, w);
	if (c.chance(1, 8)) w += L'.';
	if (!canonical(w) || w.size() < 2) c.discard();
	Opts o;
	for (int k : {VOIKKO_OPT_IGNORE_DOT, VOIKKO_OPT_IGNORE_NUMBERS, VOIKKO_OPT_IGNORE_UPPERCASE, VOIKKO_OPT_ACCEPT_FIRST_UPPERCASE, VOIKKO_OPT_ACCEPT_ALL_UPPERCASE, VOIKKO_OPT_IGNORE_NONWORDS, VOIKKO_OPT_ACCEPT_EXTRA_HYPHENS, VOIKKO_OPT_ACCEPT_MISSING_HYPHENS, VOIKKO_OPT_OCR_SUGGESTIONS})
		if (c.chance(1, 6)) o.b[k] = c.coin();
	if (c.chance(1, 6)) { o.cacheSet = true; o.cache = c.range(-1, 2); }
	W v;
	size_t k = rewrite(c, w, v, c.coin() ? 1 : 3, c.coin() ? 3 : 4);
	if (!k || v.size() > 255 || v.size() < 2) c.discard();
	c.note("word " + uni::show(w) + " written " + uni::show(v) + " " + o.str());
	vk::Handle h, g;
	o.apply(h); o.apply(g);
	bool u8 = c.chance(1, 4) && uni::encodable(w);
	int a = h.spell(w), b = u8 ? g.spellU(uni::enc(v)) : g.spell(v);
	c.eval();
	if (a != b) c.fail("spelling: " + std::to_string(a) + " and " + std::to_string(b));
	if (a == 1) { c.nontrivial(uni::enc(w) + uni::enc(v) + o.str()); c.label("accepted"); if (c.wantSample()) c.sample(uni::enc(w) + " written " + uni::show(v)); }
	if (a != 1 ? c.chance(1, 8) : c.chance(1, 25)) {
		std::vector<W> s = h.suggest(w), t = g.suggest(v), p;
		c.eval();
		for (auto & x : t) p.push_back(plainHyphens(x));
		if (s != p) c.fail("suggestions: " + str(s) + "and " + str(t));
		if (!s.empty()) { c.nontrivial("s" + uni::enc(w) + uni::enc(v) + o.str()); c.label("with suggestions"); }
		// the parts common with the original are as they were written
		for (auto & x : t) {
			W pv = plainHyphens(v), px = plainHyphens(x);
			size_t n = std::min(v.size(), x.size()), i = 0;
			while (i < n && pv[i] == px[i]) { if (v[i] != x[i]) c.fail("suggestion " + uni::show(x) + " does not keep the beginning of " + uni::show(v)); i++; }
			for (size_t e = 1; e <= n - i && pv[v.size() - e] == px[x.size() - e]; e++) if (v[v.size() - e] != x[x.size() - e]) c.fail("suggestion " + uni::show(x) + " does not keep the end of " + uni::show(v));
		}
	}
}
PBT_MAIN
