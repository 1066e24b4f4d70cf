// C09: a word is accepted exactly when the lexicon, its letter case and the options say so
#include "words.hpp"
#include "spellmodel.hpp"
using namespace gen;

static const int OPTS[] = {VOIKKO_OPT_IGNORE_DOT, VOIKKO_OPT_IGNORE_NUMBERS, VOIKKO_OPT_IGNORE_UPPERCASE, VOIKKO_OPT_ACCEPT_FIRST_UPPERCASE, VOIKKO_OPT_ACCEPT_ALL_UPPERCASE,
	VOIKKO_OPT_IGNORE_NONWORDS, VOIKKO_OPT_ACCEPT_EXTRA_HYPHENS, VOIKKO_OPT_ACCEPT_MISSING_HYPHENS};

static W spellWord(Ctx & c) {
	W w;
	switch (c.weighted({7, 5, 3, 2, 2, 4, 1})) {
		case 0: w = candidate(c); break;
		case 1: w = hyphenated(c); break;
		case 2: { // soft hyphens at right and wrong places
			w = c.coin() ? candidate(c) : lexWord(c) + (c.coin() ? W() : lexWord(c));
			std::string p = model::Hyphenator(model::lexicon(), model::HyphOpts()).any(w);
			W r;
			for (size_t i = 0; i < w.size(); i++) { bool at = i < p.size() && p[i] == '-' ? c.coin() : c.chance(1, 40); if (at) r += L'\u00AD'; r += w[i]; }
			if (c.chance(1, 30)) r += L'\u00AD';
			w = r;
			break;
		}
		case 3: { // addresses and the like
			static const wchar_t * t[] = {L"http://a.b", L"a@b.c", L"www.a.fi", L"//a.b", L"x//y.z", L"www.", L"www..fi", L"@.fi", L"a@.b", L"a@b", L"/a.b", L"mailto:a@b.fi", L"www.a.", L"a/b.c", L"a//b", L"https://"};
			w = c.pick(t);
			if (c.coin()) w += c.chance(1, 2) ? lexWord(c) : W(1, oddChar(c));
			if (c.chance(1, 4)) w = typo(c, w);
			break;
		}
		case 5: { // capital letters in several parts of the word, one of them possibly wrong
			static const std::vector<W> names = loadLines("names.txt");
			static const wchar_t * pre[] = {L"Etelä", L"Pohjois", L"Itä", L"Länsi", L"Keski", L"Ylä", L"Ala", L"Uusi", L"Vanha", L"Iso", L"Vähä", L"Neuvosto", L"Suur", L"epä", L"ei", L"ex", L"EU", L"pro"};
			switch (c.below(5)) {
				case 0: w = c.pick(pre); w += L'-'; w += c.pick(names); break;
				case 1: w = c.pick(names) + L"-" + c.pick(names); break;
				case 2: w = c.pick(names) + L"-" + lexWord(c); break;
				case 3: w = lexWord(c) + L"-" + c.pick(names); break;
				default: { static const std::vector<W> cased = [] { std::vector<W> r; for (auto * l : {&lex(), &testWords(), &covWords()}) for (auto & x : *l) { bool up = false; for (size_t i = 1; i < x.size(); i++) up |= lowerCh(x[i]) != x[i]; if (up) r.push_back(x); } r.push_back(L"iPad"); return r; }(); w = c.pick(cased); }
			}
			if (!w.empty() && c.chance(2, 3)) { size_t i = c.coin() ? 0 : c.below(w.size()); w[i] = lowerCh(w[i]) != w[i] ? lowerCh(w[i]) : upperCh(w[i]); }
			if (c.chance(1, 3)) w += L'.';
			return w.substr(0, 255);
		}
		case 6: { // abbreviations and single letters
			static const std::vector<W> abbr = [] { std::vector<W> r; for (auto * l : {&lex(), &testWords(), &covWords()}) for (auto & x : *l) if (x.size() > 1 && x.size() < 12 && x.back() == L'.') r.push_back(x); return r; }();
			w = c.chance(1, 3) ? W(1, c.coin() ? letter(c) : oddChar(c)) : c.pick(abbr);
			if (c.chance(1, 4)) w = lexWord(c) + L"-" + w;
			w = recase(c, w);
			if (c.chance(1, 6)) w += L'.';
			if (c.chance(1, 8)) w = L"-" + w;
			return w;
		}
		default: { static const std::vector<W> names = loadLines("names.txt"); w = c.pick(names); if (c.chance(1, 3)) w = lowered(w); if (c.chance(1, 3)) w = recase(c, w); break; }
	}
	if (c.chance(1, 6)) w += L'.';
	if (c.chance(1, 12)) w = decompose(w);
	if (c.chance(1, 6)) w = recase(c, w);
	if (c.chance(1, 20)) w = ligate(w);
	return w;
}

PBT_PROP(spell, 10) {
	W w = spellWord(c);
	Opts o;
	std::string ostr;
	size_t dense = c.chance(1, 3) ? 1 : 4;
	for (int k : OPTS) if (c.chance(1, dense)) o.b[k] = c.coin();
	if (!w.empty() && w.back() == L'.' && c.coin()) o.b[VOIKKO_OPT_IGNORE_DOT] = 1;
	if (c.chance(1, 6)) { o.cacheSet = true; o.cache = c.range(-1, 2); }
	vk::Handle h;
	o.apply(h);
	c.note("word " + uni::show(w) + " " + o.str());
	std::string u = uni::enc(w);
	int got = c.chance(1, 4) && uni::encodable(w) ? h.spellU(u) : h.spell(w);
	model::Lexicon & lex = model::lexicon();
	lex.unsure = false;
	model::Speller sp(lex, model::SpellOpts(o));
	int exp = sp.spell(w);
	c.eval();
	if (lex.unsure) { c.label("outside model"); return; }
	if (exp == 1) { c.nontrivial(u + o.str()); if (c.wantSample()) c.sample(u + " accepted, " + o.str()); }
	c.label(exp ? "accepted" : "rejected");
	if (got != exp) c.fail("spell answers " + std::to_string(got) + ", expected " + std::to_string(exp));
}
PBT_MAIN
