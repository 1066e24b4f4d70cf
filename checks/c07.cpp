// C07: hyphenation points are those of the Finnish rules and the lexicon, and inserting hyphens changes nothing else
#include "words.hpp"
#include "spellmodel.hpp"
using namespace gen;

static const int OPTS[] = {VOIKKO_OPT_NO_UGLY_HYPHENATION, VOIKKO_OPT_HYPHENATE_UNKNOWN_WORDS, VOIKKO_OPT_IGNORE_DOT};

struct Set {
	model::HyphOpts o;
	std::string str;
	void draw(Ctx & c, vk::Handle & h) {
		if (c.chance(1, 3)) { o.ugly = c.coin(); h.opt(VOIKKO_OPT_NO_UGLY_HYPHENATION, !o.ugly); str += o.ugly ? " ugly" : " nougly"; }
		if (c.chance(1, 3)) { o.unknown = c.coin(); h.opt(VOIKKO_OPT_HYPHENATE_UNKNOWN_WORDS, o.unknown); str += o.unknown ? " unknown" : " nounknown"; }
		if (c.chance(1, 3)) { o.ignoreDot = c.coin(); h.opt(VOIKKO_OPT_IGNORE_DOT, o.ignoreDot); str += o.ignoreDot ? " ignoredot" : " dot"; }
		if (c.chance(1, 3)) { o.minLen = c.range(1, 9); h.iopt(VOIKKO_MIN_HYPHENATED_WORD_LENGTH, (int) o.minLen); str += " minlen=" + std::to_string(o.minLen); }
	}
};

static W hyphWord(Ctx & c) {
	W w;
	switch (c.weighted({6, 3, 3, 1})) {
		case 0: w = candidate(c); break;
		case 1: w = hyphenated(c); break;
		case 2: { // unknown words: random syllables
			static const wchar_t v[] = L"aeiouyäö", k[] = L"kptsmnlrvhjdgbfcšžqwxz'", x[] = L"-':./&%š1=";
			size_t n = 1 + c.small(14);
			for (size_t i = 0; i < n; i++) switch (c.weighted({6, 5, 1})) { case 0: w += v[c.below(8)]; break; case 1: w += k[c.below(23)]; break; default: w += x[c.below(10)]; }
			if (c.chance(1, 6)) { static const wchar_t * l[] = {L"tš", L"shtsh", L"tsh", L"zh", L"štš", L"aie", L"iea", L"aii", L"uuo", L"iee"}; w.insert(c.below(w.size() + 1), c.pick(l)); }
			if (c.chance(1, 6)) w += L'.';
			if (c.chance(1, 6)) w = recase(c, w);
			break;
		}
		default: w = edgeWord(c); break;
	}
	if (c.chance(1, 12)) w += L'.';
	if (w.size() > 300) w.resize(300);
	return w;
}

PBT_PROP(pattern, 10) {
	W w = hyphWord(c);
	if (w.empty() || !uni::encodable(w)) throw pbt::Discard();
	vk::Handle h;
	Set s;
	s.draw(c, h);
	c.note("word " + uni::show(w) + s.str);
	bool nul = false;
	std::string got = c.chance(1, 4) ? h.hyphU(uni::enc(w), &nul) : h.hyph(w, &nul);
	if (nul) c.fail("no hyphenation pattern");
	if (got.size() != w.size()) c.fail("pattern '" + got + "' has " + std::to_string(got.size()) + " characters, the word has " + std::to_string(w.size()));
	for (size_t i = 0; i < got.size(); i++) {
		if (got[i] != ' ' && got[i] != '-' && got[i] != '=') c.fail("pattern '" + got + "' has the character " + got[i]);
		if (got[i] == '=' && w[i] != L'-' && w[i] != L'\'') c.fail("pattern '" + got + "' replaces a character that is not a hyphen or an apostrophe");
	}
	if (got[0] != ' ') c.fail("hyphenation point before the word in '" + got + "'");
	model::Lexicon & lex = model::lexicon();
	lex.unsure = false;
	std::string exp = model::Hyphenator(lex, s.o).pattern(w);
	c.eval();
	if (lex.unsure) { c.label("outside model"); return; }
	bool pts = exp.find_first_of("-=") != std::string::npos;
	if (pts) { c.nontrivial(uni::enc(w) + s.str); if (c.wantSample()) c.sample(uni::enc(w) + " -> '" + exp + "'" + s.str); }
	c.label(pts ? "with points" : "no points");
	if (got != exp) c.fail("pattern '" + got + "', expected '" + exp + "'");
}

PBT_PROP(insert, 4) {
	W w = hyphWord(c);
	if (w.empty() || !uni::encodable(w)) throw pbt::Discard();
	vk::Handle h;
	Set s;
	s.draw(c, h);
	static const wchar_t * seps[] = {L"-", L"\u00AD", L"&shy;", L"\\-", L"", L"\U0001F600", L"==", L"ä"};
	W sep = c.pick(seps);
	bool ctx = c.coin();
	c.note("word " + uni::show(w) + s.str + " separator " + uni::show(sep) + " context changes " + std::to_string(ctx));
	std::string p = h.hyph(w);
	bool nul = false;
	std::string got = h.insertHyphens(uni::enc(w), uni::enc(sep), ctx, &nul);
	if (nul) c.fail("no result");
	W exp;
	bool repl = false;
	for (size_t i = 0; i < w.size(); i++) {
		if (p[i] == '-') exp += sep + w[i];
		else if (p[i] == '=' && ctx) { exp += w[i] == L'-' ? W(L"-") : sep; repl = true; }
		else exp += w[i];
	}
	c.eval();
	if (p.find_first_of("-=") != std::string::npos) c.nontrivial("ins " + uni::enc(w) + s.str + uni::enc(sep) + std::to_string(ctx));
	c.label(repl ? "insert, replaced" : "insert");
	if (got != uni::enc(exp)) c.fail("hyphenated form " + uni::showBytes(got) + ", expected " + uni::show(exp) + " with the pattern '" + p + "'");
}
PBT_MAIN
