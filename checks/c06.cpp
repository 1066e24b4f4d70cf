// C06: suggestions are valid words near the misspelt one, best first
#include "words.hpp"
#include "suggestmodel.hpp"
using namespace gen;

namespace {

// the letter case and the characters of the original are kept where possible
W finish(W s, const W & orig, const W & norm, bool dot, bool allUpper) {
	using namespace model;
	if (dot && s.back() != L'.') s += L'.';
	Caps cp = caps(norm);
	if ((cp == FIRST_UPPER || (cp == COMPLEX && isUpper(norm[0]))) && caps(s) == ALL_LOWER) s[0] = upper(s[0]);
	if (cp == ALL_UPPER && allUpper) for (auto & ch : s) ch = upper(ch);
	auto same = [](wchar_t o, wchar_t & m) {
		if (o == m) return true;
		if (!((o == 0x2019 && m == L'\'') || ((o == 0x2010 || o == 0x2011) && m == L'-'))) return false;
		m = o;
		return true;
	};
	size_t n = std::min(orig.size(), s.size()), i = 0;
	while (i < n && same(orig[i], s[i])) i++;
	for (size_t k = 1; k <= n - i && same(orig[orig.size() - k], s[s.size() - k]); k++) {}
	return s;
}

std::vector<W> expected(Ctx & c, const W & word, const Opts & o, bool & limited) {
	using namespace model;
	limited = false;
	std::vector<W> r;
	if (word.size() < 2 || word.size() > MAX_WORD) return r;
	W norm = normalise(word), w(norm);
	bool dot = false;
	if (w.size() < 2) return r;
	if (o.get(VOIKKO_OPT_IGNORE_DOT)) {
		if (w.size() == 2) return r;
		if (w.back() == L'.') { w.pop_back(); dot = true; }
	}
	Suggester s(lexicon(), o.get(VOIKKO_OPT_OCR_SUGGESTIONS));
	for (auto & x : s.run(w)) { r.push_back(finish(x.word, word, w, dot, o.get(VOIKKO_OPT_ACCEPT_ALL_UPPERCASE))); c.label(std::string("by ") + x.by); }
	limited = !s.exhausted();
	return r;
}

std::string str(const std::vector<W> & v) { std::string r; for (auto & s : v) r += uni::show(s) + " "; return r; }

// a misspelt word
W misspelt(Ctx & c) {
	W w;
	bool tiny = c.chance(1, 3);
	switch (tiny ? c.below(2) : c.weighted({8, 3, 3, 2, 2, 1, 1})) {
		case 0: w = lexWord(c); for (int k = 0; tiny && k < 12 && w.size() > 7; k++) w = lexWord(c); break;
		case 1: {
			W a = lexWord(c), b = lexWord(c);
			for (int k = 0; tiny && k < 12 && a.size() > 7; k++) a = lexWord(c);
			for (int k = 0; tiny && k < 12 && b.size() > 7; k++) b = lexWord(c);
			w = a + b;
			break;
		}
		case 2: w = candidate(c); break;
		case 3: w = hyphenated(c); break;
		case 4: { static const std::vector<W> names = loadLines("names.txt"); w = c.pick(names); break; }
		case 5: w = word(c, 260); break;
		default: w = edgeWord(c); break;
	}
	for (int k = 0; k < 4 && w.size() > 18 && c.chance(9, 10); k++) w = lexWord(c);
	static const wchar_t * const BACK = L"aouAOU", * const FRONT = L"äöyÄÖY";
	size_t k = c.weighted({1, 14, 4, 1});
	for (size_t e = 0; e < k && !w.empty(); e++) {
		size_t i = c.below(w.size());
		switch (c.below(11)) {
			case 0: { // vowels of the wrong kind
				for (size_t j = 0; j < w.size(); j++) if (c.coin()) for (int x = 0; x < 6; x++) { if (w[j] == BACK[x]) { w[j] = FRONT[x]; break; } if (w[j] == FRONT[x]) { w[j] = BACK[x]; break; } }
				break;
			}
			case 1: w.erase(i, 1); break;
			case 2: w.insert(i, 1, letter(c)); break;
			case 3: { size_t j = c.below(w.size()); std::swap(w[i], w[j]); break; }
			case 4: w.insert(i, 1, w[i]); break;
			case 5: for (size_t j = 0; j + 1 < w.size(); j++) { size_t q = (i + j) % w.size(); if (q + 1 < w.size() && w[q] == w[q + 1]) { if (c.coin()) w.erase(q, 1); else w[q] = w[q + 1] = letter(c); break; } } break;
			case 6: if (i + 2 <= w.size()) w.insert(i, w.substr(i, 2)); break;
			case 7: { size_t q = w.find(L'-'); if (q != W::npos) w.erase(q, 1); else w.insert(i, 1, L'-'); break; }
			case 8: w.insert(i, 1, c.coin() ? L'\u00AD' : SPECIAL[c.below(wcslen(SPECIAL))]); break;
			default: w[i] = letter(c); break;
		}
	}
	if (c.chance(1, 3)) w = recase(c, w);
	if (c.chance(1, 8)) w += L'.';
	if (c.chance(1, 12)) w = decompose(w);
	if (c.chance(1, 30)) w = ligate(w);
	return w;
}

W scanned(Ctx & c) {
	static const wchar_t * const T = L"0oliiluoouaääaoööoeéöopbbpeffenmmnuvvuoccobhhb_a_i_t_s_n_ä";
	W w = c.coin() ? lexWord(c) : candidate(c);
	if (w.size() > 30) w.resize(30);
	size_t k = 1 + c.below(3);
	for (size_t e = 0; e < k && !w.empty(); e++) {
		size_t p = 2 * c.below(wcslen(T) / 2), i = c.below(w.size());
		for (size_t j = 0; j < w.size(); j++) { size_t q = (i + j) % w.size(); if (w[q] == T[p + 1]) { w[q] = T[p]; break; } }
	}
	if (c.chance(1, 4)) w = recase(c, w);
	return w;
}

}

PBT_PROP(suggest, 10) {
	Opts o;
	for (int k : {VOIKKO_OPT_IGNORE_DOT, VOIKKO_OPT_ACCEPT_ALL_UPPERCASE, VOIKKO_OPT_IGNORE_UPPERCASE, VOIKKO_OPT_ACCEPT_FIRST_UPPERCASE, VOIKKO_OPT_IGNORE_NUMBERS}) if (c.chance(1, 5)) o.b[k] = c.coin();
	bool ocr = c.chance(1, 5);
	if (ocr) o.b[VOIKKO_OPT_OCR_SUGGESTIONS] = 1;
	W w = ocr && c.coin() ? scanned(c) : misspelt(c);
	vk::Handle h;
	o.apply(h);
	c.note("word " + uni::show(w) + " " + o.str());
	bool nul, limited;
	std::vector<W> got = h.suggest(w, &nul);
	c.eval();
	if (got.size() > 5) c.fail("more than five suggestions");
	if (nul != got.empty()) c.fail("empty list of suggestions");
	model::Lexicon & lex = model::lexicon();
	lex.unsure = false;
	std::vector<W> exp = expected(c, w, o, limited);
	if (lex.unsure) { c.label("outside model"); return; }
	std::string u = uni::enc(w);
	if (!exp.empty()) { c.nontrivial(u + o.str()); if (c.wantSample()) c.sample(u + " -> " + str(exp) + o.str()); }
	c.label(exp.empty() ? "no suggestions" : limited ? "search limited" : "search complete");
	if (got != exp) c.fail("suggestions " + str(got) + "expected " + str(exp));
	// with the words as they stand accepted by the speller itself
	if (o.get(VOIKKO_OPT_ACCEPT_ALL_UPPERCASE) && o.get(VOIKKO_OPT_ACCEPT_FIRST_UPPERCASE)) for (auto & s : got) {
		size_t at = 0;
		while (at <= s.size()) {
			size_t e = s.find(L' ', at);
			if (e == W::npos) e = s.size();
			W part = s.substr(at, e - at);
			c.eval();
			if (h.spell(part) != 1 && !(part.size() > 1 && part.back() == L'.' && h.spell(part.substr(0, part.size() - 1)) == 1)) c.fail("suggested " + uni::show(s) + " but " + uni::show(part) + " is not accepted");
			at = e + 1;
		}
	}
}
PBT_MAIN
