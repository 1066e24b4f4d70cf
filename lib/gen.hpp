// Input generators shared by the checks.
#pragma once
#include <fstream>
#include "pbt.hpp"
#include "uni.hpp"
#include "vk.hpp"

namespace gen {
using uni::W;
using pbt::Ctx;

inline std::vector<W> loadLines(const std::string & f) {
	std::vector<W> r;
	std::ifstream in;
	const char * own = getenv("VERIF_WORDS"); // word lists of another dictionary
	if (own) in.open(vk::dataDir() + "/" + own + "/" + f);
	if (!own || !in) { in.clear(); in.open(vk::dataDir() + "/" + f); }
	std::string l;
	while (std::getline(in, l)) if (!l.empty()) r.push_back(uni::dec(l));
	if (r.empty()) { fprintf(stderr, "missing data file %s\n", f.c_str()); exit(3); }
	return r;
}
// a few words of every kind that the grammar rules tell apart
inline const std::vector<W> & roles() { static const std::vector<W> v = loadLines("roles.txt"); return v; }
inline const std::vector<W> & lex() { static const std::vector<W> v = loadLines("lexwords.txt"); return v; }
inline const std::vector<W> & testWords() { static const std::vector<W> v = loadLines("testwords.txt"); return v; }
inline const std::vector<W> & sentences() { static const std::vector<W> v = loadLines("sentences.txt"); return v; }
// phrases the autocorrect data calls incorrect; the file is extracted from the tree's fi.xml by the build
inline const std::vector<W> & phrases() {
	static const std::vector<W> v = [] {
		std::vector<W> r;
		std::ifstream in(vk::dictPath() + "/phrases.txt");
		std::string l;
		while (std::getline(in, l)) { size_t t = l.find('\t'); if (t != std::string::npos) r.push_back(uni::dec(l.substr(0, t))); }
		if (r.empty()) r.push_back(L"joten kuten");
		return r;
	}();
	return v;
}

inline wchar_t lowerCh(wchar_t c) {
	if ((c >= 'A' && c <= 'Z') || (c >= 0xC0 && c <= 0xDE && c != 0xD7)) return c + 32;
	if (c == 0x160 || c == 0x17D) return c + 1;
	return c;
}
inline wchar_t upperCh(wchar_t c) {
	if ((c >= 'a' && c <= 'z') || (c >= 0xE0 && c <= 0xFE && c != 0xF7)) return c - 32;
	if (c == 0x161 || c == 0x17E) return c - 1;
	return c;
}
inline W lowered(W w) { for (auto & c : w) c = lowerCh(c); return w; }
inline W uppered(W w) { for (auto & c : w) c = upperCh(c); return w; }
inline W capital(W w) { if (!w.empty()) w[0] = upperCh(w[0]); return w; }

static const wchar_t FI_LETTERS[] = L"aeinstlokäuöyrmvphdjgbfcšžåqwxz";
static const wchar_t SPECIAL[] = L"-.'\u2019\u00AD:/,0123456789\u2010\u2011\u2013\u2014()[]\"”»@&%?!…;{}+*#_=";
static const wchar_t ODD[] = L"\uFB00\uFB01\uFB02\uFB03\uFB04\u2103\u2109\u0300\u0301\u0302\u0303\u0306\u0308\u030A\u030C\u0327éèàçñüßæøÿþðđŋŧʒǩǥŠŽÅÀÁÂÃ×÷ĀāŁłŸſ"
	L"\u018F\u0259\u01B7\u0292\u01CD\u0218\u0219\u0400\u0410\u0418\u0430\u0435\u0438\u0439\u0451\u0481\u0527\u0526\u1400\u15C3\u2028\u2029\u00A0\u0085\u1680\u180E\u2000\u200A\u202F\u205F\u3000\u200B\uFEFF\u0391\u03B1\u05D0\u4E00\uFFFD\uFFFF"
	L"\U0001F600\U0001D400\U0010FFFF\u0001\u0007\u001F\u007F\u0080\u00B0\u00BD";

inline wchar_t oddChar(Ctx & c) {
	switch (c.weighted({5, 5, 2, 1, 1})) {
		case 0: return SPECIAL[c.below(wcslen(SPECIAL))];
		case 1: return ODD[c.below(wcslen(ODD))];
		case 2: return (wchar_t) c.range(0x20, 0x2FF);
		case 3: { wchar_t x = (wchar_t) c.range(0x300, 0x2FFF); return x; }
		default: { wchar_t x = (wchar_t) c.range(1, 0x10FFFF); return x >= 0xD800 && x <= 0xDFFF ? L'x' : x; }
	}
}
inline wchar_t letter(Ctx & c) { return FI_LETTERS[c.below(31)]; }

// beginnings and endings of words that are valid only with a hyphen
inline const std::vector<W> & hyphenWords() { static const std::vector<W> v = loadLines("hyphenwords.txt"); return v; }
// words that together cover all pairs and most triples of morphological features (tags and attribute values)
inline const std::vector<W> & covWords() { static const std::vector<W> v = loadLines("covwords.txt"); return v; }
inline const W & lexWord(Ctx & c) { if (c.chance(1, 24)) return c.pick(hyphenWords()); switch (c.weighted({6, 3, 3})) { case 0: return c.pick(lex()); case 1: return c.pick(testWords()); default: return c.pick(covWords()); } }

// case pattern of a word
inline W recase(Ctx & c, const W & w) {
	switch (c.weighted({8, 6, 4, 2, 2, 1})) {
		case 0: return w;
		case 1: return capital(w);
		case 2: return uppered(w);
		case 3: { W r(w); if (!r.empty()) { size_t i = c.below(r.size()); r[i] = upperCh(r[i]); } return r; }
		case 4: { W r(w); bool up = true; for (auto & ch : r) { if (up) ch = upperCh(ch); up = ch == L'-'; } return r; }
		default: { W r(w); for (auto & ch : r) if (c.coin()) ch = c.coin() ? upperCh(ch) : lowerCh(ch); return r; }
	}
}

// typing error
inline W typo(Ctx & c, W w) {
	if (w.empty()) { w += letter(c); return w; }
	size_t i = c.below(w.size());
	switch (c.below(8)) {
		case 0: w[i] = letter(c); break;
		case 1: w.erase(i, 1); break;
		case 2: w.insert(i, 1, letter(c)); break;
		case 3: if (i + 1 < w.size()) std::swap(w[i], w[i + 1]); break;
		case 4: w.insert(i, 1, w[i]); break;
		case 5: w.insert(i, 1, L'-'); break;
		case 6: w.insert(i, 1, SPECIAL[c.below(wcslen(SPECIAL))]); break;
		default: w.insert(i, 1, L' '); break;
	}
	return w;
}

inline W decompose(const W & w) {
	W r;
	for (wchar_t ch : w) {
		switch (ch) {
			case L'ä': r += L"a\u0308"; break; case L'ö': r += L"o\u0308"; break; case L'å': r += L"a\u030A"; break;
			case L'Ä': r += L"A\u0308"; break; case L'Ö': r += L"O\u0308"; break; case L'Å': r += L"A\u030A"; break;
			case L'š': r += L"s\u030C"; break; case L'ž': r += L"z\u030C"; break; case L'é': r += L"e\u0301"; break;
			case L'-': r += L'\u2010'; break; case L'\'': r += L'\u2019'; break;
			default: r += ch;
		}
	}
	return r;
}
inline W ligate(W w) {
	static const wchar_t * from[] = {L"ffi", L"ffl", L"ff", L"fi", L"fl"};
	static const wchar_t to[] = {0xFB03, 0xFB04, 0xFB00, 0xFB01, 0xFB02};
	for (int k = 0; k < 5; k++) {
		size_t p;
		while ((p = w.find(from[k])) != W::npos) w.replace(p, wcslen(from[k]), 1, to[k]);
	}
	return w;
}

// a word like string: mostly valid words and near misses, sometimes noise
inline W word(Ctx & c, size_t maxLen = 300) {
	W w;
	switch (c.weighted({14, 4, 4, 3, 2, 3, 1, 1})) {
		case 0: w = lexWord(c); break;
		case 1: w = lexWord(c) + lexWord(c); break;
		case 2: w = lexWord(c) + L"-" + lexWord(c); break;
		case 3: { size_t n = c.small(14); for (size_t i = 0; i < n; i++) w += letter(c); break; }
		case 4: { size_t n = c.small(12); for (size_t i = 0; i < n; i++) w += c.coin() ? letter(c) : oddChar(c); break; }
		case 5: { // numbers, abbreviations, URLs
			static const wchar_t * t[] = {L"1", L"12", L"2009", L"3.", L"12:00", L"1,5", L"10-", L"-5", L"15-vuotias", L"1990-luku", L"EU:n", L"esim.", L"www.", L"http://", L"a@b.fi", L"www.suomi.fi", L"foo@bar", L"//a.b", L"--", L"-", L".", L"'", L"ruokala.com", L"§", L"%", L"°C", L"1/2", L"2.3.2004", L"e.Kr.", L"c/o"};
			w = c.pick(t);
			if (c.coin()) w += lexWord(c);
			break;
		}
		case 6: { // many parts
			size_t n = 2 + c.below(8);
			for (size_t i = 0; i < n; i++) { if (i && c.coin()) w += L'-'; w += lexWord(c); }
			break;
		}
		default: { // around the length limits
			size_t n = c.coin() ? 250 + c.below(12) : 40 + c.below(200);
			W p = c.coin() ? lexWord(c) : W(1, letter(c));
			if (c.coin()) p += L'-';
			while (w.size() < n) w += p;
			w.resize(n);
			break;
		}
	}
	if (c.chance(1, 3)) w = recase(c, w);
	if (c.chance(1, 4)) { size_t n = 1 + c.small(3); for (size_t i = 0; i < n; i++) w = typo(c, w); }
	if (c.chance(1, 10)) { size_t n = 1 + c.below(3); for (size_t i = 0; i < n && !w.empty(); i++) w.insert(c.below(w.size() + 1), 1, L'\u00AD'); }
	if (c.chance(1, 10)) w += L'.';
	if (c.chance(1, 12)) w = L"-" + w;
	if (c.chance(1, 12)) w += L'-';
	if (c.chance(1, 12)) w = decompose(w);
	if (c.chance(1, 20)) w = ligate(w);
	if (c.chance(1, 20)) { if (!w.empty()) w[c.below(w.size())] = oddChar(c); }
	if (w.size() > maxLen) w.resize(maxLen);
	return w;
}

// short and degenerate words: few characters of a small alphabet, many hyphens, repeated pieces
inline W edgeWord(Ctx & c) {
	static const wchar_t alpha[] = L"-.'a\u00ADäAs1:kiyöÄ\u2019\u2010\uFB03\u0308\u2103=[]@/ \u200B\U0001F600";
	W w;
	switch (c.below(5)) {
		case 0: { size_t n = c.below(5); for (size_t i = 0; i < n; i++) w += alpha[c.below(wcslen(alpha))]; break; }
		case 1: { size_t n = 1 + c.below(60); for (size_t i = 0; i < n; i++) { w += c.chance(1, 4) ? lexWord(c).substr(0, 1 + c.below(4)) : W(1 + c.below(2), letter(c)); w += L'-'; } if (c.coin()) w.pop_back(); break; }
		case 2: { W p; size_t n = 1 + c.below(3); for (size_t i = 0; i < n; i++) p += alpha[c.below(wcslen(alpha))]; size_t k = 1 + c.below(300 / n); for (size_t i = 0; i < k; i++) w += p; break; }
		case 3: { w = lexWord(c); size_t n = 1 + c.below(4); for (size_t i = 0; i < n; i++) w.insert(c.below(w.size() + 1), 1, alpha[c.below(wcslen(alpha))]); break; }
		default: { // a compound of many short valid pieces
			static const wchar_t * p[] = {L"yö", L"työ", L"maa", L"suo", L"jää", L"kuu", L"puu", L"tie", L"sää", L"talo", L"auto", L"kala", L"ei", L"1", L"EU", L"a", L"viisi", L"sata", L"tuhat"};
			size_t n = 1 + c.below(30);
			for (size_t i = 0; i < n; i++) { if (i && c.chance(1, 3)) w += L'-'; w += c.pick(p); }
			break;
		}
	}
	if (c.chance(1, 4)) w = recase(c, w);
	if (w.size() > 300) w.resize(300);
	return w;
}

// running text
inline W text(Ctx & c, size_t maxLen = 3000) {
	W t;
	size_t parts = 1 + c.small(c.chance(1, 8) ? 40 : 8);
	for (size_t i = 0; i < parts && t.size() < maxLen; i++) {
		switch (c.weighted({10, 6, 3, 2, 1})) {
			case 0: { // sentence of words
				size_t n = 1 + c.small(16);
				for (size_t k = 0; k < n; k++) {
					W w = c.chance(1, 6) ? word(c, 260) : lexWord(c);
					if (k == 0 && c.chance(3, 4)) w = capital(w);
					if (k) {
						static const wchar_t * sep[] = {L" ", L" ", L" ", L" ", L" ", L", ", L"  ", L" ,", L",", L": ", L" - ", L" \u2013 ", L"; ", L" (", L") ", L" \"", L"\" ", L" \u201D", L"\u201D ", L"/", L"\t", L"\n", L"\u00A0", L". ", L"... ", L".", L", ,", L",,", L" -", L"- "};
						t += c.pick(sep);
					}
					t += w;
				}
				static const wchar_t * end[] = {L".", L".", L".", L"?", L"!", L"", L"...", L"…", L".\"", L"\".", L"!?", L".)", L").", L":", L",", L" .", L"?\u201D", L" ja"};
				t += c.pick(end);
				break;
			}
			case 1: t += c.pick(sentences()); break;
			case 2: t += c.chance(1, 2) ? capital(c.pick(phrases())) : c.pick(phrases()); break;
			case 3: { size_t n = c.small(20); for (size_t k = 0; k < n; k++) t += c.chance(1, 3) ? L' ' : c.coin() ? letter(c) : oddChar(c); break; }
			default: { W w = word(c); t += w; break; }
		}
		static const wchar_t * glue[] = {L" ", L" ", L" ", L"  ", L"", L"\n", L" \n ", L" \u2013 ", L"\u2029"};
		if (i + 1 < parts) t += c.pick(glue);
	}
	if (c.chance(1, 5)) { size_t n = 1 + c.small(4); for (size_t i = 0; i < n; i++) t = typo(c, t); }
	if (c.chance(1, 10)) { size_t n = 1 + c.below(4); for (size_t i = 0; i < n && !t.empty(); i++) t.insert(c.below(t.size() + 1), 1, L'\u00AD'); }
	if (c.chance(1, 20)) t = decompose(t);
	if (t.size() > maxLen) t.resize(maxLen);
	return t;
}

// bytes which are mostly, but not always, well formed UTF-8
inline std::string mangle(Ctx & c, std::string s) {
	size_t n = 1 + c.small(3);
	static const unsigned char bad[] = {0x80, 0xBF, 0xC0, 0xC1, 0xC3, 0xE2, 0xED, 0xA0, 0xEF, 0xF0, 0xF4, 0x90, 0xF5, 0xF8, 0xFC, 0xFE, 0xFF};
	for (size_t i = 0; i < n; i++) {
		size_t p = c.below(s.size() + 1);
		switch (c.below(4)) {
			case 0: s.insert(p, 1, (char) bad[c.below(sizeof bad)]); break;
			case 1: if (p < s.size()) s.erase(p, 1); break;
			case 2: if (p < s.size()) s[p] = (char) bad[c.below(sizeof bad)]; break;
			default: s.resize(p); break;
		}
	}
	for (auto & ch : s) if (ch == 0) ch = 'x';
	return s;
}

static const int BOOL_OPTS[] = {VOIKKO_OPT_IGNORE_DOT, VOIKKO_OPT_IGNORE_NUMBERS, VOIKKO_OPT_IGNORE_UPPERCASE, VOIKKO_OPT_ACCEPT_FIRST_UPPERCASE, VOIKKO_OPT_ACCEPT_ALL_UPPERCASE,
	VOIKKO_OPT_NO_UGLY_HYPHENATION, VOIKKO_OPT_OCR_SUGGESTIONS, VOIKKO_OPT_IGNORE_NONWORDS, VOIKKO_OPT_ACCEPT_EXTRA_HYPHENS, VOIKKO_OPT_ACCEPT_MISSING_HYPHENS,
	VOIKKO_OPT_ACCEPT_TITLES_IN_GC, VOIKKO_OPT_ACCEPT_UNFINISHED_PARAGRAPHS_IN_GC, VOIKKO_OPT_HYPHENATE_UNKNOWN_WORDS, VOIKKO_OPT_ACCEPT_BULLETED_LISTS_IN_GC};
static const int N_BOOL_OPTS = sizeof BOOL_OPTS / sizeof BOOL_OPTS[0];

// a setting of all options
struct Opts {
	std::map<int, int> b;
	int minHyph = 2, cache = 0;
	bool minHyphSet = false, cacheSet = false;
	void apply(vk::Handle & h) const {
		for (auto & kv : b) h.opt(kv.first, kv.second);
		if (minHyphSet) h.iopt(VOIKKO_MIN_HYPHENATED_WORD_LENGTH, minHyph);
		if (cacheSet) h.iopt(VOIKKO_SPELLER_CACHE_SIZE, cache);
	}
	int get(int o) const {
		auto it = b.find(o);
		if (it != b.end()) return it->second;
		return o == VOIKKO_OPT_IGNORE_NONWORDS || o == VOIKKO_OPT_ACCEPT_FIRST_UPPERCASE || o == VOIKKO_OPT_ACCEPT_ALL_UPPERCASE || o == VOIKKO_OPT_HYPHENATE_UNKNOWN_WORDS;
	}
	std::string str() const {
		std::string s = "options{";
		for (auto & kv : b) s += std::to_string(kv.first) + "=" + std::to_string(kv.second) + " ";
		if (minHyphSet) s += "minhyph=" + std::to_string(minHyph) + " ";
		if (cacheSet) s += "cache=" + std::to_string(cache);
		return s + "}";
	}
};
inline Opts options(Ctx & c, int num = 1, int den = 3) {
	Opts o;
	for (int i = 0; i < N_BOOL_OPTS; i++) if (c.chance(num, den)) o.b[BOOL_OPTS[i]] = c.coin();
	if (c.chance(num, den)) { o.minHyphSet = true; o.minHyph = c.range(2, 12); }
	if (c.chance(num, den)) { o.cacheSet = true; o.cache = c.range(-1, 3); }
	return o;
}

} // namespace gen
