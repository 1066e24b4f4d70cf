// Reference model of Finnish hyphenation and spell checking on top of the analysis model.
#pragma once
#include "model.hpp"
#include "gen.hpp"

namespace model {

// how likely a word of this analysis is meant: smaller is likelier
inline int likelihood(const W & cls, const W & cas) {
	static const std::set<W> nominal = {L"nimisana", L"laatusana", L"nimisana_laatusana", L"asemosana", L"etunimi", L"sukunimi", L"paikannimi", L"nimi"};
	static const std::map<W, int> byCase = {{L"nimento", 2}, {L"omanto", 3}, {L"osanto", 5}, {L"sisaolento", 8}, {L"sisaeronto", 12}, {L"sisatulento", 8}, {L"ulkoolento", 12}, {L"ulkoeronto", 30},
		{L"ulkotulento", 20}, {L"olento", 20}, {L"tulento", 20}, {L"vajanto", 60}, {L"seuranto", 60}, {L"keinonto", 20}};
	if (!nominal.count(cls)) return 4;
	auto it = byCase.find(cas);
	return it == byCase.end() ? 4 : it->second;
}

struct Brief { W structure; bool freeTail; int likelihood; };   // what spelling and hyphenation need of an analysis

class Lexicon {
public:
	explicit Lexicon(const std::string & mor) : fi(mor) {}
	Finnish fi;
	bool unsure = false;
	const std::vector<Brief> & get(const W & w) {
		if (memo.size() > 20000) memo.clear();
		auto it = memo.find(w);
		if (it == memo.end()) {
			fi.unsure = false;
			Entry e;
			for (auto & a : fi.analyze(w)) e.a.push_back(Brief{a.count("STRUCTURE") ? a["STRUCTURE"] : W(), a.count("MALAGA_VAPAA_JALKIOSA") > 0, likelihood(a["CLASS"], a["SIJAMUOTO"])});
			e.unsure = fi.unsure;
			it = memo.emplace(w, e).first;
		}
		if (it->second.unsure) unsure = true;
		return it->second.a;
	}
private:
	struct Entry { std::vector<Brief> a; bool unsure; };
	std::map<W, Entry> memo;
};

// ---------------------------------------------------------------- hyphenation

struct HyphOpts { bool ugly = true, unknown = true, ignoreDot = false; size_t minLen = 2; };

class Hyphenator {
public:
	Hyphenator(Lexicon & l, const HyphOpts & o) : lex(l), opt(o) {}
	// ' ', '-' and '=' per character; all positions on which the readings of the word agree
	std::string pattern(const W & w) { return combine(w, false); }
	// the positions of any reading
	std::string any(const W & w) { return combine(w, true); }
private:
	Lexicon & lex;
	HyphOpts opt;

	static bool point(char c) { return c == '-' || c == '='; }

	std::string combine(const W & w, bool all) {
		size_t n = w.size();
		if (n < opt.minLen) return std::string(n, ' ');
		bool dot = false;
		std::vector<std::string> rs = readings(w, dot);
		for (auto & r : rs) parts(w, r, n - (dot ? 1 : 0));
		std::string res = rs[0];
		for (auto & ch : res) if (ch == 'X') ch = ' ';
		for (size_t k = 1; k < rs.size(); k++) for (size_t i = 0; i < n; i++) {
			if (all) { if (rs[k][i] == '-') res[i] = '-'; }
			else if (!point(rs[k][i])) res[i] = ' ';
		}
		return res;
	}
	std::vector<std::string> readings(const W & w, bool & dot) {
		size_t n = w.size();
		const std::vector<Brief> * as = &lex.get(w);
		if (as->empty() && opt.ignoreDot && n > 1 && w[n - 1] == L'.') { dot = true; as = &lex.get(w.substr(0, n - 1)); }
		std::vector<std::string> rs;
		for (size_t k = 0; k < as->size() && k < 31; k++) {
			std::string r(n, ' ');
			const W & s = (*as)[k].structure;
			size_t p = !s.empty() && s[0] == L'=' ? 1 : 0;
			for (size_t i = 0; i < n - (dot ? 1 : 0) && p < s.size(); i++) {
				if (s[p] == L'-' && p + 1 < s.size() && s[p + 1] == L'=') { if (i) r[i] = '='; p += 2; }
				else if (s[p] == L'=') { r[i] = '-'; p += 2; }
				else { if (s[p] == L'j' || s[p] == L'q') r[i] = 'X'; p++; }
			}
			rs.push_back(r);
		}
		if (rs.empty()) {
			std::string r(n, opt.unknown ? ' ' : 'X');
			if (ruleAllowed(w)) for (size_t i = 1; i + 1 < n; i++) if (w[i] == L'-') r[i] = '=';
			rs.push_back(r);
		}
		// if the word can be read as a simplex, compound readings do not count
		auto simplex = [](const std::string & r) { for (char c : r) if (point(c)) return false; return true; };
		bool any = false;
		for (auto & r : rs) if (simplex(r)) any = true;
		if (any) rs.erase(std::remove_if(rs.begin(), rs.end(), [&](const std::string & r) { return !simplex(r); }), rs.end());
		return rs;
	}
	bool ruleAllowed(const W & w) const {
		if (w.size() <= 1) return false;
		return opt.ugly || (!nonword(w) && !isDigit(w.back()));
	}
	void parts(const W & w, std::string & h, size_t n) const {
		size_t start = 0;
		while (start < n && h[start] == '=') start++;
		size_t end = start + 1;
		while (end < n) {
			if (!point(h[end])) { end++; continue; }
			if (end - start >= opt.minLen) part(w, h, start, end - start);
			start = h[end] == '=' ? end + 1 : end;
			end = start + 1;
		}
		if (end == n && end - start >= opt.minLen) part(w, h, start, end - start);
	}
	bool good(const W & w, const std::string & h, size_t pos, size_t n) const {
		if (pos == 0 || pos + 1 >= n) return false;
		bool before = false, after = false;
		for (size_t i = pos; i-- > 1 && !point(h[i]);) before = before || vowel(w[i]);
		for (size_t i = pos; i < n && !point(h[i]) && w[i] != L'.'; i++) after = after || vowel(w[i]);
		return before && after;
	}
	// the syllable rules within one part of the word
	void part(const W & word, std::string & whole, size_t at, size_t n) const {
		W w = word.substr(at, n);
		if (!ruleAllowed(w)) return;
		std::string h = whole.substr(at, n);
		if (h[0] == 'X') return;
		w = lower(w);
		auto vow = [&](size_t i) { return i < n && vowel(w[i]); };
		size_t i = 0;
		while (i < n && consonant(w[i])) i++;
		for (; i + 1 < n; i++)
			if (consonant(w[i]) && vow(i + 1) && !in(L"/.:&%'", w[i - 1]) && (i <= 1 || opt.ugly || w[i - 2] != L'\'')) h[i] = '-';
		for (i = 1; i + 1 < n; i++) if (w[i] == L'\'' && vow(i + 1)) h[i] = '=';
		for (i = 1; i + 1 < n; i++) if (vow(i) && w[i] == w[i + 1]) {
			if (vow(i - 1) && good(w, h, i, n)) h[i] = '-';
			if (good(w, h, i + 2, n)) h[i + 2] = '-';
		}
		static const std::set<W> split = {L"ae", L"ao", L"ea", L"eo", L"ia", L"io", L"oa", L"oe", L"ua", L"ue", L"ye", L"eä", L"eö", L"iä", L"iö", L"yä", L"äe", L"öe"};
		for (i = 0; i + 1 < n; i++) if (h[i + 1] == ' ' && split.count(w.substr(i, 2))) h[i + 1] = '-';
		for (i = 1; i + 1 < n; i++) for (const wchar_t * lc : {L"shtsh", L"štš", L"tsh", L"tš", L"zh"}) {
			size_t l = wcslen(lc);
			if (i + l < n && w.compare(i, l, lc) == 0) for (size_t k = i + 1; k <= i + l; k++) if (h[k] == '-') { h[k] = ' '; h[i] = '-'; }
		}
		if (!opt.ugly) {
			h[1] = ' ';
			h[n - 1] = ' ';
			for (i = 0; i + 1 < n; i++) if (vow(i) && vow(i + 1)) h[i + 1] = ' ';
		}
		else for (i = 0; i + 3 < n; i++) {
			W p = w.substr(i, 2);
			if (h[i + 1] != '-' && (p == L"ie" || p == L"ai") && vow(i + 2) && good(w, h, i + 2, n)) h[i + 2] = '-';
		}
		whole.replace(at, n, h);
	}
};

// ---------------------------------------------------------------- spelling

enum Spell { FAILED = 0, OK, CAP_FIRST, CAP_ERROR };
inline bool better(Spell a, Spell than) { return than == FAILED || than > a; }

// letter case of the word against an analysis
inline Spell caseMatch(const W & w, const W & s) {
	Spell r = OK;
	size_t j = 0;
	for (size_t i = 0; i < w.size(); i++) {
		while (j < s.size() && s[j] == L'=') j++;
		if (j >= s.size()) break;
		bool wantUp = s[j] == L'i' || s[j] == L'j', wantLow = s[j] == L'p' || s[j] == L'q';
		if (isUpper(w[i]) ? wantLow : (isLower(w[i]) && wantUp && i > 0)) return CAP_ERROR;
		if (!isUpper(w[i]) && isLower(w[i]) && wantUp) r = CAP_FIRST;
		j++;
	}
	return r;
}

struct SpellOpts {
	bool ignoreDot = false, ignoreNumbers = false, ignoreUpper = false, ignoreNonwords = true, firstUpper = true, allUpper = true, extraHyphens = false, missingHyphens = false;
	SpellOpts() {}
	explicit SpellOpts(const gen::Opts & o) :
		ignoreDot(o.get(VOIKKO_OPT_IGNORE_DOT)), ignoreNumbers(o.get(VOIKKO_OPT_IGNORE_NUMBERS)), ignoreUpper(o.get(VOIKKO_OPT_IGNORE_UPPERCASE)), ignoreNonwords(o.get(VOIKKO_OPT_IGNORE_NONWORDS)),
		firstUpper(o.get(VOIKKO_OPT_ACCEPT_FIRST_UPPERCASE)), allUpper(o.get(VOIKKO_OPT_ACCEPT_ALL_UPPERCASE)), extraHyphens(o.get(VOIKKO_OPT_ACCEPT_EXTRA_HYPHENS)), missingHyphens(o.get(VOIKKO_OPT_ACCEPT_MISSING_HYPHENS)) {}
};

class Speller {
public:
	Speller(Lexicon & l, const SpellOpts & o) : lex(l), opt(o) {}

	// spelling of exactly these characters
	Spell exact(const W & word) {
		W w;
		std::vector<size_t> shy;
		for (size_t i = 0; i < word.size(); i++) {
			if (word[i] != 0xAD) { w += word[i]; continue; }
			if (w.empty() || i + 1 == word.size() || (!shy.empty() && shy.back() == w.size())) return FAILED;
			shy.push_back(w.size());
		}
		Spell r = hyphens(w);
		if (r != FAILED && !shy.empty()) {
			HyphOpts ho;
			ho.ignoreDot = true; ho.minLen = 3;
			std::string pos = Hyphenator(lex, ho).any(w);
			for (size_t p : shy) if (pos[p] != '-') return FAILED;
		}
		return r;
	}

	// 1 = accepted
	int spell(const W & word) {
		if (word.empty()) return 1;
		if (word.size() > MAX_WORD) return 0;
		W w = normalise(word);
		if (opt.ignoreNumbers) for (wchar_t c : w) if (isDigit(c)) return 1;
		Caps cp = caps(w);
		if ((opt.ignoreUpper && cp == ALL_UPPER) || (opt.ignoreNonwords && nonword(w))) return 1;
		if (cp == ALL_UPPER && !opt.allUpper) cp = COMPLEX;
		std::vector<W> variants;
		W base = cp == COMPLEX || cp == NO_LETTERS ? lower(w.substr(0, 1)) + w.substr(1) : lower(w);
		variants.push_back(base);
		if (opt.ignoreDot && w.back() == L'.') variants.push_back(base.substr(0, base.size() - 1));
		for (auto & v : variants) {
			Spell r = openHyphens(v);
			if (r == FAILED) continue;
			switch (cp) {
				case COMPLEX: case NO_LETTERS: if (r == OK || (r == CAP_FIRST && opt.firstUpper && isUpper(w[0]))) return 1; break;
				case ALL_LOWER: if (r == OK) return 1; break;
				case FIRST_UPPER: if ((r == OK && opt.firstUpper) || r == CAP_FIRST) return 1; break;
				case ALL_UPPER: return 1;
			}
		}
		return 0;
	}

private:
	Lexicon & lex;
	SpellOpts opt;
	std::map<W, Spell> memo;

	Spell plain(const W & w) {
		Spell best = FAILED;
		for (auto & a : lex.get(w)) { Spell r = caseMatch(w, a.structure); if (better(r, best)) best = r; }
		return best;
	}
	// hyphens missing from both ends may be accepted
	Spell openHyphens(const W & w) {
		Spell r = exact(w);
		if (r != FAILED || !opt.missingHyphens || w.size() < 2 || (w[0] == L'-' && w.back() == L'-')) return r;
		W v(w);
		if (v[0] != L'-') v = L"-" + v;
		if (w.back() != L'-') v += L'-';
		return exact(v);
	}
	Spell hyphens(const W & w) {
		auto it = memo.find(w);
		if (it != memo.end()) return it->second;
		Spell r = hyphens2(w);
		return memo[w] = r;
	}
	// a hyphen inside the word can be unnecessary but acceptable
	Spell hyphens2(const W & w) {
		Spell r = plain(w);
		size_t n = w.size();
		if (r == OK || n <= 3) return r;
		size_t p = w.substr(0, n - 1).find(L'-', 1);
		if (p == W::npos) return r;
		W joined = w.substr(0, p) + w.substr(p + 1);
		if (opt.extraHyphens && p > 1 && joined[p] != L'-' && hyphens(joined) == OK) return OK;
		// pop-opisto
		if (p >= 2 && n - p >= 3 && vowel(lower(w[p - 2])) && consonant(lower(w[p - 1])) && lower(w[p + 1]) == lower(w[p - 2]) && lower(w[p + 2]) == lower(w[p - 1])) {
			Spell j = plain(joined);
			if (j != FAILED && better(j, r)) return j;
		}
		// ja-sana
		size_t last = w.substr(0, n - 1).rfind(L'-');
		if (last != W::npos && last > 0) {
			Spell lead = hyphens(w.substr(0, last));
			if (lead != FAILED) for (auto & a : lex.get(w.substr(last + 1))) if (a.freeTail) return lead;
		}
		// syy-silta, syys-ilta
		Spell with = FAILED, without = FAILED;
		for (auto & a : lex.get(joined)) {
			const W & s = a.structure;
			size_t j = 0, i = 0;
			for (; i < p; i++) { while (j < s.size() && s[j] == L'=') j++; if (j >= s.size()) break; j++; }
			if (i < p) continue;
			Spell m = caseMatch(joined, s);
			Spell & b = j < s.size() && s[j] == L'=' ? with : without;
			if (better(m, b)) b = m;
		}
		if (with != FAILED && without != FAILED && better(with, r)) return with;
		return r;
	}
};

inline Lexicon & lexicon() { static Lexicon l(vk::dictPath() + "/5/mor-standard/mor.vfst"); return l; }

} // namespace model
