// Reference model of the Finnish morphology, spelling and hyphenation.
#pragma once
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "uni.hpp"
#include "vfst.hpp"

namespace model {
using uni::W;
typedef std::map<std::string, W> Attrs;

// ---------------------------------------------------------------- characters

// upper/lower case pairs the library knows: [first upper, last upper, distance to lower, step]
struct CaseRange { int first, last, dist, step; };
static const CaseRange CASES[] = {
	{0x41, 0x5A, 32, 1}, {0xC0, 0xD6, 32, 1}, {0xD8, 0xDE, 32, 1},
	{0x100, 0x136, 1, 2}, {0x139, 0x147, 1, 2}, {0x14A, 0x176, 1, 2}, {0x179, 0x17D, 1, 2},
	{0x1B7, 0x1B7, 0x292 - 0x1B7, 1}, {0x1DE, 0x1EE, 1, 2}, {0x1F8, 0x21E, 1, 2},
	{0x400, 0x40F, 0x50, 1}, {0x410, 0x42F, 32, 1}, {0x460, 0x480, 1, 2}, {0x48A, 0x526, 1, 2},
};
inline wchar_t lower(wchar_t c) {
	for (auto & r : CASES) if (c >= r.first && c <= r.last && (c - r.first) % r.step == 0) return c + r.dist;
	return c;
}
inline wchar_t upper(wchar_t c) {
	for (auto & r : CASES) { int u = c - r.dist; if (u >= r.first && u <= r.last && (u - r.first) % r.step == 0) return u; }
	return c;
}
inline bool isUpper(wchar_t c) { return lower(c) != c || c == 0x18F; }
inline bool isLower(wchar_t c) { return upper(c) != c; }
inline bool isDigit(wchar_t c) { return c >= '0' && c <= '9'; }
inline bool in(const wchar_t * set, wchar_t c) { return c && wcschr(set, c); }
inline bool vowel(wchar_t c) { return in(L"aeiouyäö", c); }
inline bool consonant(wchar_t c) { return in(L"bcdfghjklmnpqrstvwxzšž", c); }
inline W lower(W w) { for (auto & c : w) c = lower(c); return w; }

inline W normalise(const W & w) {
	static const std::map<std::pair<wchar_t, wchar_t>, wchar_t> pairs = [] {
		std::map<std::pair<wchar_t, wchar_t>, wchar_t> m;
		auto add = [&](wchar_t mark, const wchar_t * bases, const wchar_t * composed) { for (size_t i = 0; bases[i]; i++) m[{bases[i], mark}] = composed[i]; };
		add(0x300, L"AEIOUaeiou", L"ÀÈÌÒÙàèìòù");
		add(0x301, L"AEIOUYaeiouy", L"ÁÉÍÓÚÝáéíóúý");
		add(0x302, L"AEIOUaeiou", L"ÂÊÎÔÛâêîôû");
		add(0x303, L"ANOano", L"ÃÑÕãñõ");
		add(0x308, L"AEIOUaeiouy", L"ÄËÏÖÜäëïöüÿ");
		add(0x30A, L"Aa", L"Åå");
		add(0x327, L"Cc", L"Çç");
		add(0x30C, L"SsZz", L"ŠšŽž");
		add(0x306, L"\u0418\u0438", L"\u0419\u0439");
		add(0x300, L"\u0415\u0435", L"\u0400\u0450");
		add(0x308, L"\u0415\u0435\u041E\u043E", L"\u0401\u0451\u04E6\u04E7");
		add(0x301, L"\u0413\u0433", L"\u0403\u0453");
		return m;
	}();
	W r;
	for (size_t i = 0; i < w.size(); i++) {
		if (i + 1 < w.size()) {
			auto it = pairs.find({w[i], w[i + 1]});
			if (it != pairs.end()) { r += it->second; i++; continue; }
		}
		switch (w[i]) {
			case 0x2019: r += L'\''; break;
			case 0x2010: case 0x2011: r += L'-'; break;
			case 0x2103: r += L"°C"; break;
			case 0x2109: r += L"°F"; break;
			case 0xFB00: r += L"ff"; break;
			case 0xFB01: r += L"fi"; break;
			case 0xFB02: r += L"fl"; break;
			case 0xFB03: r += L"ffi"; break;
			case 0xFB04: r += L"ffl"; break;
			default: r += w[i];
		}
	}
	return r;
}

enum Caps { NO_LETTERS, ALL_LOWER, FIRST_UPPER, COMPLEX, ALL_UPPER };
inline Caps caps(const W & w) {
	size_t up = 0, lo = 0;
	bool restUp = false;
	for (size_t i = 0; i < w.size(); i++) {
		if (isUpper(w[i])) { up++; if (i) restUp = true; }
		if (isLower(w[i])) lo++;
	}
	if (!up && !lo) return NO_LETTERS;
	if (!lo) return ALL_UPPER;
	if (restUp) return COMPLEX;
	return isUpper(w[0]) ? FIRST_UPPER : ALL_LOWER;
}

// URLs and e-mail addresses
inline bool nonword(const W & w) {
	size_t n = w.size();
	if (n < 4) return false;
	for (int k = 0; k < 2; k++) {
		wchar_t mark = k ? L'@' : L'/';
		size_t p = w.substr(0, n - 3).find(mark);
		if (p == W::npos) continue;
		if (k == 0 && w[p + 1] != L'/') continue;
		if (k == 1 && w[p + 1] == L'.') continue;
		size_t d = w.find(L'.', p + 1);
		if (d != W::npos && d + 1 < n) return true;
	}
	if (n >= 7 && w.compare(0, 4, L"www.") == 0 && w[4] != L'.' && w.find(L'.', 5) != W::npos) return true;
	return false;
}

// ---------------------------------------------------------------- analysis

// output of the transducer as a sequence of tags and characters
struct Item { W text; bool tag; size_t pos; };
inline std::vector<Item> items(const W & o) {
	std::vector<Item> r;
	for (size_t i = 0; i < o.size();) {
		if (o[i] == L'[') {
			size_t e = o.find(L']', i);
			if (e == W::npos) e = o.size() - 1;
			r.push_back(Item{o.substr(i, e - i + 1), true, i});
			i = e + 1;
		}
		else { r.push_back(Item{W(1, o[i]), false, i}); i++; }
	}
	return r;
}
inline bool starts(const W & s, const wchar_t * p, size_t at = 0) { size_t n = wcslen(p); return s.size() >= at + n && s.compare(at, n, p) == 0; }

typedef std::map<W, W> Map;
inline const Map & classes() {
	static const Map m = {{L"n", L"nimisana"}, {L"l", L"laatusana"}, {L"nl", L"nimisana_laatusana"}, {L"h", L"huudahdussana"}, {L"ee", L"etunimi"}, {L"es", L"sukunimi"},
		{L"ep", L"paikannimi"}, {L"em", L"nimi"}, {L"t", L"teonsana"}, {L"a", L"lyhenne"}, {L"s", L"seikkasana"}, {L"u", L"lukusana"}, {L"ur", L"lukusana"}, {L"r", L"asemosana"},
		{L"c", L"sidesana"}, {L"d", L"suhdesana"}, {L"k", L"kieltosana"}, {L"p", L"etuliite"}};
	return m;
}
inline const std::map<std::string, Map> & valueMaps() {
	static const std::map<std::string, Map> m = {
		{"CLASS", classes()},
		{"SIJAMUOTO", {{L"n", L"nimento"}, {L"g", L"omanto"}, {L"p", L"osanto"}, {L"es", L"olento"}, {L"tr", L"tulento"}, {L"ine", L"sisaolento"}, {L"ela", L"sisaeronto"},
			{L"ill", L"sisatulento"}, {L"ade", L"ulkoolento"}, {L"abl", L"ulkoeronto"}, {L"all", L"ulkotulento"}, {L"ab", L"vajanto"}, {L"ko", L"seuranto"}, {L"in", L"keinonto"},
			{L"sti", L"kerrontosti"}, {L"ak", L"kohdanto"}}},
		{"COMPARISON", {{L"c", L"comparative"}, {L"s", L"superlative"}}},
		{"MOOD", {{L"n1", L"A-infinitive"}, {L"n2", L"E-infinitive"}, {L"n3", L"MA-infinitive"}, {L"n4", L"MINEN-infinitive"}, {L"n5", L"MAINEN-infinitive"},
			{L"t", L"indicative"}, {L"e", L"conditional"}, {L"k", L"imperative"}, {L"m", L"potential"}}},
		{"NUMBER", {{L"y", L"singular"}, {L"m", L"plural"}}},
		{"PERSON", {{L"1", L"1"}, {L"2", L"2"}, {L"3", L"3"}, {L"4", L"4"}}},
		{"TENSE", {{L"p", L"present_simple"}, {L"i", L"past_imperfective"}}},
		{"FOCUS", {{L"kin", L"kin"}, {L"kaan", L"kaan"}}},
		{"POSSESSIVE", {{L"1y", L"1s"}, {L"2y", L"2s"}, {L"1m", L"1p"}, {L"2m", L"2p"}, {L"3", L"3"}}},
		{"NEGATIVE", {{L"t", L"true"}, {L"f", L"false"}, {L"b", L"both"}}},
		{"PARTICIPLE", {{L"v", L"present_active"}, {L"a", L"present_passive"}, {L"u", L"past_active"}, {L"t", L"past_passive"}, {L"m", L"agent"}, {L"e", L"negation"}}},
	};
	return m;
}

// grammatical attributes told by the tags, last tag first
inline Attrs basicAttributes(const W & o) {
	Attrs a;
	auto has = [&](const char * k) { return a.count(k) > 0; };
	auto is = [&](const char * k, const wchar_t * v) { auto it = a.find(k); return it != a.end() && it->second == v; };
	auto basic = [&](const char * k, const W & v) {
		if (has(k)) return;
		auto & m = valueMaps().at(k);
		auto it = m.find(v);
		if (it != m.end()) a[k] = it->second;
	};
	bool toAdjective = false, bcPassed = false, classSet = false;
	std::vector<Item> its = items(o);
	for (size_t k = its.size(); k-- > 0;) {
		if (!its[k].tag) continue;
		const W & t = its[k].text;
		size_t j = its[k].pos;
		if (t.size() < 3) continue;
		W v = t.substr(2, t.size() - 3);
		switch (t[1]) {
			case L'L':
				if (!classSet || v.empty()) {
					if (starts(v, L"nl")) {
						bool adj = toAdjective || is("COMPARISON", L"comparative") || is("COMPARISON", L"superlative") || starts(o, L"[Lu]");
						if (!has("CLASS")) a["CLASS"] = adj ? L"laatusana" : L"nimisana_laatusana";
					}
					else basic("CLASS", v);
					classSet = true;
				}
				break;
			case L'N': if (!is("CLASS", L"etuliite") && !is("CLASS", L"seikkasana")) basic("NUMBER", v); break;
			case L'P': basic("PERSON", v); break;
			case L'S':
				if (!is("CLASS", L"etuliite") && !is("CLASS", L"seikkasana")) {
					basic("SIJAMUOTO", v);
					if (j + 5 < o.size() && starts(v, L"sti")) toAdjective = true;
				}
				break;
			case L'T': if (!has("CLASS")) basic("MOOD", v); break;
			case L'A': basic("TENSE", v); break;
			case L'F': if (starts(v, L"ko")) a["KYSYMYSLIITE"] = L"true"; else basic("FOCUS", v); break;
			case L'O': basic("POSSESSIVE", v); break;
			case L'C': if (!has("CLASS")) basic("COMPARISON", v); break;
			case L'E': basic("NEGATIVE", v); break;
			case L'R':
				if (!bcPassed && (!has("CLASS") || is("CLASS", L"laatusana") || (o.size() >= 4 && o.compare(o.size() - 4, 4, L"[Ln]") == 0))) basic("PARTICIPLE", v);
				break;
			case L'I': {
				W rest = o.substr(j + 2);
				if (starts(rest, L"vj")) { if (o[0] != L'-') a["MALAGA_VAPAA_JALKIOSA"] = L"true"; }
				else if (starts(rest, L"ca")) {
					if (rest.find(L"[Bc]") == W::npos && rest.find(L"[Ll]") == W::npos && (!has("CLASS") || starts(a["CLASS"], L"nimisana"))) a["POSSIBLE_GEOGRAPHICAL_NAME"] = L"true";
				}
				else if (!is("MOOD", L"E-infinitive") && !is("MOOD", L"MINEN-infinitive") && !is("MOOD", L"MA-infinitive") && (!has("CLASS") || is("CLASS", L"teonsana"))) {
					if (starts(rest, L"ra") && !has("REQUIRE_FOLLOWING_VERB")) a["REQUIRE_FOLLOWING_VERB"] = L"A-infinitive";
					else if (starts(rest, L"rm") && !has("REQUIRE_FOLLOWING_VERB")) a["REQUIRE_FOLLOWING_VERB"] = L"MA-infinitive";
				}
				break;
			}
			case L'B':
				if (j >= 5 && starts(v, L"c")) {
					if (!classSet && !has("CLASS") && (o[j - 1] == L'-' || o.compare(j - 5, 5, L"-[Bh]") == 0)) { a["CLASS"] = L"etuliite"; classSet = true; }
					bcPassed = true;
				}
				break;
		}
	}
	return a;
}

// does the use of hyphens between the parts of a compound follow the rules?
inline bool validAnalysis(const W & o) {
	size_t len = o.size();
	wchar_t before = 0, last = 0;
	bool boundary = false, hyphen = false, free = false, freeJustSet = false, required = false, missing = false, proper = false, nonIca = false;
	auto at = [&](size_t i) { return i < len ? o[i] : L'\0'; };
	for (size_t i = 0; i < len; i++) {
		if (o[i] == L'[') {
			if (i + 2 >= len) return false;
			if (i + 3 < len) {
				if (starts(o, L"Isf", i + 1)) free = freeJustSet = true;
				else if (starts(o, L"Icu", i + 1)) { boundary = false; free = true; required = true; }
				else if (starts(o, L"Ica", i + 1)) { missing = false; nonIca = false; }
				else if (starts(o, L"Le", i + 1)) { proper = true; nonIca = false; }
				else if (starts(o, L"Ln", i + 1)) nonIca = true;
				else if (starts(o, L"Dg", i + 1)) proper = false;
			}
			if (at(i + 1) == L'X') {
				size_t e = o.find(L"[X]", i + 1);
				// the closing tag; nothing follows if it is missing
				if (e == W::npos) return !missing && (!proper || !nonIca);
				i = e + 2;
			}
			else if (starts(o, L"Bh", i + 1)) {
				i += 3;
				boundary = true;
				hyphen = false;
				if (missing) return false;
				if (required) missing = true;
			}
			else { size_t e = o.find(L']', i + 1); i = e == W::npos ? len : e; }
		}
		else if (o[i] == L'-') {
			proper = nonIca = false;
			if (i + 5 < len && starts(o, L"[Bh]", i + 1)) { boundary = hyphen = true; i += 4; }
		}
		else {
			if (boundary) {
				if (last == 0 || (before == L'i' && last == L's')) free = true;
				if (required && hyphen) required = false;
				if (!(free && hyphen)) {
					last = lower(last);
					wchar_t next = lower(o[i]);
					// wcschr finds the terminator too, so that "no previous character" counts as a vowel
					bool need = (last == next && (last == 0 || vowel(last))) || isDigit(last);
					if (need != hyphen) return false;
				}
				boundary = false;
				if (freeJustSet) freeJustSet = false; else free = false;
			}
			before = last;
			last = o[i];
		}
	}
	return !missing && (!proper || !nonIca);
}

// structure: = morpheme border, i/p letter in upper/lower case, j/q the same in abbreviations, - and : as such
// sets odd when the lexicon entry and the word do not fit together (outside of the model)
inline W structureOf(const W & o, size_t wlen, bool & odd) {
	W s = L"=";
	size_t left = wlen, seen = 0, expl = 0;
	bool title = false, abbr = false;
	auto def = [&](size_t n) { for (; n; n--) { if (title) { s += abbr ? L'j' : L'i'; title = false; } else s += abbr ? L'q' : L'p'; } };
	auto flush = [&] {
		if (seen <= expl) return false;
		size_t n = seen - expl;
		def(n);
		if (n > left) { odd = true; n = left; }
		left -= n;
		return true;
	};
	std::vector<Item> its = items(o);
	size_t len = o.size();
	for (size_t k = 0; k < its.size(); k++) {
		const W & t = its[k].text;
		size_t i = its[k].pos;
		if (its[k].tag) {
			if (t.size() == 4 && t[1] == L'B' && t[2] != L'h') {
				if (i == 1) s += L'=';
				flush();
				if (i != 1 && i + 5 < len && s.back() != L'=') s += L'=';
				seen = expl = 0;
			}
			else if (t.size() == 4 && t[1] == L'X') {
				bool r = t[2] == L'r';
				if (r) title = false;
				size_t m = k + 1;
				for (; m < its.size() && !its[m].tag; m++) {
					if (!r) continue;
					if (!left) { odd = true; continue; }
					wchar_t c = its[m].text[0];
					s += c;
					if (c != L'=') { expl++; if (c != L'-') left--; }
				}
				k = m; // closing tag
			}
			else if (t[1] == L'L') {
				W v = t.substr(2, t.size() - 3);
				if (starts(v, L"e")) { title = true; abbr = false; }
				else if (starts(v, L"nl")) abbr = false;
				else if (starts(v, L"a")) abbr = true;
				else if (starts(v, L"u") && i + 5 < len && (o[i + 3] == L'r' || isDigit(o[i + 4]))) abbr = true;
				else abbr = false;
			}
			continue;
		}
		if (t[0] == L'-') {
			if (flush()) { s += L'-'; seen = expl = 0; }
			else if (i != 0) { if (seen == expl) s += L'-'; else seen++; }
			if (left) left--;
			if (s.size() == 1) s[0] = L'-';
		}
		else if (t[0] == L':') {
			if (abbr) { if (flush()) seen = expl = 0; abbr = false; }
			s += L':';
			if (left) left--;
		}
		else seen++;
	}
	def(left);
	// proper noun rules
	bool isDe = false;
	size_t hyphens = 0;
	for (size_t j = 0; j < len; j++) {
		if (j + 3 < len && o[j] == L'[') {
			if (starts(o, L"Dg", j + 1)) {
				size_t h = 0;
				for (auto & c : s) { if (c == L'i') { if (h == hyphens) c = L'p'; } else if (c == L'-') h++; }
			}
			else if (starts(o, L"De", j + 1)) isDe = true;
			else if (starts(o, L"Ln]", j + 1)) isDe = false;
		}
		else if (o[j] == L'-') {
			hyphens++;
			if (isDe) {
				bool up = j == len - 1;
				size_t p = o.find(L"[Lep]", j + 1);
				if (!up && p != W::npos) up = true;
				j = up && p != W::npos && j != len - 1 ? p + 1 : std::max(j + 1, len >= 4 ? len - 4 : 0);
				if (up) {
					size_t q = s.find_first_of(L"ip");
					if (q != W::npos) { s[q] = L'i'; return s; }
				}
			}
		}
	}
	return s;
}

// base form of a numeral; false if the ordinary rules have to be used
inline bool numeralBase(const W & o, W & b) {
	b.clear();
	bool xp = false, xr = false, tag = false, digits = false, passed = false;
	size_t len = o.size();
	for (size_t i = 0; i < len; i++) {
		if (i == 0 && (isDigit(o[0]) || o[0] == L'-')) digits = true;
		if (o[i] == L'[') {
			if (digits) { digits = false; passed = true; }
			if (i + 2 >= len) return false;
			bool room = i + 6 < len;
			if (room && (starts(o, L"[Xp]", i) || starts(o, L"[Xj]", i))) { i += 3; xp = true; }
			else if (room && starts(o, L"[Xr]", i)) { i += 3; xr = true; }
			else if (i + 4 == len && starts(o, L"[Bc]", i)) return false;
			else if (room && starts(o, L"[Bc]", i)) { i += 3; passed = false; }
			else if (room && (starts(o, L"[Ln]", i) || starts(o, L"[Ll]", i) || starts(o, L"[Lnl]", i))) return false;
			else if (starts(o, L"[X]", i)) { if (xp) { xp = false; passed = true; } xr = false; i += 2; }
			else tag = true;
		}
		else if (xr) {}
		else if (tag) { if (o[i] == L']') tag = false; }
		else if (xp || digits || !passed || o[i] == L'-') b += o[i];
	}
	return true;
}

inline bool baseformOf(const W & o, const W & structure, W & b) {
	b.clear();
	size_t len = o.size(), xpFst = 0, xpBase = 0, xpHyphens = 0, sp = 0;
	bool xp = false, xr = false, tag = false, ignoreDe = false, de = false, classSeen = false;
	auto copyXp = [&](bool cap) {
		b.resize(xpBase);
		for (size_t i = xpFst; i < len && o[i] != L'['; i++) if (o[i] != L'=') b += cap && i == xpFst ? upper(o[i]) : o[i];
	};
	for (size_t i = 0; i < len; i++) {
		if (o[i] == L'[') {
			if (i + 2 >= len) return false;
			if (o[i + 1] == L'X') {
				if (o[i + 2] == L']') { xp = xr = false; i += 2; }
				else if (i + 6 < len && o[i + 3] == L']') {
					if (o[i + 2] == L'p' || o[i + 2] == L'j') { i += 3; xp = true; xpFst = i + 1; xpBase = b.size(); xpHyphens = 0; }
					else if (o[i + 2] == L'r' || o[i + 2] == L's') { i += 3; xr = true; }
				}
			}
			else if (!classSeen && i + 6 < len && starts(o, L"Lu]", i + 1)) {
				i += 3;
				classSeen = true;
				W n;
				if (numeralBase(o.substr(i + 1), n)) { b += n; return true; }
			}
			else if (starts(o, L"De]", i + 1)) { de = !ignoreDe; i += 3; }
			else {
				if (o[i + 1] == L'L') {
					classSeen = true;
					de = false;
					ignoreDe = i + 3 >= len || (o[i + 2] != L'l' && !starts(o, L"nl", i + 2));
				}
				tag = true;
			}
		}
		else if (xr) {}
		else if (tag) { if (o[i] == L']') tag = false; }
		else if (xp) { if (o[i] == L'-') xpHyphens++; }
		else {
			wchar_t c = o[i];
			if (c == L'-') {
				if (xpHyphens) xpHyphens--;
				else {
					if (de && xpFst && !(i >= 2 && starts(o, L"is", i - 2)) && o.find(L"[Lep]", i) != W::npos) copyXp(true);
					xpFst = 0;
				}
				de = false;
			}
			while (sp < structure.size()) {
				wchar_t p = structure[sp++];
				if (p != L'=') { if (p == L'i' || p == L'j') c = upper(c); break; }
			}
			b += c;
		}
	}
	if (xpFst) copyXp(false);
	return !b.empty();
}

// WORDBASES and WORDIDS; ids are present only if the lexicon has them
inline void debugAttributes(const W & o, W & bases, W & ids, bool & anyIds) {
	bases.clear(); ids.clear(); anyIds = false;
	W xs, xp;
	size_t len = o.size(), idLast = 0, baseLast = 0;
	bool inXs = false, inXp = false, inXj = false, inOther = false, content = false, tag = false;
	auto end = [&] {
		if (!xs.empty()) { ids += L"(w" + xs + L")"; xs.clear(); }
		if (!xp.empty()) { bases += L"(" + xp + L")"; xp.clear(); }
	};
	for (size_t i = 0; i < len; i++) {
		if (starts(o, L"[L", i) || starts(o, L"-[B", i)) {
			content = false;
			tag = true;
			end();
			if (o[i] == L'-') { ids += L"+-"; bases += L"+-"; i++; }
		}
		else if (o[i] == L'[' && i + 2 < len) {
			if (o[i + 1] == L'X') {
				switch (o[i + 2]) {
					case L's': inXs = anyIds = true; xs.clear(); i += 3; break;
					case L'p': inXp = true; xp.clear(); i += 3; break;
					case L'j':
						if (content) { end(); idLast = ids.size(); baseLast = bases.size(); }
						inXj = true; xp.clear(); i += 3;
						break;
					case L']': inXs = inXp = inXj = inOther = false; i += 2; break;
					default: inOther = true; i += 3;
				}
			}
			else tag = true;
		}
		else if (o[i] == L']') tag = false;
		else if (tag || inOther) {}
		else if (inXs) xs += o[i];
		else if (inXp) xp += o[i];
		else if (inXj) { if (xp.empty()) xp += L'+'; xp += o[i]; }
		else {
			if (!content) { ids += L'+'; bases += L'+'; idLast = ids.size(); baseLast = bases.size(); content = true; }
			ids += o[i];
			bases += o[i];
		}
	}
	if (!xp.empty()) {
		bases.resize(baseLast);
		ids.resize(idLast);
		if (!bases.empty() && xp[0] == L'+' && bases.back() == L'+') { bases.pop_back(); if (!ids.empty()) ids.pop_back(); }
		for (wchar_t c : xp) if (c != L'=') { bases += c; ids += c; }
		bases += L"(" + xp + L")";
	}
	if (!xs.empty()) ids += L"(w" + xs + L")";
}

// a company name like "Helsingin Sanomat": nimisana compound with an organisation name part
inline bool isOrgName(const W & o) {
	if (o.size() < 13 || o[0] == L'-' || starts(o, L"[La]")) return false;
	for (size_t i = o.size() - 5; i >= 8; i--) {
		if (starts(o, L"[Bc]", i)) return false;
		if (starts(o, L"[Ion]", i)) {
			for (size_t j = i - 4; j >= 4; j--) if (starts(o, L"[Bc]", j)) return true;
		}
	}
	return false;
}

// analyses the lexicon output implies for a word of wlen characters
inline std::vector<Attrs> analysesOf(const W & o, size_t wlen, bool & odd) {
	std::vector<Attrs> r;
	if (!validAnalysis(o)) return r;
	Attrs a = basicAttributes(o);
	W st = structureOf(o, wlen, odd);
	a["STRUCTURE"] = st;
	auto get = [&](const char * k) { auto it = a.find(k); return it == a.end() ? W() : it->second; };
	W cls = get("CLASS"), mood = get("MOOD");
	if (a.count("NEGATIVE") && ((!cls.empty() && cls != L"teonsana") || mood == L"MINEN-infinitive" || mood == L"E-infinitive" || mood == L"MA-infinitive")) a.erase("NEGATIVE");
	if (get("PARTICIPLE") == L"past_passive") { cls = L"laatusana"; a["CLASS"] = cls; }
	if (get("SIJAMUOTO") == L"kerrontosti") a.erase("NUMBER");
	if (!a.count("COMPARISON")) { if (cls == L"laatusana" || cls == L"nimisana_laatusana") a["COMPARISON"] = L"positive"; }
	else if (cls == L"nimisana") a.erase("COMPARISON");
	Attrs full(a);
	full["FSTOUTPUT"] = o;
	W b, ids;
	if (baseformOf(o, st, b)) full["BASEFORM"] = b;
	bool any;
	debugAttributes(o, b, ids, any);
	full["WORDBASES"] = b;
	if (any) full["WORDIDS"] = ids;
	r.push_back(full);
	if (get("CLASS") == L"nimisana" && isOrgName(o)) {
		Attrs d(a);
		d["CLASS"] = L"nimi";
		d.erase("POSSIBLE_GEOGRAPHICAL_NAME");
		if (st.size() >= 2) {
			W s2(st);
			s2[1] = L'i';
			d["STRUCTURE"] = s2;
			if (baseformOf(o, s2, b)) d["BASEFORM"] = b;
		}
		else d.erase("STRUCTURE");
		r.push_back(d);
	}
	return r;
}

static const size_t MAX_WORD = 255, MAX_OUTPUTS = 99;

class Finnish {
public:
	explicit Finnish(const std::string & morFile) : fst(morFile) {}
	vfst::Fst fst;
	// set when a result is outside of the model (work limits, lexicon entries that do not fit)
	bool unsure = false;

	std::vector<Attrs> analyze(const W & word) {
		std::vector<Attrs> r;
		if (word.size() > MAX_WORD) return r;
		vfst::Fst::Result res = fst.lookup(lower(word), MAX_OUTPUTS);
		if (res.limited) unsure = true;
		for (auto & o : res.outputs) for (auto & a : analysesOf(o, word.size(), unsure)) r.push_back(a);
		return r;
	}
};

} // namespace model
