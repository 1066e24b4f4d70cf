// Generator of paragraphs in which the grammar rules matter.
#pragma once
#include <set>
#include "texts.hpp"

namespace gen {

static const wchar_t * const ROLES[] = {L"ei", L"en", L"eivät", L"eikä", L"enkä", L"älä", L"ja", L"tai", L"mutta", L"vaan", L"että", L"sekä", L"joten", L"kun", L"siinä", L"missä", L"kävi", L"miten", L"ollut", L"olleet", L"sillä", L"on", L"olen", L"ovat", L"oli",
	L"lukee", L"lukea", L"lukemaan", L"juoksee", L"juosta", L"juoksemaan", L"menee", L"mennä", L"menemään", L"haluan", L"haluaa", L"osaa", L"täytyy", L"pitää", L"alkaa", L"alkoi", L"pystyy", L"pystyn", L"joutuu", L"aikoo", L"saattaa", L"voi", L"tekee", L"tehdä", L"tekemään", L"tekisi", L"lukisin", L"luki", L"lukenut",
	L"Helsingin", L"Suomen", L"Helsinki", L"Sanomat", L"Turun", L"Yliopisto", L"EU", L"A", L"b", L"1", L"2", L"1.2", L"3.4.5", L"iv", L"XI", L"kissa", L"Kissa", L"KISSA", L"koira", L"Matti", L"matti", L"talo", L"Talossa", L"hyvä", L"A-rappu", L"A:n", L"É", L"ä", L"lukematta", L"tulla", L"tule", L"tulee", L"sinä", L"minä"};
static const wchar_t * const SEPS[] = {L" ", L" ", L" ", L" ", L" ", L" ", L" ", L" ", L" ", L" ", L", ", L", ", L"  ", L" ,", L",", L",,", L", ,", L": ", L" - ", L" \u2013 ", L"; ", L" (", L") ", L"] ", L" [", L" \"", L"\" ", L" \u201D", L"\u201D ", L" »", L"» ", L"\t", L"\n", L"\u00A0", L". ", L"... ", L"\u2026 ", L".\", ", L"!\", ", L"?\", ", L".\u201D, ", L".\" ", L"\". ", L" \u201C", L"\u201C ", L"? ", L"! ", L")", L" 'a' ", L"!? ", L"   "};
static const wchar_t * const ENDS[] = {L".", L".", L".", L".", L"?", L"!", L"", L"...", L"\u2026", L".\"", L"\".", L"!?", L".)", L").", L":", L",", L" .", L". ", L" ja.", L" vaan.", L" eikä. ", L"\u201C"};
static const wchar_t * const STARTS[] = {L"- ", L"\u2013 ", L"\"", L"(", L"[", L", ", L"; ", L"A) ", L"1) ", L"iv) ", L"1.2 ", L"1. ", L" ", L"\t", L"\u201C", L"'", L"[1] ", L"-", L". ", L"& "};

inline W roleWord(Ctx & c, bool first) {
	W w;
	switch (c.weighted({6, 3, 1, 1, 5})) {
		case 0: w = c.pick(ROLES); break;
		case 1: w = lexWord(c); break;
		case 2: w = c.pick(phrases()); break;
		case 3: w = word(c, 40); break;
		default: w = c.pick(roles()); break;
	}
	if (first ? c.chance(3, 4) : c.chance(1, 8)) w = capital(w);
	else if (c.chance(1, 20)) w = recase(c, w);
	if (!w.empty() && c.chance(1, 25)) w.insert(1 + c.below(w.size()), 1, L'\u00AD');
	return w;
}
// another known word that begins the word or that the word begins
inline W relative(Ctx & c, const W & w) {
	static const std::set<W> all = [] {
		std::set<W> r(roles().begin(), roles().end());
		r.insert(lex().begin(), lex().end());
		for (auto x : ROLES) r.insert(x);
		return r;
	}();
	W l = lowered(w);
	std::vector<W> f;
	for (size_t n = 1; n < l.size(); n++) if (all.count(l.substr(0, n))) f.push_back(l.substr(0, n));
	for (auto it = all.upper_bound(l); it != all.end() && f.size() < 12 && it->compare(0, l.size(), l) == 0; ++it) f.push_back(*it);
	return f.empty() ? w : c.pick(f);
}
inline W paragraph(Ctx & c) {
	if (c.chance(1, 8)) return text(c, 1500);
	if (c.chance(1, 20)) return anyText(c, 600);
	W t;
	size_t n = 1 + c.small(4);
	if (c.chance(1, 300)) n = 190 + c.below(30);
	for (size_t i = 0; i < n; i++) {
		if (c.chance(1, 5)) t += c.pick(STARTS);
		size_t k = 1 + c.small(9);
		if (c.chance(1, 400)) k = 240 + c.below(25);
		W prev;
		for (size_t j = 0; j < k; j++) {
			if (j) t += c.chance(1, 3) ? W(c.pick(SEPS)) : W(L" ");
			W w = !prev.empty() && c.chance(1, 12) ? (c.chance(1, 4) ? capital(prev) : c.coin() ? relative(c, prev) : prev) : roleWord(c, j == 0);
			t += w;
			prev = w;
		}
		t += c.pick(ENDS);
		if (i + 1 < n && !c.chance(1, 12)) t += c.chance(1, 10) ? W(c.pick(SEPS)) : W(L" ");
	}
	if (c.chance(1, 12)) for (size_t i = 1 + c.below(3); i--;) t = typo(c, t);
	return t;
}

} // namespace gen
