// Word generators aimed at valid words, compounds and their near misses.
#pragma once
#include "gen.hpp"

namespace gen {

// numerals, abbreviations, hyphenated names and inflected numbers
inline W specialWord(Ctx & c) {
	static const wchar_t * a[] = {L"yksi", L"kahden", L"kolmea", L"neljä", L"viiden", L"kuutta", L"sata", L"sadan", L"tuhat", L"tuhatta", L"kymmenen", L"kymmentä", L"toista", L"miljoona", L"ensimmäinen", L"toinen", L"kolmas", L"kymmenes", L"kahdeksas", L"puoli", L"toistasataa"};
	static const wchar_t * b[] = {L"1", L"15", L"1990", L"3,5", L"EU", L"KHO", L"tv", L"atk", L"dvd", L"pdf", L"II", L"XIV", L"a", L"%"};
	static const wchar_t * s[] = {L"n", L":n", L":ssa", L":een", L":lla", L":ksi", L":tä", L":stakin", L":iin", L"."};
	static const wchar_t * g[] = {L"Etelä", L"Pohjois", L"Itä", L"Länsi", L"Keski", L"Ylä", L"Ala", L"Uusi", L"Vanha", L"Iso", L"Vähä"};
	W w;
	switch (c.below(4)) {
		case 0: { size_t n = 1 + c.below(4); for (size_t i = 0; i < n; i++) w += c.pick(a); break; }
		case 1: w = c.pick(b); w += c.pick(s); break;
		case 2: w = c.pick(b); w += L'-'; w += lexWord(c); break;
		default: w = c.pick(g); if (c.coin()) w += L'-'; w += lexWord(c); break;
	}
	return w;
}
// mostly valid words of at most 255 characters
inline W candidate(Ctx & c) {
	W w;
	switch (c.weighted({8, 5, 3, 3, 1, 4})) {
		case 0: w = c.coin() ? c.pick(covWords()) : lexWord(c); break;
		case 1: w = lexWord(c) + lexWord(c); break;
		case 2: w = lexWord(c) + L"-" + lexWord(c); break;
		case 3: return word(c, 120);
		case 4: return edgeWord(c).substr(0, 255);
		default: w = specialWord(c); break;
	}
	if (c.chance(1, 4)) w = recase(c, w);
	if (c.chance(1, 12)) w = typo(c, w);
	if (c.chance(1, 12)) w = L"-" + w;
	if (c.chance(1, 12)) w += L'-';
	if (w.size() > 255) w.resize(255);
	return w;
}
// words in which the rules about hyphens and apostrophes matter
inline W hyphenated(Ctx & c) {
	static const wchar_t * pairs[] = {L"syy-silta", L"syys-ilta", L"pop-opisto", L"ja-sana", L"rock-konsertti", L"linja-auto", L"ilta-aurinko", L"maa-ala", L"top-opetus", L"lava-auto", L"ei-sana", L"kuu-uusi",
		L"vaa'an", L"raa'at", L"lii'at", L"vast'edes", L"tsaari", L"shtshi", L"borštš", L"aie", L"hauissa", L"yöaie", L"maauin", L"keuhko", L"kauan", L"hääyö", L"raitiotie", L"ruoan", L"leuat", L"vuoan"};
	W w;
	switch (c.below(6)) {
		case 0: w = c.pick(pairs); if (c.coin()) w += lexWord(c); break;
		case 1: { // the same vowel + consonant on both sides
			W a = lexWord(c), b = lexWord(c);
			if (a.size() >= 2) { W t = a.substr(a.size() - 2); for (int k = 0; k < 200; k++) { const W & x = c.pick(lex()); if (x.compare(0, 2, t) == 0) { b = x; break; } } }
			w = a + L"-" + b;
			break;
		}
		case 2: { // a valid word with a hyphen somewhere in it
			w = c.coin() ? c.pick(covWords()) : lexWord(c) + lexWord(c);
			w.insert(c.below(w.size() + 1), 1, L'-');
			break;
		}
		case 3: { // any word before a word that accepts it
			static const wchar_t * tails[] = {L"sana", L"sanan", L"sanoja", L"kirjain", L"kirjaimen", L"merkki", L"luku", L"niminen", L"alkuinen", L"tyyppinen", L"päätteinen", L"tiedosto"};
			w = (c.coin() ? candidate(c) : lexWord(c)) + L"-" + c.pick(tails);
			break;
		}
		case 4: { w = c.pick(hyphenWords()); if (c.coin()) w += L'-'; if (c.coin()) w = L"-" + w; break; }
		default: { size_t n = 2 + c.below(4); for (size_t i = 0; i < n; i++) { if (i) w += L'-'; w += lexWord(c); } break; }
	}
	if (c.chance(1, 5)) w = recase(c, w);
	if (c.chance(1, 10)) w.insert(c.below(w.size() + 1), 1, L'-');
	if (w.size() > 255) w.resize(255);
	return w;
}

} // namespace gen
