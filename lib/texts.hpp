// Generators of text for the tokenizer and the sentence splitter.
#pragma once
#include "words.hpp"

namespace gen {

// pieces in which the rules about punctuation inside words matter
// a short word of a few letters, digits and marks: initials, ranges, codes
inline W shortWord(Ctx & c) {
	static const wchar_t a[] = L"AKBÄŽakä15.-:'\u2010\u2019";
	W w;
	size_t n = 1 + c.below(c.coin() ? 4 : 7);
	for (size_t i = 0; i < n; i++) w += a[c.below(c.chance(1, 3) ? 16 : 12)];
	return w;
}
inline W piece(Ctx & c) {
	static const wchar_t * marks[] = {L".", L",", L";", L"-", L"!", L"?", L":", L"'", L"(", L")", L"[", L"]", L"{", L"}", L"/", L"&", L"\u00AD", L"\u2019", L"\u2010", L"\u2011", L"\u2013", L"\u2014", L"\u201C", L"\u201D", L"\u2026", L"\"", L"»", L"...", L"..", L"....", L"!?", L".\"", L"\",", L"\".", L"\"", L"?\"", L"-,", L"-\"", L"-.", L"--"};
	static const wchar_t * spaces[] = {L" ", L"  ", L"\t", L"\n", L"\r\n", L"\u0085", L"\u00A0", L"\u1680", L"\u180E", L"\u2000", L"\u2007", L"\u200A", L"\u2028", L"\u2029", L"\u202F", L"\u205F", L"\u3000", L"\x0B", L"\x0C"};
	static const wchar_t * abbr[] = {L"esim.", L"ks.", L"mm.", L"yms.", L"jne.", L"klo", L"nro", L"dipl.ins.", L"K.", L"A.", L"Ä.", L"a.", L"1.", L"24.-26.", L"12.3.2004", L"1.-", L"3.5", L"v.", L"n.", L"s.", L"ns.", L"e.Kr.", L"tri", L"prof.", L"1,5", L"1:2", L"10.000", L"a,5", L"5,a", L"5'-,3", L"a.5", L"5.a", L"EU:n", L"EU:", L"vaa'an", L"'a", L"À", L"Àa", L"aÀ"};
	static const wchar_t * addr[] = {L"http://", L"https://", L"http:", L"www.a.fi", L"http://a.b/c", L"http://www.example.com/a?b=c#d%20", L"https://abcdefg.fi", L"https://ab.fi", L"http://ab.fi", L"a@b.fi", L"a.b@c.d.fi", L"a@b", L"a@b.", L"@b.fi", L"a@@b.fi", L"a@b@c.fi", L"x!y{z}@q.fi", L"a$b@c.fi", L"a(b@c.fi", L"a@b.c:d", L"a@b,c.fi", L"a/b@c.fi", L"foo+bar_baz@qux.fi", L"a~@b.fi", L"a@b.fi.", L"a@b-c.fi-"};
	switch (c.weighted({6, 6, 4, 3, 3, 3, 2, 1, 2})) {
		case 0: { const W & w = lexWord(c); return w.size() > 14 && c.coin() ? w.substr(0, 3) : w; }
		case 1: return c.pick(marks);
		case 2: return c.pick(spaces);
		case 3: return c.pick(abbr);
		case 4: return c.pick(addr);
		case 5: { W d; size_t n = 1 + c.below(3); for (size_t i = 0; i < n; i++) d += L"0123456789"[c.below(10)]; return d; }
		case 6: return W(1, oddChar(c));
		case 8: return shortWord(c);
		default: { // the edges of the character ranges
			static const int edge[] = {0x40, 0x41, 0x5A, 0x5B, 0x60, 0x61, 0x7A, 0x7B, 0xBF, 0xC0, 0xC1, 0xD6, 0xD7, 0xD8, 0xF6, 0xF7, 0xF8, 0x2AF, 0x2B0, 0x3FF, 0x400, 0x481, 0x482, 0x489, 0x48A, 0x527, 0x528, 0x13FF, 0x1400, 0x15C3, 0x15C4, 0xFAFF, 0xFB00, 0xFB04, 0xFB05, 0x08, 0x0E, 0x1F, 0x84, 0x86, 0x9F, 0xA1, 0x200B, 0x2012, 0x2015, 0x2027, 0x202A, 0x2F, 0x3A, 0x10FFFF, 0xD800, 0xDFFF};
			return W(1, (wchar_t) c.pick(edge));
		}
	}
}
inline W pieces(Ctx & c, size_t maxPieces = 40) {
	W t;
	size_t n = 1 + c.small(maxPieces);
	for (size_t i = 0; i < n; i++) { t += piece(c); if (c.chance(1, 4)) t += L' '; }
	return t;
}
// like pieces, with the dense small alphabet of the rules
inline W dense(Ctx & c) {
	static const wchar_t a[] = L"aA5.-' :,/@?!\"ä\u00AD\u2019\u2010»\u2026=&(#\u201C\u20ACs";
	W t;
	size_t n = 1 + c.small(24);
	for (size_t i = 0; i < n; i++) t += a[c.below(wcslen(a))];
	if (c.chance(1, 6)) t = (c.coin() ? L"http://" : L"https://") + t;
	if (c.chance(1, 6)) t = L"ab@c.d" + t;
	return t;
}
inline W anyText(Ctx & c, size_t maxLen = 2000) {
	W t;
	switch (c.weighted({4, 4, 3})) {
		case 0: t = pieces(c); break;
		case 1: t = dense(c); break;
		default: t = text(c, maxLen); break;
	}
	if (t.size() > maxLen) t.resize(maxLen);
	return t;
}

} // namespace gen
