// Reference model of the tokenizer and the sentence splitter.
#pragma once
#include "spellmodel.hpp"

namespace model {

enum Kind { LETTER, DIGIT, SPACE, PUNCT, OTHER };
inline bool quoteMark(wchar_t c) { return in(L"\"»\u201d", c); }
inline Kind kind(wchar_t c) {
	static const struct { int lo, hi; } letters[] = {{'A', 'Z'}, {'a', 'z'}, {0xC0, 0xD6}, {0xD8, 0xF6}, {0xF8, 0x2AF}, {0x400, 0x481}, {0x48A, 0x527}, {0x1400, 0x15C3}, {0xFB00, 0xFB04}};
	for (auto & r : letters) if (c >= r.lo && c <= r.hi) return LETTER;
	static const struct { int lo, hi; } spaces[] = {{9, 13}, {0x20, 0x20}, {0x85, 0x85}, {0xA0, 0xA0}, {0x1680, 0x1680}, {0x180E, 0x180E}, {0x2000, 0x200A}, {0x2028, 0x2029}, {0x202F, 0x202F}, {0x205F, 0x205F}, {0x3000, 0x3000}};
	for (auto & r : spaces) if (c >= r.lo && c <= r.hi) return SPACE;
	if (isDigit(c)) return DIGIT;
	if (quoteMark(c) || in(L".,;-!?:'()[]{}/&\u00AD\u2019\u2010\u2011\u2013\u2014\u201C\u2026", c)) return PUNCT;
	return OTHER;
}
inline bool space(wchar_t c) { return kind(c) == SPACE; }

// length of the web address at the beginning of the text, 0 if there is none
inline size_t webAddress(const W & t) {
	if (t.size() < 12) return 0;
	size_t p = t.compare(0, 7, L"http://") == 0 ? 7 : t.compare(0, 8, L"https://") == 0 ? 8 : 0;
	if (!p) return 0;
	for (; p < t.size(); p++) {
		if (space(t[p]) || (kind(t[p]) == OTHER && !in(L"=#%", t[p]))) break;
		if (t[p] == L'.' && (p + 1 == t.size() || space(t[p + 1]))) break;
	}
	return p;
}
// length of the e-mail address at the beginning of the text: one @ and a later dot that does not end it
inline size_t mailAddress(const W & t) {
	if (t.size() < 6) return 0;
	size_t end = 0;
	int ats = 0;
	bool dot = false;
	for (; end < t.size(); end++) {
		wchar_t ch = t[end];
		Kind k = kind(ch);
		if (k == LETTER || k == DIGIT) continue;
		if (ch == L'@') { if (++ats > 1) return 0; continue; }
		if (ch == L'.' && ats) { if (end + 1 == t.size() || space(t[end + 1])) break; dot = true; continue; }
		if (!in(L"#$%*+=^_`|~!&'-/?{}.", ch)) break;
	}
	return ats && dot ? end : 0;
}
// length of the word at the beginning of the text
inline size_t wordLength(const W & t, bool ignoreDot) {
	size_t a = webAddress(t);
	bool web = t.size() >= 12 && (t.compare(0, 7, L"http://") == 0 || t.compare(0, 8, L"https://") == 0);
	if (!web) a = mailAddress(t);
	if (a) return a;
	bool letters = false;
	size_t n = t.size();
	for (size_t i = 0; i < n; i++) {
		wchar_t ch = t[i];
		Kind k = kind(ch);
		if (k == LETTER) letters = true;
		if (k == LETTER || k == DIGIT) continue;
		bool last = i + 1 == n;
		wchar_t next = last ? 0 : t[i + 1];
		Kind nk = last ? OTHER : kind(next);
		if (in(L"'\u2019:", ch)) { if (!last && nk == LETTER) continue; return i; }
		if (in(L"-\u00AD\u2010\u2011", ch)) {
			if (nk == LETTER || nk == DIGIT) { if (!last) continue; }
			bool keeps = last || nk == SPACE || nk == OTHER || quoteMark(next) || next == L',';
			return keeps ? i + 1 : i;
		}
		if (ch == L'.') {
			if (!last && (nk == LETTER || (nk == DIGIT && !letters))) continue;
			return i + (ignoreDot ? 1 : 0);
		}
		if (ch == L',' && i > 0 && kind(t[i - 1]) == DIGIT && !last && nk == DIGIT) continue;
		if (ch == L',' && !last && nk == DIGIT) {
			// digits separated from the comma by marks that belong to the word still count as a number
			size_t j = i;
			while (j > 0 && kind(t[j - 1]) != LETTER && kind(t[j - 1]) != DIGIT) j--;
			if (j > 0 && kind(t[j - 1]) == DIGIT) continue;
		}
		return i;
	}
	return n;
}
struct Token { int type; size_t len; };
inline Token nextToken(const W & t, bool ignoreDot) {
	if (t.empty()) return Token{TOKEN_NONE, 0};
	switch (kind(t[0])) {
		case LETTER: case DIGIT: return Token{TOKEN_WORD, wordLength(t, ignoreDot)};
		case SPACE: { size_t i = 1; while (i < t.size() && space(t[i])) i++; return Token{TOKEN_WHITESPACE, i}; }
		case OTHER: return Token{TOKEN_UNKNOWN, 1};
		default: break;
	}
	if (in(L"-\u2010\u2011", t[0]) && t.size() > 1) { size_t l = wordLength(t.substr(1), ignoreDot); if (l) return Token{TOKEN_WORD, l + 1}; }
	if (t.compare(0, 3, L"...") == 0) return Token{TOKEN_PUNCTUATION, 3};
	return Token{TOKEN_PUNCTUATION, 1};
}
inline std::vector<Token> tokens(const W & t, bool ignoreDot) {
	std::vector<Token> r;
	for (size_t p = 0; p < t.size();) { Token k = nextToken(t.substr(p), ignoreDot); r.push_back(k); p += k.len; }
	return r;
}

// ---------------------------------------------------------------- sentences

struct SentenceEnd { int type; size_t len; };
// can the full stop belong to the word before it?
inline bool dotWord(const W & w, Speller & sp) {
	if (w.size() < 2) return false;
	if (w.size() == 2 && isUpper(w[0])) return true;
	bool number = true;
	for (size_t i = 0; i + 1 < w.size(); i++) number = number && (in(L".-", w[i]) || isDigit(w[i]));
	return number || sp.exact(w) != FAILED;
}
inline SentenceEnd nextSentence(const W & t, Speller & sp) {
	size_t pos = 0, prev = 0;
	int prevType = TOKEN_NONE;
	bool ended = false, quoted = false, dotted = false, maybe = false;
	while (pos < t.size()) {
		Token k = nextToken(t.substr(pos), false);
		wchar_t ch = t[pos];
		if (ended && !quoted) {
			if (k.type != TOKEN_WHITESPACE)
				return SentenceEnd{dotted || maybe || (prevType != TOKEN_WHITESPACE && k.type == TOKEN_WORD) ? SENTENCE_POSSIBLE : SENTENCE_PROBABLE, pos};
		}
		else if (k.type == TOKEN_PUNCTUATION) {
			if (in(L"!?", ch)) { ended = true; maybe = maybe || quoted; }
			else if (ch == L'.' && k.len == 1) { ended = true; if (prevType == TOKEN_WORD && dotWord(t.substr(prev, pos - prev + 1), sp)) dotted = true; }
			else if (in(L".\u2026:", ch)) ended = maybe = true;
			else if (quoteMark(ch) || ch == L'\u201C') {
				quoted = !quoted;
				if (!quoted && pos + 1 < t.size() && t[pos + 1] == L',') ended = maybe = false;
			}
		}
		prev = pos; prevType = k.type; pos += k.len;
	}
	return SentenceEnd{SENTENCE_NONE, t.size()};
}

} // namespace model
