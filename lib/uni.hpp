// Unicode helpers of the checks (independent of the library's own ones).
#pragma once
#include <string>
#include <vector>
#include <cstring>
#include <cwchar>
#include <cstdio>

namespace uni {

typedef std::wstring W;

inline void put(std::string & o, uint32_t c) {
	if (c < 0x80) o += (char) c;
	else if (c < 0x800) { o += (char) (0xC0 | (c >> 6)); o += (char) (0x80 | (c & 63)); }
	else if (c < 0x10000) { o += (char) (0xE0 | (c >> 12)); o += (char) (0x80 | ((c >> 6) & 63)); o += (char) (0x80 | (c & 63)); }
	else { o += (char) (0xF0 | (c >> 18)); o += (char) (0x80 | ((c >> 12) & 63)); o += (char) (0x80 | ((c >> 6) & 63)); o += (char) (0x80 | (c & 63)); }
}
inline std::string enc(const W & w) { std::string o; for (wchar_t c : w) put(o, (uint32_t) c); return o; }

// text the UTF-8 functions can take: no surrogates, and not the two characters their decoder calls invalid
inline bool encodable(const W & w) { for (wchar_t c : w) if ((c >= 0xD800 && c <= 0xDFFF) || c == 0xFFFE || c == 0xFFFF) return false; return true; }
// strict decoder; returns false if s is not well formed UTF-8
inline bool dec(const std::string & s, W & out) {
	out.clear();
	size_t i = 0, n = s.size();
	while (i < n) {
		unsigned char b = s[i];
		int k; uint32_t c, min;
		if (b < 0x80) { k = 0; c = b; min = 0; }
		else if (b >= 0xC2 && b <= 0xDF) { k = 1; c = b & 31; min = 0x80; }
		else if (b >= 0xE0 && b <= 0xEF) { k = 2; c = b & 15; min = 0x800; }
		else if (b >= 0xF0 && b <= 0xF4) { k = 3; c = b & 7; min = 0x10000; }
		else return false;
		if (i + k >= n) return false;
		for (int j = 1; j <= k; j++) { unsigned char t = s[i + j]; if ((t & 0xC0) != 0x80) return false; c = (c << 6) | (t & 63); }
		if (c < min || c > 0x10FFFF || (c >= 0xD800 && c <= 0xDFFF)) return false;
		out += (wchar_t) c;
		i += k + 1;
	}
	return true;
}
inline W dec(const std::string & s) { W w; dec(s, w); return w; }

// printable form
inline std::string show(const W & w) {
	std::string o = "\"";
	for (wchar_t c : w) {
		bool plain = (c >= 0x20 && c < 0x7f && c != '"' && c != '\\') || (c >= 0xC0 && c < 0x250 && c != 0xD7 && c != 0xF7);
		if (plain) put(o, (uint32_t) c);
		else { char b[16]; snprintf(b, sizeof b, "\\u{%x}", (unsigned) c); o += b; }
	}
	return o + "\"";
}
inline std::string showBytes(const std::string & s) {
	W w;
	if (dec(s, w)) return show(w);
	std::string o = "b\"";
	for (unsigned char c : s) {
		if (c >= 0x20 && c < 0x7f && c != '"' && c != '\\') o += (char) c;
		else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
	}
	return o + "\"";
}

} // namespace uni
