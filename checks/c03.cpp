// C03: tokens divide the text without gaps and have the types the documentation gives
#include "texts.hpp"
#include "tokmodel.hpp"
using namespace gen;

static const char * const TYPE[] = {"none", "word", "punctuation", "whitespace", "unknown"};

// the text lies in an exactly sized block so that reading past its end is noticed
static int rawNext(VoikkoHandle * h, const W & t, size_t pos, size_t * len) {
	size_t n = t.size() - pos;
	wchar_t * b = (wchar_t *) malloc(n ? n * sizeof(wchar_t) : 1);
	memcpy(b, t.data() + pos, n * sizeof(wchar_t));
	int ty = voikkoNextTokenUcs4(h, b, n, len);
	free(b);
	return ty;
}

static void compare(Ctx & c, VoikkoHandle * h, const W & t, bool dot) {
	size_t pos = 0, words = 0, count = 0;
	std::string key;
	while (pos < t.size()) {
		size_t len = 0;
		int ty = voikkoNextTokenUcs4(h, t.c_str() + pos, t.size() - pos, &len);
		model::Token e = model::nextToken(t.substr(pos), dot);
		if (ty < 0 || ty > 4 || ty == TOKEN_NONE) c.fail("no token at position " + std::to_string(pos));
		if (len == 0 || len > t.size() - pos) c.fail("token of length " + std::to_string(len) + " at position " + std::to_string(pos));
		if (ty != e.type || len != e.len)
			c.fail("token at position " + std::to_string(pos) + " is " + TYPE[ty] + " " + uni::show(t.substr(pos, len)) + ", expected " + TYPE[e.type] + " " + uni::show(t.substr(pos, e.len)));
		if (ty == TOKEN_WORD && len > 1) words++;
		key += std::to_string(ty);
		pos += len;
		if (++count > 5000) break;
	}
	c.eval(count);
	size_t len = 7;
	if (voikkoNextTokenUcs4(h, t.c_str() + t.size(), 0, &len) != TOKEN_NONE) c.fail("a token in empty text");
	if (words && count > 1) { c.nontrivial(uni::enc(t.substr(0, 300)) + (dot ? "." : "")); if (c.wantSample()) c.sample(uni::enc(t.substr(0, 100)) + " -> types " + key.substr(0, 40)); }
	c.label(words ? "with words" : "no words");
}

PBT_PROP(tokens, 10) {
	W t = anyText(c);
	bool dot = c.coin();
	c.note("text " + uni::show(t.substr(0, 600)) + (dot ? " ignore_dot" : ""));
	vk::Handle h;
	h.opt(VOIKKO_OPT_IGNORE_DOT, dot);
	compare(c, h.h, t, dot);
}

// a token depends on the text from its start to the given length only
PBT_PROP(bounded, 2) {
	W t = c.coin() ? dense(c) : pieces(c, 8);
	if (t.size() > 300) t.resize(300);
	bool dot = c.coin();
	size_t cut = c.below(t.size() + 1);
	c.note("text " + uni::show(t) + " length " + std::to_string(cut) + (dot ? " ignore_dot" : ""));
	vk::Handle h;
	h.opt(VOIKKO_OPT_IGNORE_DOT, dot);
	W head = t.substr(0, cut);
	size_t a = 0, b = 0;
	int ta = voikkoNextTokenUcs4(h.h, t.c_str(), cut, &a), tb = rawNext(h.h, head, 0, &b);
	c.eval();
	if (ta != tb || a != b) c.fail("the token of the first " + std::to_string(cut) + " characters depends on what follows them");
	if (cut) c.nontrivial("b " + uni::enc(head) + (dot ? "." : ""));
	compare(c, h.h, head, dot);
}
PBT_MAIN
