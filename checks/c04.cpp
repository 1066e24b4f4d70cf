// C04: sentences divide the text and end only where the rules allow it
#include "texts.hpp"
#include "tokmodel.hpp"
using namespace gen;

static W sentenceText(Ctx & c) {
	if (c.chance(1, 3)) return anyText(c, 1500);
	static const wchar_t * ends[] = {L".", L".", L".", L"?", L"!", L"...", L"\u2026", L":", L".\"", L"\".", L"?\",", L"!\"", L"\",", L"?!", L".)", L". \"", L".»", L"", L",", L";"};
	static const wchar_t * gaps[] = {L" ", L" ", L" ", L"  ", L"", L"\n", L"\u00A0", L" \"", L" (", L" \u2013 ", L" \u201C", L" »"};
	static const wchar_t * abbr[] = {L"esim", L"ks", L"mm", L"yms", L"jne", L"klo", L"dipl.ins", L"K", L"A", L"Ä", L"a", L"ä", L"1", L"24.-26", L"12.3", L"v", L"ns", L"e.Kr", L"prof", L"P", L"-", L"--", L"1-", L"12", L"-a", L"Prof", L"ESIM", L"Esim", L"\u018F", L"ꙇ", L"Й"};
	W t;
	size_t n = 1 + c.small(10);
	for (size_t i = 0; i < n; i++) {
		size_t k = 1 + c.below(3);
		for (size_t j = 0; j < k; j++) {
			W w = c.chance(1, 3) ? W(c.pick(abbr)) : c.chance(1, 4) ? shortWord(c) : lexWord(c);
			if (c.chance(1, 3)) w = recase(c, w);
			if (j) t += L' ';
			t += w;
		}
		t += c.pick(ends);
		t += c.pick(gaps);
	}
	return t;
}

PBT_PROP(sentences, 10) {
	W t = sentenceText(c);
	Opts o;
	if (c.chance(1, 4)) o = options(c);
	c.note("text " + uni::show(t.substr(0, 800)) + " " + o.str());
	vk::Handle h;
	o.apply(h);
	model::Lexicon & lex = model::lexicon();
	lex.unsure = false;
	model::Speller sp(lex, model::SpellOpts(o));
	size_t pos = 0, count = 0;
	std::string key;
	int types = 0;
	while (true) {
		size_t len = 0;
		int ty = voikkoNextSentenceStartUcs4(h.h, t.c_str() + pos, t.size() - pos, &len);
		model::SentenceEnd e = model::nextSentence(t.substr(pos), sp);
		c.eval();
		if (lex.unsure) { c.label("outside model"); return; }
		if (len > t.size() - pos) c.fail("sentence of " + std::to_string(len) + " characters in a text of " + std::to_string(t.size() - pos));
		if (ty != SENTENCE_NONE && len == 0) c.fail("empty sentence");
		if (ty != e.type || len != e.len)
			c.fail("at " + std::to_string(pos) + ": sentence " + uni::show(t.substr(pos, len)) + " with start type " + std::to_string(ty) + ", expected " + uni::show(t.substr(pos, e.len)) + " with " + std::to_string(e.type));
		key += " " + std::to_string(ty) + ":" + std::to_string(len);
		types |= 1 << ty;
		if (ty == SENTENCE_NONE) break;
		pos += len;
		count++;
	}
	if (count) { c.nontrivial(uni::enc(t.substr(0, 400)) + o.str()); if (c.wantSample()) c.sample(uni::enc(t.substr(0, 120)) + " ->" + key); }
	c.label(count ? (types & (1 << SENTENCE_POSSIBLE)) ? "possible starts" : "probable starts" : "one sentence");
}
PBT_MAIN
