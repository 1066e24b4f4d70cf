// One query of the library with its answer as text, for differential checks.
#pragma once
#include "gen.hpp"

namespace query {
using uni::W;
using pbt::Ctx;

enum Kind { SPELL, SUGGEST, HYPH, INSERT, ANALYZE, TOKENS, SENTENCES, GRAMMAR, ALLGRAMMAR, VALUES, N };
static const char * const NAME[] = {"spell", "suggest", "hyphenate", "insertHyphens", "analyze", "tokens", "sentences", "grammar", "allGrammar", "values"};

struct Q {
	int k = SPELL;
	W w;
	size_t start = 0;
	int skip = 0;
	bool utf8 = false;
	std::string str() const { return std::string(NAME[k]) + (utf8 ? " utf8 " : " ") + uni::show(w.substr(0, 700)) + (k == GRAMMAR ? " start=" + std::to_string(start) + " skip=" + std::to_string(skip) : k == INSERT ? " ctx=" + std::to_string(skip) : ""); }
};

inline std::string sentencesOf(vk::Handle & h, const W & t) {
	std::string r;
	size_t pos = 0;
	for (int i = 0; i < 5000; i++) {
		size_t len = 0;
		int ty = voikkoNextSentenceStartUcs4(h.h, t.c_str() + pos, t.size() - pos, &len);
		r += std::to_string(ty) + ":" + std::to_string(len) + " ";
		if (ty == SENTENCE_NONE || len == 0 || len > t.size() - pos) break;
		pos += len;
	}
	return r;
}

inline std::string answer(vk::Handle & h, const Q & q) {
	std::string r;
	bool nul = false;
	switch (q.k) {
		case SPELL: return std::to_string(q.utf8 ? h.spellU(uni::enc(q.w)) : h.spell(q.w));
		case SUGGEST:
			if (q.utf8) { for (auto & s : h.suggestU(uni::enc(q.w), &nul)) r += s + "|"; }
			else for (auto & s : h.suggest(q.w, &nul)) r += uni::enc(s) + "|";
			return nul ? "null" : r;
		case HYPH: r = q.utf8 ? h.hyphU(uni::enc(q.w), &nul) : h.hyph(q.w, &nul); return nul ? "null" : r;
		case INSERT: r = h.insertHyphens(uni::enc(q.w), "-", q.skip != 0, &nul); return nul ? "null" : r;
		case ANALYZE: return vk::showA(q.utf8 ? h.analyzeU(uni::enc(q.w)) : h.analyze(q.w));
		case TOKENS: for (auto & t : h.tokens(q.w)) r += std::to_string(t.type) + ":" + uni::enc(t.text) + "|"; return r;
		case SENTENCES: return sentencesOf(h, q.w);
		case GRAMMAR: { vk::GErr g; return (q.utf8 ? h.grammarU(uni::enc(q.w), q.start, q.skip, g) : h.grammar(q.w, q.start, q.skip, g)) ? g.str() : "none"; }
		case ALLGRAMMAR: for (auto & g : q.utf8 ? h.allGrammarU(uni::enc(q.w), 200) : h.allGrammar(q.w, 200)) r += g.str(); return r;
		case VALUES: {
			static const char * a[] = {"CLASS", "NUMBER", "PERSON", "MOOD", "TENSE", "COMPARISON", "NEGATIVE", "PARTICIPLE", "POSSESSIVE", "SIJAMUOTO", "FOCUS", "STRUCTURE"};
			for (auto & s : vk::Handle::take(voikkoGetAttributeValues(h.h, a[q.skip % 12]))) r += s + "|";
			return r;
		}
	}
	return r;
}
// does the answer say something?
inline bool meaningful(const Q & q, const std::string & a) {
	if (q.k == SPELL) return a == "1";
	return !a.empty() && a != "null" && a != "none";
}

inline Q gen(Ctx & c, std::vector<W> & words, std::vector<W> & texts) {
	Q q;
	q.k = (int) c.weighted({16, 8, 8, 3, 8, 3, 3, 6, 6, 1});
	q.utf8 = c.chance(1, 4);
	if (q.k <= ANALYZE) {
		if (!words.empty() && c.chance(2, 3)) {
			q.w = c.pick(words);
			switch (c.below(6)) { // relatives of an earlier word
				case 0: q.w = gen::recase(c, q.w); break;
				case 1: q.w += L'.'; break;
				case 2: q.w = L'-' + q.w; break;
				case 3: if (c.coin()) q.w = gen::typo(c, q.w); break;
				default: break;
			}
		}
		else {
			switch (c.weighted({6, 4, 2, 2})) {
				case 0: q.w = gen::word(c, 120); break;
				case 1: do q.w = gen::lexWord(c); while (q.w.size() > 10 && c.coin()); break; // short: goes through the cache
				case 2: q.w = gen::edgeWord(c); break;
				default: { q.w = gen::lexWord(c); size_t n = c.below(4); if (q.w.size() > n) q.w.resize(q.w.size() - n); break; }
			}
			words.push_back(q.w);
		}
		q.skip = c.below(2);
	}
	else if (q.k != VALUES) {
		if (!texts.empty() && c.chance(2, 3)) {
			q.w = c.pick(texts);
			switch (c.below(6)) {
				case 0: q.w.resize(c.below(q.w.size() + 1)); break;
				case 1: q.w += L" " + gen::lexWord(c); break;
				case 2: q.w = gen::typo(c, q.w); break;
				default: break;
			}
		}
		else { q.w = gen::text(c, 400); texts.push_back(q.w); }
		if (q.k == GRAMMAR) { q.start = c.chance(1, 3) ? c.below(q.w.size() + 2) : 0; q.skip = c.chance(1, 3) ? (int) c.below(4) : 0; }
	}
	else q.skip = (int) c.below(12);
	return q;
}

} // namespace query
