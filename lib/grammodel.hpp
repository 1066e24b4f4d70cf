// Reference model of the Finnish grammar checker on top of the models of tokens, sentences and analyses.
#pragma once
#include <fstream>
#include "tokmodel.hpp"

namespace model {

enum GramCode { G_SPELLING = 1, G_SPACES, G_SPACE_PUNCT, G_COMMA, G_STARTER, G_LOWER, G_UPPER, G_REPEAT, G_END, G_QUOTE_END, G_FOREIGN_QUOTE, G_PAREN, G_NEGATIVE, G_A_INF, G_MA_INF, G_CONJ, G_NO_VERB, G_TWO_VERBS };

struct GramError {
	int code; size_t start, len; W sugg; bool hasSugg;
	std::string str() const { return "[code=" + std::to_string(code) + " start=" + std::to_string(start) + " len=" + std::to_string(len) + " sugg={" + (hasSugg ? uni::showBytes(uni::enc(sugg)) : "") + "}]"; }
};

// what the readings of a word say about its use
struct WordInfo {
	bool known = false, lowerOnly = true, conjunction = false, maybeConjunction = false;
	bool finite = false, maybeFinite = false, negation = false, positive = false;
	bool placeGenitive = false, maybePlace = false;
	int needs = 0, is = 0;   // verb forms: 1 A-infinitive, 2 MA-infinitive
	bool unsure = false;
};

struct GToken {
	int type; W s; size_t pos; bool mayStart = false;
	WordInfo w;
	bool word() const { return type == TOKEN_WORD; }
	bool blank() const { return type == TOKEN_WHITESPACE; }
	bool punct() const { return type == TOKEN_PUNCTUATION; }
	size_t end() const { return pos + s.size(); }
};
typedef std::vector<GToken> GSentence;

struct GramOpts {
	bool titles, unfinished, bullets;
	explicit GramOpts(const gen::Opts & o) : titles(o.get(VOIKKO_OPT_ACCEPT_TITLES_IN_GC)), unfinished(o.get(VOIKKO_OPT_ACCEPT_UNFINISHED_PARAGRAPHS_IN_GC)), bullets(o.get(VOIKKO_OPT_ACCEPT_BULLETED_LISTS_IN_GC)) {}
};

// incorrect -> correct phrases of the autocorrect data
inline const std::map<W, W> & corrections() {
	static const std::map<W, W> m = [] {
		std::map<W, W> r;
		std::ifstream f(vk::dictPath() + "/phrases.txt");
		for (std::string l; std::getline(f, l);) { size_t t = l.find('\t'); if (t != std::string::npos) r[uni::dec(l.substr(0, t))] = uni::dec(l.substr(t + 1)); }
		return r;
	}();
	return m;
}

class Grammar {
public:
	Grammar(Lexicon & l, Speller & s, const GramOpts & o) : lex(l), sp(s), opt(o) {}
	static const size_t MAX_SENTENCES = 200, MAX_TOKENS = 500;

	std::vector<GramError> check(const W & t) {
		errors.clear();
		text.clear();
		size_t pos = 0;
		bool more = true;
		while (more && text.size() < MAX_SENTENCES) {
			size_t start = pos;
			SentenceEnd e;
			do { e = nextSentence(t.substr(pos), sp); pos += e.len; } while (e.type == SENTENCE_POSSIBLE);
			more = e.type != SENTENCE_NONE;
			GSentence s;
			if (!split(t.substr(start, pos - start), start, s)) return {};
			text.push_back(s);
		}
		if (text.size() == 1) {
			GSentence & s = text[0];
			bool gap = false;
			for (auto & k : s) gap = gap || k.blank();
			if (!gap && (s.empty() || s.size() > 2 || !s[0].word())) return {};
		}
		for (auto & s : text) { punctuation(s); quotations(s); repeats(s); verbs(s); pairs(s); lastConjunction(s); phrases(s); }
		capitals();
		ending();
		std::stable_sort(errors.begin(), errors.end(), [](const GramError & a, const GramError & b) { return a.start < b.start; });
		return errors;
	}
private:
	Lexicon & lex;
	Speller & sp;
	GramOpts opt;
	std::vector<GSentence> text;
	std::vector<GramError> errors;

	void err(int code, size_t start, size_t len) { errors.push_back(GramError{code, start, len, W(), false}); }
	void err(int code, size_t start, size_t len, const W & sugg) { errors.push_back(GramError{code, start, len, sugg, true}); }

	static std::map<W, WordInfo> & memo() { static std::map<W, WordInfo> m; return m; }
	WordInfo info(const W & token) {
		auto & m = memo();
		if (m.size() > 20000) m.clear();
		auto it = m.find(token);
		if (it == m.end()) it = m.emplace(token, compute(token)).first;
		if (it->second.unsure) lex.unsure = true;
		return it->second;
	}
	WordInfo compute(const W & token) {
		W w;
		for (wchar_t c : token) if (c != 0xAD) w += c;
		lex.fi.unsure = false;
		std::vector<Attrs> as = lex.fi.analyze(w);
		WordInfo r;
		r.unsure = lex.fi.unsure;
		if (as.empty()) return r;
		r.known = r.conjunction = r.finite = r.negation = r.positive = true;
		bool isSet = false;
		for (auto & a : as) {
			auto get = [&](const char * k) { auto i = a.find(k); return i == a.end() ? W() : i->second; };
			W st = get("STRUCTURE"), cls = get("CLASS"), mood = get("MOOD"), person = get("PERSON"), neg = get("NEGATIVE");
			bool lowerStart = st.size() >= 2 && (st[1] == L'p' || st[1] == L'q');
			if (!lowerStart) { r.lowerOnly = false; if (cls == L"paikannimi" && get("SIJAMUOTO") == L"omanto") r.placeGenitive = true; }
			bool conj = cls == L"sidesana" || (cls == L"kieltosana" && token.back() == L'ä');
			(conj ? r.maybeConjunction : r.conjunction) = conj;
			bool verb = cls == L"teonsana", no = cls == L"kieltosana";
			// finite: all readings are verbs in the indicative
			if (!verb || mood != L"indicative") r.finite = false;
			if (!no) r.negation = false;
			// surely positive: all readings are verbs that cannot follow a negation
			if (!verb || neg != L"false" || ((mood.empty() || mood == L"conditional") && (person.empty() || person == L"3"))) r.positive = false;
			if (cls.empty() || (verb && mood != L"A-infinitive" && mood != L"E-infinitive" && neg != L"true")) r.maybeFinite = true;
			if (get("POSSIBLE_GEOGRAPHICAL_NAME") == L"true") r.maybePlace = true;
			W req = get("REQUIRE_FOLLOWING_VERB");
			int need = req == L"A-infinitive" ? 1 : req == L"MA-infinitive" ? 2 : 0;
			if (&a == &as[0]) r.needs = need;
			else if (need != r.needs) r.needs = 0;
			int f = mood == L"A-infinitive" ? 1 : mood == L"MA-infinitive" ? 2 : 0;
			if (f) { if (!isSet) r.is = f; else if (r.is != f) r.is = 0; isSet = true; }
			else if (get("PARTICIPLE") == L"agent" && get("SIJAMUOTO") == L"vajanto") r.is = 0;
		}
		return r;
	}

	bool split(const W & t, size_t at, GSentence & s) {
		bool start = false;
		for (size_t p = 0; p < t.size();) {
			if (s.size() == MAX_TOKENS) return false;
			Token k = nextToken(t.substr(p), false);
			GToken g;
			g.type = k.type; g.s = t.substr(p, k.len); g.pos = at + p;
			if (g.word()) { g.w = info(g.s); g.mayStart = start; start = false; }
			else if (g.punct() && (in(L".:\u2026\u2013\u2014", g.s[0]))) start = true;
			s.push_back(g);
			p += k.len;
		}
		return true;
	}

	void punctuation(const GSentence & s) {
		for (size_t i = 0; i < s.size(); i++) {
			const GToken & k = s[i];
			wchar_t next = i + 1 < s.size() && s[i + 1].punct() ? s[i + 1].s[0] : 0;
			if (k.blank()) {
				if (k.s.size() > 1) err(G_SPACES, k.pos, k.s.size(), L" ");
				else if (next == L',') err(G_SPACE_PUNCT, k.pos, 2, L",");
			}
			else if (k.punct()) {
				if (k.s[0] == L'[' && i + 2 < s.size() && s[i + 2].s[0] == L']') { i += 2; continue; }
				if (i == 0) {
					if (in(L"()'-\u201C\u2013\u2014", k.s[0]) || quoteMark(k.s[0])) continue;
					if (k.pos == 0) err(G_STARTER, 0, 1); else err(G_STARTER, k.pos - 1, 2);
				}
				else if (k.s[0] == L',' && next == L',') err(G_COMMA, k.pos, 2, L",");
			}
		}
	}
	void quotations(const GSentence & s) {
		for (size_t i = 0; i + 2 < s.size(); i++) {
			if (!s[i].punct()) continue;
			wchar_t a = s[i].s[0];
			if (a == L'\u201C') { err(G_FOREIGN_QUOTE, s[i].pos, 1, L"\u201D"); return; }
			if (!s[i + 1].punct() || !quoteMark(s[i + 1].s[0]) || !s[i + 2].punct() || s[i + 2].s[0] != L',') continue;
			W q = s[i + 1].s;
			if (a == L'.') err(G_QUOTE_END, s[i].pos, 3, q + L",");
			else if (in(L"!?", a)) err(G_QUOTE_END, s[i].pos, 3, W(1, a) + q);
		}
	}
	void repeats(const GSentence & s) {
		for (size_t i = 0; i + 2 < s.size(); i++) {
			if (!s[i].word()) continue;
			if (!s[i + 1].blank()) { i++; continue; }
			if (!s[i + 2].word()) { i += 2; continue; }
			const W & a = s[i].s;
			bool same = lower(a) == lower(s[i + 2].s) && !isDigit(a[0]) && a != L"ollut" && a != L"olleet" && a != L"sillä";
			if (!same) { i++; continue; }
			err(G_REPEAT, s[i].pos, s[i + 2].end() - s[i].pos, a);
		}
	}
	void verbs(const GSentence & s) {
		if (s.empty()) return;
		const GToken & f = s[0];
		if (f.punct()) return;
		if (opt.bullets && f.pos == 0 && (isLower(f.s[0]) || !(f.word() && f.w.lowerOnly))) return;
		int words = 0;
		bool any = false, clause = false;
		size_t last = 0, end = s.size();
		for (size_t i = 0; i < s.size(); i++) {
			const GToken & k = s[i];
			if (k.s[0] == L'\t') return;
			if (!k.blank()) end = i;
			if (k.punct()) clause = false;
			if (!k.word()) continue;
			words++;
			if (!k.w.known || k.w.maybeFinite || k.w.negation) any = true;
			const W none;
			const W & second = i + 2 < s.size() ? s[i + 2].s : none;
			if (k.w.maybeConjunction || (starts(k.s, L"siinä") && starts(second, L"missä")) || (starts(k.s, L"kävi") && starts(second, L"miten"))) clause = false;
			else if (k.w.finite) {
				if (clause) {
					if (!(i == last + 2 && k.s == s[last].s)) err(G_TWO_VERBS, s[last].pos, k.end() - s[last].pos);
					clause = false;
				}
				else { clause = true; last = i; }
			}
		}
		if (any || words < 2) return;
		const GToken & e = s[end];
		if (!in(L".?", e.s[0]) || e.s == L"...") return;
		err(G_NO_VERB, f.pos, e.end() - f.pos);
	}
	void pairs(const GSentence & s) {
		for (int pass = 0; pass < 2; pass++) for (size_t i = 0; i + 2 < s.size(); i++) {
			const GToken & a = s[i], & b = s[i + 2];
			if (!a.word() || !s[i + 1].blank() || !b.word()) continue;
			size_t len = b.end() - a.pos;
			if (pass == 0) { if (a.w.negation && b.w.positive) err(G_NEGATIVE, a.pos, len); }
			else if (a.w.needs == 1 && b.w.is == 2) err(G_A_INF, a.pos, len);
			else if (a.w.needs == 2 && b.w.is == 1) err(G_MA_INF, a.pos, len);
		}
	}
	void lastConjunction(const GSentence & s) {
		size_t n = s.size();
		if (n && s[n - 1].blank()) n--;
		if (n < 2) return;
		const GToken & w = s[n - 2];
		if (w.word() && w.w.conjunction && w.s != L"vaan" && s[n - 1].s == L".") err(G_CONJ, w.pos, w.s.size());
	}
	// the sentence with blanks as single spaces and without soft hyphens is searched for the phrases
	void phrases(const GSentence & s) {
		if (s.empty()) return;
		std::vector<W> norm;
		for (auto & k : s) { W n; if (k.blank()) n = L" "; else for (wchar_t c : k.s) if (c != 0xAD) n += c; norm.push_back(n); }
		for (size_t i = 0; i < s.size(); i++) {
			if (!s[i].word()) continue;
			size_t end;
			const W * fix;
			if (match(norm, i, end, fix)) err(G_SPELLING, s[i].pos, s[end].end() - s[i].pos, *fix);
		}
		if (s[0].word() && isUpper(s[0].s[0])) {
			size_t end;
			const W * fix;
			if (match(norm, 0, end, fix)) return;
			norm[0][0] = lower(norm[0][0]);
			if (match(norm, 0, end, fix)) { W f(*fix); f[0] = upper(f[0]); err(G_SPELLING, s[0].pos, s[end].end() - s[0].pos, f); }
		}
	}
	// the longest phrase that begins at token i and ends where some token ends
	static bool match(const std::vector<W> & norm, size_t i, size_t & end, const W *& fix) {
		const auto & m = corrections();
		W t;
		bool found = false;
		for (size_t k = i; k < norm.size() && t.size() < 200; k++) {
			if (norm[k].empty()) continue;
			t += norm[k];
			auto it = m.find(t);
			if (it != m.end()) { fix = &it->second; end = k; found = true; }
		}
		return found;
	}

	// ------------------------------------------------------------ capital letters
	static bool roman(const W & w) { for (wchar_t c : w) if (!in(L"iIvVxX", c)) return false; return true; }
	static bool chapter(const W & w) {
		bool dot = true;
		for (wchar_t c : w) { if (c == L'.') { if (dot) return false; dot = true; } else if (isDigit(c)) dot = false; else return false; }
		return !dot;
	}
	static bool digits(const W & w) { for (wchar_t c : w) if (!isDigit(c)) return false; return true; }
	static bool listItem(const W & w) { return w.size() == 1 || chapter(w) || roman(w); }

	// sentences without lower case letters before any foreign quotation mark, or with such a mark first, are left alone
	static bool skipped(const GSentence & s) {
		for (auto & k : s) {
			if (k.s[0] == L'\u201C') return true;
			if (k.word()) for (wchar_t c : k.s) if (isLower(c)) return false;
		}
		return true;
	}
	void capitals() {
		std::vector<const GToken *> all;
		for (size_t i = 0; i < text.size(); i++) {
			if (skipped(text[i])) continue;
			for (auto & k : text[i]) all.push_back(&k);
		}
		// a skipped sentence at the end still makes the last word before it checked
		bool after = !text.empty() && skipped(text.back());
		size_t p = 0;
		const GToken * word = 0, * before = 0;
		std::vector<wchar_t> open;
		bool ended = false;
		enum { INIT, UPPER, LOWER, FREE, QUOTED } state = INIT;
		std::vector<const GToken *> seps;
		auto advance = [&] {
			seps.clear();
			before = word;
			word = 0;
			while (p < all.size()) {
				const GToken * k = all[p++];
				if (k->word()) { word = k; break; }
				seps.push_back(k);
				before = k;
			}
			if (p == all.size() && !word) after = false;
		};
		auto brackets = [&](size_t from) {
			bool q = false;
			for (size_t i = from; i < seps.size(); i++) {
				if (!seps[i]->punct()) continue;
				wchar_t c = seps[i]->s[0];
				if (quoteMark(c)) { q = true; if (!open.empty() && open.back() == c) open.pop_back(); else open.push_back(c); }
				else if (in(L"([", c)) open.push_back(c);
				else if (in(L")]", c)) { if (open.empty()) err(G_PAREN, seps[i]->pos, 1); else if (in(L"([", open.back())) open.pop_back(); }
				else if (in(L".!?", c)) ended = true;
			}
			return q;
		};
		auto has = [&](const wchar_t * x) { for (auto k : seps) if (k->s == x) return true; return false; };
		auto stops = [&] {
			for (size_t i = seps.size(); i-- > 0;) if (seps[i]->punct() && seps[i]->s[0] != L',') return in(L".?!", seps[i]->s[0]);
			return false;
		};
		bool first = true;
		while (p < all.size() || after || first) {
			first = false;
			if (state == INIT) {
				advance();
				brackets(0);
				state = !open.empty() ? QUOTED : opt.bullets || has(L"-") ? FREE : UPPER;
				if (!word) return;
				continue;
			}
			const GToken * w = word, * b = before;
			if (state == LOWER && w->w.known && w->w.lowerOnly && isUpper(w->s[0]) && !w->mayStart && w->s.size() > 1 && !in(L"-:", w->s[1]) && caps(w->s) != ALL_UPPER && !w->w.maybePlace) {
				W f(w->s);
				f[0] = lower(f[0]);
				err(G_LOWER, w->pos, f.size(), f);
			}
			advance();
			if (state != QUOTED && !seps.empty() && seps[0]->s[0] == L')' && listItem(w->s)) { brackets(1); state = FREE; }
			else {
				if (state == UPPER && isLower(w->s[0]) && !w->mayStart) {
					W f(w->s);
					f[0] = upper(f[0]);
					err(G_UPPER, w->pos, f.size(), f);
				}
				bool q = brackets(0);
				bool inst = w->w.placeGenitive && seps.size() == 1 && seps[0]->s[0] == L' ';
				if (!open.empty()) state = QUOTED;
				else if (state == QUOTED) {
					if (stops()) { ended = false; state = UPPER; }
					else if (q || ended) { ended = false; state = FREE; }
					else state = LOWER;
				}
				else if (has(L"\t") || (state != FREE && inst)) state = FREE;
				else if (state != LOWER && opt.titles && chapter(w->s)) state = FREE;
				else if (state == UPPER && digits(w->s) && b && !b->blank()) state = FREE;
				else if (stops()) { ended = true; state = UPPER; }
				else state = LOWER;
			}
			if (!word) return;
		}
	}
	void ending() {
		if ((opt.titles && text.size() == 1) || opt.unfinished || opt.bullets || text.empty() || text.back().empty()) return;
		const GToken & k = text.back().back();
		if (!k.punct()) err(G_END, k.pos, k.s.size());
	}
};

} // namespace model
