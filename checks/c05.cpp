// C05: the UTF-8, wide character and deprecated functions give the same answers, and malformed UTF-8 is refused
#include "texts.hpp"
using namespace gen;

namespace {


struct Old {
	int h = 0;
	Old() { const char * e = voikko_init_with_path(&h, "standard", 0, vk::dictPath().c_str()); if (e) { fprintf(stderr, "%s\n", e); abort(); } }
	~Old() { voikko_terminate(h); }
	void apply(const Opts & o) {
		for (auto & kv : o.b) voikko_set_bool_option(h, kv.first, kv.second);
		if (o.minHyphSet) voikko_set_int_option(h, VOIKKO_MIN_HYPHENATED_WORD_LENGTH, o.minHyph);
		if (o.cacheSet) voikko_set_int_option(h, VOIKKO_SPELLER_CACHE_SIZE, o.cache);
	}
};

// a UTF-8 text followed by other bytes, so that a function must respect the length
struct Buf {
	std::string s; size_t n;
	Buf(const std::string & t, bool tail) : s(t + (tail ? "\xC3\xA4 x.\xFF" : "")), n(t.size()) {}
	const char * p() const { return s.c_str(); }
};

std::string str(const std::vector<std::string> & v) { std::string r; for (auto & s : v) r += s + "|"; return r; }
std::string str(const std::vector<W> & v) { std::string r; for (auto & s : v) r += uni::enc(s) + "|"; return r; }

std::vector<std::string> oldSuggest(char ** s) { std::vector<std::string> r; if (s) { for (char ** p = s; *p; p++) r.push_back(*p); voikko_free_suggest_cstr(s); } return r; }
std::string oldHyph(char * s, bool & nul) { nul = !s; std::string r; if (s) { r = s; voikko_free_hyphenate(s); } return r; }

std::string oldError(voikko_grammar_error e) {
	if (!e.error_code) return "none";
	vk::GErr g;
	g.code = e.error_code; g.start = e.startpos; g.len = e.errorlen;
	if (e.suggestions) { for (char ** s = e.suggestions; *s; s++) g.sugg.push_back(*s); voikko_free_suggest_cstr(e.suggestions); }
	return g.str();
}
std::string err(VoikkoGrammarError * e) { vk::GErr g; return vk::Handle::takeG(e, g) ? g.str() : "none"; }

void same(Ctx & c, const char * what, const std::string & a, const std::string & b) {
	c.eval();
	if (a != b) c.fail(std::string(what) + ": " + a + " / " + b);
}

}

PBT_PROP(words, 10) {
	W w;
	switch (c.weighted({5, 3, 2, 1})) {
		case 0: w = candidate(c); break;
		case 1: w = word(c, 300); break;
		case 2: w = hyphenated(c); if (c.coin()) w = typo(c, w); break;
		default: { // many bytes in few characters
			size_t n = 1 + c.below(270);
			static const wchar_t wide[] = L"äöåé\u0431\u20AC\U0001F600\uFB03-";
			W p; size_t k = 1 + c.below(4); for (size_t i = 0; i < k; i++) p += wide[c.below(wcslen(wide))];
			while (w.size() < n) w += c.chance(1, 20) ? c.pick(lex()) : p;
			w.resize(n);
			break;
		}
	}
	if (w.empty() || !uni::encodable(w)) c.discard();
	Opts o = options(c, 1, 5);
	std::string u = uni::enc(w);
	c.note("word " + uni::show(w) + " " + o.str());
	vk::Handle h, g;
	o.apply(h); o.apply(g);
	Old old;
	old.apply(o);
	bool n1, n2, n3, n4;
	// spelling
	int r = h.spell(w);
	same(c, "spelling, wide and UTF-8", std::to_string(r), std::to_string(g.spellU(u)));
	same(c, "spelling, new and old UTF-8", std::to_string(r), std::to_string(voikko_spell_cstr(old.h, u.c_str())));
	same(c, "spelling, new and old wide", std::to_string(r), std::to_string(voikko_spell_ucs4(old.h, w.c_str())));
	// suggestions
	if (r != VOIKKO_SPELL_OK ? c.coin() : c.chance(1, 6)) {
		bool oldWide = c.coin();
		auto s = h.suggest(w, &n1);
		same(c, "suggestions, wide and UTF-8", str(s), str(g.suggestU(u, &n2)));
		if (!oldWide) same(c, "suggestions, new and old UTF-8", str(s), str(oldSuggest(voikko_suggest_cstr(old.h, u.c_str()))));
		std::vector<W> ow;
		wchar_t ** os = oldWide ? voikko_suggest_ucs4(old.h, w.c_str()) : 0;
		if (os) { for (wchar_t ** p = os; *p; p++) ow.push_back(*p); voikko_free_suggest_ucs4(os); }
		if (oldWide) same(c, "suggestions, new and old wide", str(s), str(ow));
		if (!s.empty()) { c.nontrivial("s " + u + o.str()); c.label("with suggestions"); }
	}
	// hyphenation
	std::string hy = h.hyph(w, &n1), hu = g.hyphU(u, &n2), oc = oldHyph(voikko_hyphenate_cstr(old.h, u.c_str()), n3), ow = oldHyph(voikko_hyphenate_ucs4(old.h, w.c_str()), n4);
	if (n1 || n2 || n3 || n4) c.fail("no hyphenation from one of the functions");
	same(c, "hyphenation, wide and UTF-8", "'" + hy + "'", "'" + hu + "'");
	same(c, "hyphenation, new and old UTF-8", "'" + hy + "'", "'" + oc + "'");
	same(c, "hyphenation, new and old wide", "'" + hy + "'", "'" + ow + "'");
	// analysis
	std::string a = vk::showA(h.analyze(w));
	same(c, "analyses, wide and UTF-8", a, vk::showA(g.analyzeU(u)));
	same(c, "analyses, new and old UTF-8", a, vk::showA(vk::Handle::takeA(voikko_analyze_word_cstr(old.h, u.c_str()), 0)));
	same(c, "analyses, new and old wide", a, vk::showA(vk::Handle::takeA(voikko_analyze_word_ucs4(old.h, w.c_str()), 0)));
	if (r == 1) { c.nontrivial("w " + u + o.str()); if (c.wantSample()) c.sample(u + " " + o.str()); c.label("valid word"); }
	if (u.size() > 255) c.label("more than 255 bytes");
}

PBT_PROP(texts, 6) {
	W t = anyText(c, c.chance(1, 6) ? 2500 : 300);
	if (c.chance(1, 8)) { // long tokens, longer than any lookahead
		W l;
		size_t n = 30 + c.below(200);
		static const wchar_t * ch[] = {L"a", L"a/", L"ä!", L"-a", L"a'", L"a.", L"1,", L"{", L"\u20AC", L"a&"};
		const wchar_t * p = c.pick(ch);
		while (l.size() < n) l += p;
		if (c.coin()) l += L"@foo.fi";
		if (c.chance(1, 4)) l = L"http://" + l;
		size_t at = c.below(t.size() + 1);
		t.insert(at, l);
	}
	if (t.empty() || !uni::encodable(t)) c.discard();
	Opts o = options(c, 1, 5);
	std::string u = uni::enc(t);
	bool tail = c.coin();
	c.note("text " + uni::show(t.substr(0, 900)) + " " + o.str() + (tail ? " with bytes after it" : ""));
	vk::Handle h, g;
	o.apply(h); o.apply(g);
	Old old;
	old.apply(o);
	Buf b(u, tail);
	// byte offset of each character
	std::vector<size_t> off(1, 0);
	for (wchar_t ch : t) off.push_back(off.back() + uni::enc(W(1, ch)).size());
	size_t pos = 0, count = 0;
	while (pos < t.size() && count < 400) {
		size_t l1 = 0, l2 = 0, l3 = 0, l4 = 0;
		int r1 = voikkoNextTokenUcs4(h.h, t.c_str() + pos, t.size() - pos, &l1), r2 = voikkoNextTokenCstr(g.h, b.p() + off[pos], b.n - off[pos], &l2);
		int r3 = voikko_next_token_ucs4(old.h, t.c_str() + pos, t.size() - pos, &l3), r4 = voikko_next_token_cstr(old.h, b.p() + off[pos], b.n - off[pos], &l4);
		c.eval();
		if (r1 != r2 || l1 != l2) c.fail("token at " + std::to_string(pos) + ": wide type " + std::to_string(r1) + " length " + std::to_string(l1) + ", UTF-8 type " + std::to_string(r2) + " length " + std::to_string(l2));
		if (r1 != r3 || l1 != l3 || r1 != r4 || l1 != l4) c.fail("token at " + std::to_string(pos) + ": new and old functions differ");
		if (!l1 || l1 > t.size() - pos) break;
		pos += l1; count++;
	}
	pos = 0;
	for (int k = 0; k < 200 && pos < t.size(); k++) {
		size_t l1 = 0, l2 = 0, l3 = 0, l4 = 0;
		int r1 = voikkoNextSentenceStartUcs4(h.h, t.c_str() + pos, t.size() - pos, &l1), r2 = voikkoNextSentenceStartCstr(g.h, b.p() + off[pos], b.n - off[pos], &l2);
		int r3 = voikko_next_sentence_start_ucs4(old.h, t.c_str() + pos, t.size() - pos, &l3), r4 = voikko_next_sentence_start_cstr(old.h, b.p() + off[pos], b.n - off[pos], &l4);
		c.eval();
		if (r1 != r2 || l1 != l2) c.fail("sentence at " + std::to_string(pos) + ": wide type " + std::to_string(r1) + " length " + std::to_string(l1) + ", UTF-8 type " + std::to_string(r2) + " length " + std::to_string(l2));
		if (r1 != r3 || l1 != l3 || r1 != r4 || l1 != l4) c.fail("sentence at " + std::to_string(pos) + ": new and old functions differ");
		if (r1 == SENTENCE_NONE || !l1 || l1 > t.size() - pos) break;
		pos += l1;
	}
	if (t.size() > 600) { c.nontrivial("t " + u + o.str()); return; }
	int errors = 0;
	size_t start = c.chance(1, 4) ? c.below(t.size() + 1) : 0;
	for (int skip = 0; skip < 50; skip++) {
		std::string e = err(voikkoNextGrammarErrorUcs4(h.h, t.c_str(), t.size(), start, skip));
		same(c, "grammar, wide and UTF-8", e, err(voikkoNextGrammarErrorCstr(g.h, b.p(), b.n, start, skip)));
		if (skip < 2) {
			same(c, "grammar, new and old UTF-8", e, oldError(voikko_next_grammar_error_cstr(old.h, b.p(), b.n, start, skip)));
			same(c, "grammar, new and old wide", e, oldError(voikko_next_grammar_error_ucs4(old.h, t.c_str(), t.size(), start, skip)));
		}
		if (e == "none") break;
		errors++;
	}
	if (errors || count > 3) { c.nontrivial("t " + u + o.str()); if (c.wantSample()) c.sample(u.substr(0, 200)); }
	c.label(errors ? "text with errors" : "text");
}

// malformed UTF-8
PBT_PROP(malformed, 6) {
	W w = c.coin() ? candidate(c) : anyText(c, 700);
	if (c.chance(1, 4)) while (w.size() < 700) w += L" " + w;
	if (w.size() > 900) w.resize(900);
	for (auto & ch : w) if (!uni::encodable(W(1, ch))) ch = L'x';
	std::string u = mangle(c, uni::enc(w));
	W good;
	if (u.empty() || uni::dec(u, good)) c.discard();
	// the well formed beginning
	size_t lo = 0;
	for (size_t n = u.size(); n > 0; n--) if (uni::dec(u.substr(0, n), good)) { lo = n; break; }
	if (!lo) good.clear();
	c.note("bytes " + uni::showBytes(u.substr(0, 900)) + " well formed up to " + std::to_string(lo));
	vk::Handle h;
	Old old;
	bool nul;
	c.eval(8);
	if (h.spellU(u) != VOIKKO_CHARSET_CONVERSION_FAILED) c.fail("the speller answers " + std::to_string(h.spellU(u)));
	if (voikko_spell_cstr(old.h, u.c_str()) != VOIKKO_CHARSET_CONVERSION_FAILED) c.fail("the old speller function does not report the error");
	h.suggestU(u, &nul); if (!nul) c.fail("suggestions for malformed text");
	h.hyphU(u, &nul); if (!nul) c.fail("hyphenation of malformed text");
	h.insertHyphens(u, "-", true, &nul); if (!nul) c.fail("hyphens inserted in malformed text");
	h.insertHyphens("koira", u, true, &nul); if (!nul) c.fail("malformed separator inserted");
	h.analyzeU(u, &nul); if (!nul) c.fail("analysis of malformed text");
	vk::GErr g;
	if (h.grammarU(u, 0, 0, g)) c.fail("grammar error in malformed text");
	size_t len = 0;
	if (voikkoNextSentenceStartCstr(h.h, u.c_str(), u.size(), &len) != SENTENCE_NONE) c.fail("sentence in malformed text");
	// a token may be found before the malformed bytes
	std::string rest = u;
	W left = good;
	for (int k = 0; k < 3000; k++) {
		len = 0;
		int ty = voikkoNextTokenCstr(h.h, rest.c_str(), rest.size(), &len);
		c.eval();
		if (ty == TOKEN_NONE) break;
		if (len > left.size()) c.fail("token reaches into the malformed bytes");
		size_t bytes = uni::enc(left.substr(0, len)).size();
		rest.erase(0, bytes);
		left.erase(0, len);
		if (k == 2999) c.fail("tokens do not end at the malformed bytes");
		if (!bytes) c.fail("empty token");
	}
	c.nontrivial("m " + u);
	c.label("malformed");
	if (c.wantSample()) c.sample("malformed " + uni::showBytes(u.substr(0, 60)));
}
// several handles of the old functions at once: each keeps its own options, closing one leaves the others
PBT_PROP(handles, 3) {
	struct One { int n; Opts o; };
	std::vector<One> live;
	std::string log;
	auto use = [&](const One & x, const W & w) {
		vk::Handle h;
		x.o.apply(h);
		std::string u = uni::enc(w);
		same(c, ("spelling with handle " + std::to_string(x.n)).c_str(), std::to_string(h.spell(w)), std::to_string(voikko_spell_cstr(x.n, u.c_str())));
		bool n1, n2;
		std::string a = h.hyph(w, &n1), b = oldHyph(voikko_hyphenate_ucs4(x.n, w.c_str()), n2);
		same(c, "hyphenation with one handle of several", n1 ? "null" : a, n2 ? "null" : b);
	};
	struct Close { std::vector<One> & l; ~Close() { for (auto & x : l) voikko_terminate(x.n); } } close{live};
	int n = 1 + c.range(1, 24), most = 0;
	for (int i = 0; i < n; i++) {
		switch (c.weighted({5, 4, 6, 1, 3})) {
			case 0: {
				static const char * const L[] = {"standard", "", "default", "fi_FI", "standard", "nosuch", "nosuchvariantatall", "fi-x-standard"};
				const char * l = L[c.below(8)];
				bool no = strncmp(l, "nosuch", 6) == 0 || strcmp(l, "fi-x-standard") == 0;
				int k = -7;
				c.note(std::string("open ") + l);
				const char * e = voikko_init_with_path(&k, l, c.chance(1, 4) ? (int) c.below(5) - 1 : 0, vk::dictPath().c_str());
				c.eval();
				if (no) { if (!e) c.fail("a dictionary that does not exist is opened"); if (!*e) c.fail("empty error text"); if (live.size() < 4 && k != 0) c.fail("failed opening gives handle " + std::to_string(k)); }
				else if (live.size() >= 4) { if (!e) live.push_back({k, Opts()}); } // the number of handles is limited
				else if (e) c.fail(std::string("opening fails: ") + e + " with " + std::to_string(live.size()) + " handles open");
				else {
					if (k < 1) c.fail("handle " + std::to_string(k));
					for (auto & x : live) if (x.n == k) c.fail("handle " + std::to_string(k) + " is given twice");
					live.push_back({k, Opts()});
				}
				break;
			}
			case 1: {
				if (live.empty()) break;
				size_t k = c.below(live.size());
				c.note("close " + std::to_string(live[k].n));
				int r = voikko_terminate(live[k].n);
				c.eval();
				if (r != 1) c.fail("closing handle " + std::to_string(live[k].n) + " gives " + std::to_string(r));
				live.erase(live.begin() + k);
				break;
			}
			case 2: {
				if (live.empty()) break;
				W w = c.coin() ? candidate(c) : lexWord(c);
				if (w.size() > 200) break;
				c.note("ask " + uni::show(w));
				for (auto & x : live) use(x, w);
				c.nontrivial("handles " + uni::enc(w) + std::to_string(live.size()));
				if (live.size() > 1) c.label("several handles");
				break;
			}
			case 3: {
				int k = (int) c.pick({-1, 0, 5, 6, 64, 1000000, -2147483647 - 1, 2147483647, 1, 2, 3, 4});
				bool has = false;
				for (auto & x : live) if (x.n == k) has = true;
				if (has) break;
				c.note("close " + std::to_string(k) + ", which is not open");
				c.eval();
				if (voikko_terminate(k) != 0) c.fail("closing handle " + std::to_string(k) + ", which is not open, succeeds");
				break;
			}
			default: {
				if (live.empty()) break;
				One & x = live[c.below(live.size())];
				Opts o = options(c);
				c.note("handle " + std::to_string(x.n) + " " + o.str());
				for (auto & kv : o.b) { x.o.b[kv.first] = kv.second; if (voikko_set_bool_option(x.n, kv.first, kv.second) != 1) c.fail("option refused"); }
				if (o.minHyphSet) { x.o.minHyphSet = true; x.o.minHyph = o.minHyph; voikko_set_int_option(x.n, VOIKKO_MIN_HYPHENATED_WORD_LENGTH, o.minHyph); }
				break;
			}
		}
		most = std::max(most, (int) live.size());
	}
	W w = lexWord(c);
	for (auto & x : live) use(x, w);
	if (c.wantSample()) c.sample("at most " + std::to_string(most) + " old handles at a time, " + std::to_string(n) + " operations");
}
PBT_MAIN
