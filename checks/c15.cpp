// C15: the command line tools print what the library answers, line by line
#include "paragraphs.hpp"
#include "query.hpp"
#include "tools.hpp"
using namespace gen;
typedef std::string S;
typedef std::vector<S> Args;

static S u(const W & w) { return uni::enc(w); }
static S join(const Args & a) { S r; for (auto & x : a) r += " " + x; return r; }

// one line of input: valid UTF-8 without NUL or newline
static W clean(W w) {
	W r;
	for (wchar_t ch : w) if (ch != 0 && ch != L'\n' && uni::encodable(W(1, ch))) r += ch;
	return r;
}
static W wordLine(Ctx & c) {
	switch (c.weighted({8, 2, 2, 1, 1})) {
		case 0: return clean(candidate(c));
		case 1: return clean(hyphenated(c));
		case 2: return W();
		case 3: { W w; size_t n = 250 + c.below(10); while (w.size() < n) w += lexWord(c); w.resize(n); return w; }
		default: return clean(anyText(c, 60));
	}
}
static S program(const char * flavor, const char * tool) { return tools::buildDir() + "/" + flavor + "/" + tool; }

static void compare(Ctx & c, const S & prog, const Args & a, const S & in, const S & out, const S & err) {
	tools::Result r = tools::run(prog, a, in);
	c.eval();
	if (r.hung) c.fail("the tool does not end");
	if (r.status != 0) c.fail("exit status " + std::to_string(r.status) + ": " + r.err.substr(0, 1500));
	if (r.out != out) {
		size_t i = 0, line = 1;
		while (i < out.size() && i < r.out.size() && out[i] == r.out[i]) { if (out[i] == '\n') line++; i++; }
		size_t b = i == 0 ? 0 : out.rfind('\n', i - 1);
		b = b == S::npos ? 0 : b;
		c.fail("output differs at line " + std::to_string(line) + ": expected \"" + uni::showBytes(out.substr(b, 120)) + "\", got \"" + uni::showBytes(r.out.substr(std::min(b, r.out.size()), 120)) + "\"");
	}
	if (r.err != err) c.fail("messages are \"" + r.err.substr(0, 1500) + "\", expected \"" + err + "\"");
}

// sets a boolean option in the arguments and the handle
static void option(Ctx & c, Args & a, vk::Handle & h, const char * name, int opt) {
	for (int n = c.chance(1, 4) ? 1 + c.chance(1, 5) : 0; n > 0; n--) {
		int v = c.coin();
		a.push_back(S(name) + "=" + (v ? "1" : "0"));
		h.opt(opt, v);
	}
}
// -p and -d anywhere among the other arguments
static void place(Ctx & c, Args & a) {
	size_t k = c.below(a.size() + 1);
	Args b = {"-p", vk::dictPath()};
	if (c.chance(1, 4)) { b.push_back("-d"); b.push_back(c.coin() ? "fi" : "fi-x-standard"); }
	a.insert(a.begin() + k, b.begin(), b.end());
}

PBT_PROP(spell, 10) {
	Args a;
	vk::Handle h;
	option(c, a, h, "ignore_dot", VOIKKO_OPT_IGNORE_DOT);
	option(c, a, h, "ignore_numbers", VOIKKO_OPT_IGNORE_NUMBERS);
	option(c, a, h, "ignore_nonwords", VOIKKO_OPT_IGNORE_NONWORDS);
	option(c, a, h, "accept_first_uppercase", VOIKKO_OPT_ACCEPT_FIRST_UPPERCASE);
	option(c, a, h, "accept_all_uppercase", VOIKKO_OPT_ACCEPT_ALL_UPPERCASE);
	option(c, a, h, "accept_extra_hyphens", VOIKKO_OPT_ACCEPT_EXTRA_HYPHENS);
	option(c, a, h, "accept_missing_hyphens", VOIKKO_OPT_ACCEPT_MISSING_HYPHENS);
	option(c, a, h, "ocr_suggestions", VOIKKO_OPT_OCR_SUGGESTIONS);
	enum { NORMAL, CW, WRONG, NONE } mode = NORMAL;
	bool sugg = false, mor = false, one = false;
	char sep = ' ';
	// the tool sets the cache size before the other options and the spelling results do not depend on it
	for (size_t i = c.small(4); i > 0; i--) {
		switch (c.below(7)) {
			case 0: a.push_back("-t"); mode = CW; break;
			case 1: a.push_back("-tt"); mode = WRONG; break;
			case 2: a.push_back("-s"); sugg = true; break;
			case 3: a.push_back("-m"); mor = true; break;
			case 4: a.push_back("-M"); mor = true; mode = NONE; break;
			case 5: { one = true; S x = "-x"; if (c.coin()) { sep = c.pick(std::vector<char>{',', '|', ':', '\t', ' ', 'a'}); x += sep; } a.push_back(x); break; }
			case 6: a.push_back("-c" + std::to_string(c.range(-1, 3))); break;
		}
	}
	bool suggests = sugg || one;
	int threads = c.chance(1, 2) ? c.weighted({1, 4, 4, 3, 2, 1}) + 1 : 0;
	if (threads == 6) threads = 6 + c.below(20);
	bool tsan = threads > 1 && threads < 6 && c.chance(1, 3);
	size_t lines = c.small(12);
	// blocks of 500 words go to threads in turn: interesting numbers of words are around its multiples
	std::vector<W> in;
	if (threads > 1 && c.chance(2, 3)) {
		size_t n = 500 * c.below(suggests ? 3 : 8) + c.range(-2, 2);
		if ((long) n < 0) n = 0;
		std::vector<W> base;
		for (size_t i = 1 + c.small(30); i > 0; i--) base.push_back(suggests ? clean(lexWord(c)) : wordLine(c));
		if (suggests) base.push_back(L"kiisa");
		size_t step = 1 + c.below(base.size()), at = 0;
		for (size_t i = 0; i < n; i++) { in.push_back(base[at % base.size()]); at += 1 + (i % 7 == 0 ? step : 0); }
	}
	else for (size_t i = 0; i < lines; i++) in.push_back(wordLine(c));
	place(c, a);
	if (threads) { Args j = {"-j", std::to_string(threads)}; a.insert(c.coin() ? a.begin() : a.end(), j.begin(), j.end()); }
	S text, exp, err;
	size_t correct = 0, wrong = 0;
	std::map<W, S> cache;
	for (auto & w : in) {
		text += u(w) + "\n";
		if (w.empty()) continue;
		if (w.size() > 255) { err += "E: Too long word\n"; continue; }
		auto it = cache.find(w);
		if (it != cache.end()) { exp += it->second; continue; }
		S o, x = u(w);
		int ok = mode == NONE ? 1 : h.spell(w);
		(ok ? correct : wrong)++;
		if (one) {
			o += x;
			if (!ok) for (auto & s : h.suggest(w)) if (sep != ' ' || s.find(L' ') == W::npos) o += sep + u(s);
			o += "\n";
		}
		else if (mode == NORMAL) o += (ok ? "C: " : "W: ") + x + "\n";
		else if (mode == CW) o += ok ? "C\n" : "W\n";
		else if (mode == WRONG && !ok) o += x + "\n";
		if (mor && ok) {
			int n = 0;
			for (auto & an : h.analyze(w)) { n++; for (auto & kv : an) o += "A(" + x + "):" + std::to_string(n) + ":" + kv.first + "=" + u(kv.second) + "\n"; }
		}
		if (sugg && !one && !ok) for (auto & s : h.suggest(w)) o += "S: " + u(s) + "\n";
		cache[w] = o;
		exp += o;
	}
	if (c.chance(1, 5) && !text.empty() && !in.back().empty()) text.pop_back();  // last line without newline
	c.note("voikkospell" + join(a) + (tsan ? " (with thread sanitizer)" : "") + "\n" + std::to_string(in.size()) + " lines\n" + text.substr(0, 3000));
	if (correct + wrong) { c.nontrivial(join(a) + text); if (c.wantSample()) c.sample("voikkospell" + join(a) + ": " + text.substr(0, 100)); }
	c.label(threads > 1 ? (in.size() > 500 ? "many blocks in threads" : "threads") : "one thread");
	compare(c, program(tsan ? "tsan" : "asan", "voikkospell"), a, text, exp, err);
}

PBT_PROP(hyphenate, 3) {
	Args a;
	vk::Handle h;
	option(c, a, h, "ignore_dot", VOIKKO_OPT_IGNORE_DOT);
	h.opt(VOIKKO_OPT_NO_UGLY_HYPHENATION, 0);
	option(c, a, h, "no_ugly_hyphenation", VOIKKO_OPT_NO_UGLY_HYPHENATION);
	option(c, a, h, "hyphenate_unknown_words", VOIKKO_OPT_HYPHENATE_UNKNOWN_WORDS);
	if (c.chance(1, 3)) { int n = c.range(0, 12); a.push_back("min_hyphenated_word_length=" + std::to_string(n)); h.iopt(VOIKKO_MIN_HYPHENATED_WORD_LENGTH, n < 2 ? 2 : n); }
	char sep = '-';
	if (c.chance(1, 3)) { sep = c.pick(std::vector<char>{'=', '|', '-', ' ', 's'}); a.push_back(S("-s") + sep); }
	place(c, a);
	S text, exp, err;
	bool some = false;
	for (size_t i = 1 + c.small(20); i > 0; i--) {
		W w = wordLine(c);
		text += u(w) + "\n";
		if (w.empty()) continue;
		if (w.size() > 255) { err += "E: Too long word\n"; continue; }
		S p = h.hyph(w), o;
		for (size_t k = 0; k < w.size(); k++) {
			char q = k < p.size() ? p[k] : ' ';
			if (q != ' ') { o += sep; some = true; }
			if (q != '=' || sep != '-') o += u(W(1, w[k]));
		}
		exp += o + "\n";
	}
	c.note("voikkohyphenate" + join(a) + "\n" + text);
	if (some) { c.nontrivial(join(a) + text); if (c.wantSample()) c.sample("voikkohyphenate" + join(a) + ": " + text.substr(0, 100)); }
	c.label("hyphenation");
	compare(c, program("asan", "voikkohyphenate"), a, text, exp, err);
}

PBT_PROP(grammar, 4) {
	Args a;
	vk::Handle h;
	option(c, a, h, "accept_titles", VOIKKO_OPT_ACCEPT_TITLES_IN_GC);
	option(c, a, h, "accept_unfinished_paragraphs", VOIKKO_OPT_ACCEPT_UNFINISHED_PARAGRAPHS_IN_GC);
	option(c, a, h, "accept_bulleted_lists", VOIKKO_OPT_ACCEPT_BULLETED_LISTS_IN_GC);
	int op = c.weighted({4, 2, 2});
	if (op == 1) a.push_back("--tokenize");
	if (op == 2) a.push_back("--split-sentences");
	bool numbers = c.chance(1, 3);
	S lang;
	if (numbers) a.push_back("-n");
	if (c.chance(1, 3)) { lang = c.coin() ? "fi" : "en"; a.push_back("explanation_language=" + lang); }
	place(c, a);
	S text, exp, err;
	bool some = false;
	size_t line = 0;
	for (size_t i = c.small(8); i > 0; i--) {
		W t = c.chance(1, 8) ? W() : clean(c.chance(1, 3) ? anyText(c, 400) : paragraph(c));
		if (op == 1 && c.chance(1, 60)) { t.clear(); size_t n = 99998 + c.below(5); W x = lexWord(c) + L" "; while (t.size() < n) t += x; t.resize(n); }
		text += u(t) + "\n";
		line++;
		if (t.empty()) continue;
		if (t.size() > 100000) { err += "E: Too long paragraph\n"; continue; }
		some = true;
		if (op == 1) {
			for (auto & k : h.tokens(t)) {
				const char * p = k.type == TOKEN_WORD ? "W" : k.type == TOKEN_PUNCTUATION ? "P" : k.type == TOKEN_WHITESPACE ? "S" : "U";
				exp += S(p) + ": \"" + u(k.text) + "\"\n";
			}
		}
		else if (op == 2) {
			size_t pos = 0;
			while (pos < t.size()) {
				size_t n = 0;
				int ty = voikkoNextSentenceStartUcs4(h.h, t.c_str() + pos, t.size() - pos, &n);
				if (ty == SENTENCE_NONE) { exp += "E: " + u(t.substr(pos)) + "\n"; break; }
				exp += (ty == SENTENCE_PROBABLE ? "B: " : "P: ") + u(t.substr(pos, n)) + "\n";
				pos += n;
			}
		}
		else {
			S p = numbers ? std::to_string(line) + " " : "";
			for (auto & g : h.allGrammar(t, 100000)) {
				exp += p + "[code=" + std::to_string(g.code) + ", level=0, descr=\"\", stpos=" + std::to_string(g.start) + ", len=" + std::to_string(g.len) + ", suggs={";
				for (size_t k = 0; k < g.sugg.size(); k++) exp += (k ? ",\"" : "\"") + g.sugg[k] + "\"";
				exp += "}]";
				if (!lang.empty()) exp += S(" (") + voikko_error_message_cstr(g.code, lang.c_str()) + ")";
				exp += "\n";
			}
			exp += p + "-\n";
		}
	}
	c.note("voikkogc" + join(a) + "\n" + text.substr(0, 3000));
	if (some) { c.nontrivial(join(a) + text); if (c.wantSample()) c.sample("voikkogc" + join(a) + ": " + text.substr(0, 100)); }
	c.label(op == 1 ? "tokens" : op == 2 ? "sentences" : "grammar");
	compare(c, program("asan", "voikkogc"), a, text, exp, err);
}

PBT_PROP(list, 1) {
	att::Scratch sc;
	S log;
	for (size_t i = c.below(5); i > 0; i--) {
		S tag = c.pick(std::vector<S>{"fi", "fi-x-tekniikka", "fi-Cyrl", "sv", "se-Latn-x-a", "fi-x-standard", "fi-x-b"}), desc = c.pick(std::vector<S>{"", "suomi", "ääni, a: b", "x (y)"});
		S d = sc.dir("5/mor-" + std::to_string(i));
		log += tag + " \"" + desc + "\"\n";
		S idx = "Voikko-Dictionary-Format: 5\nLanguage: " + tag + "\nDescription: " + desc + "\n";
		if (c.chance(1, 3)) idx += "Speller-Backend: AllOk\nSuggestion-Backend: null\nGrammar-Backend: null\n";
		sc.file(d + "/index.txt", idx);
	}
	S exp;
	bool caps = c.coin();
	if (caps) {
		auto add = [&](const char * k, char ** l) { for (auto & x : vk::Handle::take(l)) exp += S(k) + ":" + x + "\n"; };
		add("spell", voikkoListSupportedSpellingLanguages(sc.path.c_str()));
		add("hyphen", voikkoListSupportedHyphenationLanguages(sc.path.c_str()));
		add("grammar", voikkoListSupportedGrammarCheckingLanguages(sc.path.c_str()));
	}
	else {
		voikko_dict ** l = voikko_list_dicts(sc.path.c_str());
		for (voikko_dict ** i = l; *i; i++) {
			S script = voikko_dict_script(*i);
			exp += S(voikko_dict_language(*i)) + (script.empty() ? "" : "-" + script) + "-x-" + voikko_dict_variant(*i) + ": " + voikko_dict_description(*i) + "\n";
		}
		voikko_free_dicts(l);
	}
	Args a = {caps ? "-L" : "-l", "-p", sc.path};
	if (c.coin()) a = {"-p", sc.path, caps ? "-L" : "-l"};
	c.note(log + "voikkospell" + join(a));
	if (!exp.empty()) c.nontrivial(log + a[0] + a[2]);
	c.label("lists");
	compare(c, program("asan", "voikkospell"), a, "", exp, "");
}
PBT_MAIN
