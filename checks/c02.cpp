// C02: answers do not depend on what was asked before
#include "query.hpp"
using namespace gen;

PBT_PROP(history, 10) {
	std::vector<std::unique_ptr<vk::Handle>> hs;
	std::vector<Opts> os;
	hs.emplace_back(new vk::Handle());
	os.emplace_back();
	std::vector<W> words, texts;
	std::vector<VoikkoGrammarError *> unfreed;
	std::vector<wchar_t **> unfreedS;
	size_t steps = 1 + c.small(24);
	std::string key;
	size_t probes = 0, ops = 0;
	auto say = [&](const std::string & s) { c.note(s); key += s + "\n"; };
	for (size_t i = 0; i < steps; i++) {
		size_t hi = c.below(hs.size());
		vk::Handle & h = *hs[hi];
		Opts & o = os[hi];
		switch (c.weighted({12, 14, 10, 1, 1, 1})) {
			case 0: { // query without comparison
				query::Q q = query::gen(c, words, texts);
				say("h" + std::to_string(hi) + " " + q.str());
				query::answer(h, q);
				ops++;
				break;
			}
			case 1: { // probe: the same query on a fresh handle with the same options
				query::Q q = query::gen(c, words, texts);
				say("probe h" + std::to_string(hi) + " " + q.str());
				std::string a = query::answer(h, q);
				vk::Handle f;
				o.apply(f);
				std::string b = query::answer(f, q);
				c.eval();
				if (a != b) c.fail("the used handle answers\n" + a + "\na fresh handle with " + o.str() + " answers\n" + b);
				if (query::meaningful(q, b) && ops) { probes++; c.label(query::NAME[q.k]); }
				break;
			}
			case 2: { // option change
				size_t k = c.below(N_BOOL_OPTS + 2);
				if (k < (size_t) N_BOOL_OPTS) { int v = c.coin(); say("h" + std::to_string(hi) + " bool " + std::to_string(BOOL_OPTS[k]) + "=" + std::to_string(v)); h.opt(BOOL_OPTS[k], v); o.b[BOOL_OPTS[k]] = v; }
				else if (k == (size_t) N_BOOL_OPTS) { int v = c.range(2, 12); say("h" + std::to_string(hi) + " minhyph " + std::to_string(v)); h.iopt(VOIKKO_MIN_HYPHENATED_WORD_LENGTH, v); o.minHyphSet = true; o.minHyph = v; }
				else { int v = c.range(-1, 3); say("h" + std::to_string(hi) + " cache " + std::to_string(v)); h.iopt(VOIKKO_SPELLER_CACHE_SIZE, v); o.cacheSet = true; o.cache = v; }
				ops++;
				break;
			}
			case 3: if (hs.size() < 3) { say("open"); hs.emplace_back(new vk::Handle()); os.emplace_back(); ops++; } break;
			case 4: if (hs.size() > 1) { say("close h" + std::to_string(hi)); hs.erase(hs.begin() + hi); os.erase(os.begin() + hi); ops++; } break;
			default: { // results that stay around
				if (!texts.empty()) { W & t = texts.back(); VoikkoGrammarError * e = voikkoNextGrammarErrorUcs4(h.h, t.c_str(), t.size(), 0, 0); if (e) unfreed.push_back(e); }
				if (!words.empty()) { wchar_t ** s = voikkoSuggestUcs4(h.h, words.back().c_str()); if (s) unfreedS.push_back(s); }
				break;
			}
		}
	}
	for (auto e : unfreed) voikkoFreeGrammarError(e);
	for (auto s : unfreedS) voikko_free_suggest_ucs4(s);
	if (probes && ops >= 2) { c.nontrivial(key); if (c.wantSample()) c.sample(key.substr(0, 380)); }
}

// a session that asks many short words, then asks them again in random order and case
PBT_PROP(cache, 3) {
	vk::Handle h;
	Opts o;
	size_t n = 2 + c.below(40);
	std::vector<W> ws;
	static const int SP[] = {VOIKKO_OPT_ACCEPT_MISSING_HYPHENS, VOIKKO_OPT_ACCEPT_EXTRA_HYPHENS, VOIKKO_OPT_IGNORE_DOT, VOIKKO_OPT_IGNORE_NUMBERS, VOIKKO_OPT_IGNORE_UPPERCASE, VOIKKO_OPT_ACCEPT_FIRST_UPPERCASE, VOIKKO_OPT_ACCEPT_ALL_UPPERCASE, VOIKKO_OPT_IGNORE_NONWORDS};
	if (c.coin()) { o.cacheSet = true; o.cache = c.range(-1, 2); }
	for (int b : SP) if (c.chance(1, 4)) o.b[b] = c.coin();
	o.apply(h);
	for (size_t i = 0; i < n; i++) {
		W w = c.chance(1, 4) ? c.pick(hyphenWords()) : lexWord(c);
		if (c.chance(1, 10)) w.insert(c.below(w.size() + 1), 1, L'-');
		while (w.size() > 11) w.resize(1 + w.size() / 2);
		if (c.chance(1, 3)) w = typo(c, w);
		ws.push_back(w);
		h.spell(recase(c, w));
	}
	std::string key = o.str();
	bool any = false;
	size_t m = 5 + c.below(20);
	for (size_t i = 0; i < m; i++) {
		W w = c.pick(ws);
		if (c.coin()) w = recase(c, w);
		if (c.chance(1, 3)) { int b = SP[c.below(8)], v = c.coin(); h.opt(b, v); o.b[b] = v; c.note("option " + std::to_string(b) + "=" + std::to_string(v)); }
		c.note(uni::show(w));
		vk::Handle f;
		o.apply(f);
		int a = c.chance(1, 8) ? h.spellU(uni::enc(w)) : h.spell(w), b = f.spell(w);
		c.eval();
		key += uni::enc(w) + " ";
		if (b == 1) any = true;
		if (a != b) c.fail("the used handle answers " + std::to_string(a) + " for " + uni::show(w) + ", a fresh one with " + o.str() + " answers " + std::to_string(b));
	}
	if (any) { c.nontrivial(key); if (c.wantSample()) c.sample(key.substr(0, 300)); }
	c.label("cache session");
}

// many short words in one session, so that the cells of the cache are filled and reused; the answers must be those of fresh handles without a cache
static const std::vector<W> & shortWords() {
	static const std::vector<W> v = [] {
		std::vector<W> r;
		auto add = [&](const std::vector<W> & ws) { for (auto & w : ws) if (w.size() <= 11) { r.push_back(lowered(w)); } };
		add(lex()); add(testWords()); add(loadLines("names.txt"));
		return r;
	}();
	return v;
}
static int truth(const W & w) {
	static std::map<W, int> memo;
	auto it = memo.find(w);
	if (it != memo.end()) return it->second;
	vk::Handle f;
	f.iopt(VOIKKO_SPELLER_CACHE_SIZE, -1);
	return memo[w] = f.spell(w);
}
PBT_PROP(bulk, 1) {
	vk::Handle h;
	if (c.coin()) h.iopt(VOIKKO_SPELLER_CACHE_SIZE, c.range(0, 2));
	size_t n = 50 + c.below(250), wrong = 0;
	std::vector<W> ws;
	std::string key;
	static const std::vector<W> names = loadLines("names.txt");
	for (size_t i = 0; i < n; i++) {
		W w = c.chance(1, 3) ? c.pick(names) : c.pick(shortWords());
		ws.push_back(lowered(w));
		key += uni::enc(w) + " ";
		W q = c.coin() ? capital(lowered(w)) : lowered(w);
		int a = h.spell(q), b = truth(q);
		if (a != b) c.fail("after " + std::to_string(i) + " other words the answer for " + uni::show(q) + " is " + std::to_string(a) + ", a fresh handle without a cache answers " + std::to_string(b));
	}
	for (auto & w : ws) for (int k = 0; k < 2; k++) {
		W q = k ? capital(w) : w;
		int a = h.spell(q), b = truth(q);
		if (a != 1) wrong++;
		if (a != b) c.fail("after " + std::to_string(n) + " other words the answer for " + uni::show(q) + " is " + std::to_string(a) + ", a fresh handle without a cache answers " + std::to_string(b));
		c.eval();
	}
	c.nontrivial(key);
	c.label("bulk session");
}
// words that share a cell of a small cache (the generator aims at the collisions of the hash function in use; the oracle does not know it)
static unsigned cell(const W & w, int extra) {
	static const int ORDER[] = {0, 3, 5, 6, 7, 7, 7, 7, 7, 7, 7};
	unsigned h = 0, m = (1u << (ORDER[std::min<size_t>(w.size(), 10)] + extra)) - 1;
	for (wchar_t x : w) h = (h * 37 + (unsigned) x) & m;
	return h;
}
static W collide(pbt::Ctx & c, const W & w, int extra) {
	W v = w;
	if (v.empty()) return v;
	if (c.chance(1, 3)) { // differs in one character; equal in any polynomial hash of the order
		wchar_t & x = v[c.coin() ? v.size() - 1 : c.below(v.size())];
		x += (wchar_t) (128u << extra);
		return v;
	}
	static const W LETTERS = L"abcdefghijklmnoprstuvyzåäöšž";
	for (int k = 0; k < 400; k++) {
		v = w;
		size_t i = c.coin() ? v.size() - 1 : c.below(v.size()), j = c.below(v.size());
		v[i] = LETTERS[c.below(LETTERS.size())];
		v[j] = LETTERS[c.below(LETTERS.size())];
		if (v != w && cell(v, extra) == cell(w, extra)) return v;
	}
	return v;
}
PBT_PROP(collision, 3) {
	static std::map<std::pair<size_t, unsigned>, std::vector<W>> buckets[3];
	if (buckets[0].empty()) for (int e = 0; e < 3; e++) for (auto & w : shortWords()) if (w.size() >= 1 && w.size() <= 11) buckets[e][{w.size(), cell(w, e)}].push_back(w);
	vk::Handle h;
	int extra = c.range(0, 2);
	if (extra || c.coin()) h.iopt(VOIKKO_SPELLER_CACHE_SIZE, extra);
	std::string key = std::to_string(extra);
	size_t n = 1 + c.below(12);
	bool any = false;
	std::vector<W> ws;
	auto ask = [&](const W & q) {
		c.note(uni::show(q));
		int a = h.spell(q), b = truth(q);
		c.eval();
		if (b == 1) any = true;
		key += " " + uni::enc(q);
		if (a != b) c.fail("after the words above the answer for " + uni::show(q) + " is " + std::to_string(a) + ", a fresh handle without a cache answers " + std::to_string(b));
	};
	for (size_t i = 0; i < n; i++) {
		W w = c.pick(shortWords()), v = c.coin() ? collide(c, w, extra) : c.pick(buckets[extra][{w.size(), cell(w, extra)}]);
		if (w.empty() || v.empty()) continue;
		if (c.chance(1, 4)) { w = capital(w); v = collide(c, w, extra); }
		ask(w); ask(v); ask(w);
		ws.push_back(w); ws.push_back(v);
	}
	for (size_t i = 0; i < ws.size(); i++) ask(c.pick(ws));
	if (any) { c.nontrivial(key); if (c.wantSample()) c.sample(key.substr(0, 300)); }
	c.label("colliding words");
}

PBT_MAIN
