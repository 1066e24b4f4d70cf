// C01: no input or call sequence crashes, corrupts memory, leaks or hangs
#include <sanitizer/allocator_interface.h>
#include "gen.hpp"
using namespace gen;

namespace {

enum Kind { SPELL, SUGGEST, HYPH, INSERT, ANALYZE, TOKENS, SENTENCES, GRAMMAR, BOOL, INT, VALUES, LISTS, OPEN, CLOSE, DEPRECATED_OPEN, DEPRECATED_CLOSE, N_KINDS };
struct Op {
	Kind k;
	int slot, a, b, depSlot;
	bool utf8, viaOld, keep;
	W w;
	std::string s, s2;
	size_t start;
};
const char * KIND[] = {"spell", "suggest", "hyphenate", "insertHyphens", "analyze", "tokens", "sentences", "grammar", "setBool", "setInt", "attributeValues", "lists", "open", "close", "oldOpen", "oldClose"};

// a copy that ends at an unmapped page: any read beyond the given length faults, also inside libc
template <class T> struct Exact {
	T * p;
	Exact(const T * s, size_t n) {
		static const size_t SIZE = 1 << 20;
		static char * area = [] {
			char * a = (char *) mmap(0, SIZE + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
			if (a == MAP_FAILED || mprotect(a + SIZE, 4096, PROT_NONE)) abort();
			return a;
		}();
		p = (T *) (area + SIZE) - n;
		memcpy(p, s, n * sizeof(T));
	}
};

struct Result { int type; void * p; };
enum { R_WARR, R_CARR, R_CSTR, R_MOR, R_GERR, R_OLDSUGG, R_OLDHYPH };
void release(Result r) {
	switch (r.type) {
		case R_WARR: voikko_free_suggest_ucs4((wchar_t **) r.p); break;
		case R_CARR: voikkoFreeCstrArray((char **) r.p); break;
		case R_CSTR: voikkoFreeCstr((char *) r.p); break;
		case R_MOR: voikko_free_mor_analysis((voikko_mor_analysis **) r.p); break;
		case R_GERR: voikkoFreeGrammarError((VoikkoGrammarError *) r.p); break;
		case R_OLDSUGG: voikko_free_suggest_cstr((char **) r.p); break;
		case R_OLDHYPH: voikko_free_hyphenate((char *) r.p); break;
	}
}

const int SLOTS = 3;
std::string PATH;

// runs the sequence; returns whether some call gave a non-empty result
bool execute(const std::vector<Op> & ops, std::vector<Result> & kept, pbt::Ctx & c) {
	VoikkoHandle * h[SLOTS] = {0, 0, 0};
	int old[2] = {0, 0};
	bool any = false;
	const char * err = 0;
	auto need = [&](int s) { if (!h[s]) h[s] = voikkoInit(&err, "fi", PATH.c_str()); if (!h[s]) { fprintf(stderr, "cannot open the dictionary: %s\n", err); abort(); } return h[s]; };
	auto keep = [&](const Op & o, int type, void * p) { if (!p) return; any = true; if (o.keep && kept.size() < kept.capacity()) kept.push_back(Result{type, p}); else release(Result{type, p}); };
	for (const Op & o : ops) {
		VoikkoHandle * H = need(o.slot);
		int oh = o.viaOld ? old[o.depSlot] : 0;
		switch (o.k) {
			case SPELL:
				if (o.utf8) any |= (oh ? voikko_spell_cstr(oh, o.s.c_str()) : voikkoSpellCstr(H, o.s.c_str())) == VOIKKO_SPELL_OK;
				else any |= (oh ? voikko_spell_ucs4(oh, o.w.c_str()) : voikkoSpellUcs4(H, o.w.c_str())) == VOIKKO_SPELL_OK;
				break;
			case SUGGEST:
				if (o.utf8) { if (oh) keep(o, R_OLDSUGG, voikko_suggest_cstr(oh, o.s.c_str())); else keep(o, R_CARR, voikkoSuggestCstr(H, o.s.c_str())); }
				else keep(o, R_WARR, oh ? voikko_suggest_ucs4(oh, o.w.c_str()) : voikkoSuggestUcs4(H, o.w.c_str()));
				break;
			case HYPH:
				if (o.utf8) { if (oh) keep(o, R_OLDHYPH, voikko_hyphenate_cstr(oh, o.s.c_str())); else keep(o, R_CSTR, voikkoHyphenateCstr(H, o.s.c_str())); }
				else { if (oh) keep(o, R_OLDHYPH, voikko_hyphenate_ucs4(oh, o.w.c_str())); else keep(o, R_CSTR, voikkoHyphenateUcs4(H, o.w.c_str())); }
				break;
			case INSERT: keep(o, R_CSTR, voikkoInsertHyphensCstr(H, o.s.c_str(), o.s2.c_str(), o.a & 1)); break;
			case ANALYZE: {
				voikko_mor_analysis ** m = o.utf8 ? (oh ? voikko_analyze_word_cstr(oh, o.s.c_str()) : voikkoAnalyzeWordCstr(H, o.s.c_str())) : (oh ? voikko_analyze_word_ucs4(oh, o.w.c_str()) : voikkoAnalyzeWordUcs4(H, o.w.c_str()));
				if (m) for (voikko_mor_analysis ** p = m; *p; p++) for (const char ** k = voikko_mor_analysis_keys(*p); *k; k++) {
					if (wcslen(voikko_mor_analysis_value_ucs4(*p, *k))) any = true;
					char * v = voikko_mor_analysis_value_cstr(*p, *k);
					voikko_free_mor_analysis_value_cstr(v);
				}
				if (m && (*m || o.keep)) keep(o, R_MOR, m); else voikko_free_mor_analysis(m);
				break;
			}
			case TOKENS: case SENTENCES: {
				size_t pos = 0, n = 0;
				for (int guard = 0; guard < 4000; guard++) {
					size_t len = 0;
					int ty;
					if (o.utf8) {
						if (pos > o.s.size()) c.fail("token or sentence runs past the end of the text");
						Exact<char> e(o.s.data() + pos, o.s.size() - pos);
						if (o.k == TOKENS) ty = oh ? voikko_next_token_cstr(oh, e.p, o.s.size() - pos, &len) : voikkoNextTokenCstr(H, e.p, o.s.size() - pos, &len);
						else ty = oh ? voikko_next_sentence_start_cstr(oh, e.p, o.s.size() - pos, &len) : voikkoNextSentenceStartCstr(H, e.p, o.s.size() - pos, &len);
						if (ty == TOKEN_NONE || len == 0) break;
						// lengths are in characters
						for (size_t i = 0; i < len; i++) { if (pos >= o.s.size()) c.fail("token or sentence runs past the end of the text"); pos++; while (pos < o.s.size() && ((unsigned char) o.s[pos] & 0xC0) == 0x80) pos++; }
					}
					else {
						Exact<wchar_t> e(o.w.data() + pos, o.w.size() - pos);
						if (o.k == TOKENS) ty = oh ? voikko_next_token_ucs4(oh, e.p, o.w.size() - pos, &len) : voikkoNextTokenUcs4(H, e.p, o.w.size() - pos, &len);
						else ty = oh ? voikko_next_sentence_start_ucs4(oh, e.p, o.w.size() - pos, &len) : voikkoNextSentenceStartUcs4(H, e.p, o.w.size() - pos, &len);
						if (ty == TOKEN_NONE || len == 0) break;
						pos += len;
						if (pos > o.w.size()) c.fail("token or sentence runs past the end of the text");
					}
					any = true;
					if (ty == SENTENCE_NONE) break;
					if (++n > 3000) break;
				}
				break;
			}
			case GRAMMAR: {
				if (oh) {
					voikko_grammar_error g = o.utf8 ? voikko_next_grammar_error_cstr(oh, o.s.c_str(), o.s.size(), o.start, o.a) : voikko_next_grammar_error_ucs4(oh, o.w.c_str(), o.w.size(), o.start, o.a);
					if (g.error_code) any = true;
					voikko_free_suggest_cstr(g.suggestions);
					break;
				}
				VoikkoGrammarError * e;
				if (o.utf8) { Exact<char> x(o.s.data(), o.s.size()); e = voikkoNextGrammarErrorCstr(H, x.p, o.s.size(), o.start, o.a); }
				else { Exact<wchar_t> x(o.w.data(), o.w.size()); e = voikkoNextGrammarErrorUcs4(H, x.p, o.w.size(), o.start, o.a); }
				if (e) {
					char * d = voikkoGetGrammarErrorShortDescription(e, o.b & 1 ? "fi" : "en");
					voikkoFreeErrorMessageCstr(d);
					const char ** sg = voikkoGetGrammarErrorSuggestions(e);
					if (sg) for (; *sg; sg++) if (strlen(*sg) > 1000000) any = true;
				}
				keep(o, R_GERR, e);
				break;
			}
			case BOOL: if (oh) voikko_set_bool_option(oh, o.a, o.b); else voikkoSetBooleanOption(H, o.a, o.b); break;
			case INT: if (oh) voikko_set_int_option(oh, o.a, o.b); else voikkoSetIntegerOption(H, o.a, o.b); break;
			case VALUES: keep(o, R_CARR, voikkoGetAttributeValues(H, o.s2.c_str())); break;
			case LISTS: {
				voikko_dict ** d = voikko_list_dicts(PATH.c_str());
				for (voikko_dict ** p = d; *p; p++) if (strlen(voikko_dict_language(*p)) + strlen(voikko_dict_script(*p)) + strlen(voikko_dict_variant(*p)) + strlen(voikko_dict_description(*p))) any = true;
				voikko_free_dicts(d);
				voikkoFreeCstrArray(voikkoListSupportedSpellingLanguages(PATH.c_str()));
				voikkoFreeCstrArray(voikkoListSupportedHyphenationLanguages(PATH.c_str()));
				voikkoFreeCstrArray(voikkoListSupportedGrammarCheckingLanguages(PATH.c_str()));
				break;
			}
			case OPEN: { // failing and succeeding openings with various tags
				VoikkoHandle * t = voikkoInit(&err, o.s2.c_str(), PATH.c_str());
				if (t) voikkoTerminate(t);
				int x = 0;
				if (o.b & 1) { if (!voikko_init_with_path(&x, o.s2.c_str(), o.a, PATH.c_str())) voikko_terminate(x); }
				break;
			}
			case CLOSE: voikkoTerminate(H); h[o.slot] = 0; break;
			case DEPRECATED_OPEN:
				if (!old[o.depSlot]) { const char * e = voikko_init_with_path(&old[o.depSlot], o.b & 1 ? "standard" : "", o.a, PATH.c_str()); if (e) c.fail(std::string("cannot open the dictionary with the old interface: ") + e); }
				break;
			case DEPRECATED_CLOSE: if (old[o.depSlot]) { if (!voikko_terminate(old[o.depSlot])) c.fail("closing an open handle is refused"); old[o.depSlot] = 0; }
				else { int n = o.a % 7; if (n != old[0] && n != old[1] && voikko_terminate(n)) c.fail("closing a handle that is not open succeeds"); }
				break;
			default: break;
		}
	}
	// results may outlive their handle
	for (int i = 0; i < SLOTS; i++) if (h[i]) voikkoTerminate(h[i]);
	for (int i = 0; i < 2; i++) if (old[i]) voikko_terminate(old[i]);
	for (Result & r : kept) release(r);
	kept.clear();
	return any;
}

int mappings() {
	FILE * f = fopen("/proc/self/maps", "r");
	if (!f) return 0;
	static char l[4096];
	int n = 0;
	while (fgets(l, sizeof l, f)) if (strstr(l, ".vfst")) n++;
	fclose(f);
	return n;
}

const char * ATTRS[] = {"CLASS", "NUMBER", "PERSON", "MOOD", "TENSE", "COMPARISON", "NEGATIVE", "PARTICIPLE", "POSSESSIVE", "SIJAMUOTO", "FOCUS", "STRUCTURE", "BASEFORM", "", "foo", "KYSYMYSLIITE"};
const char * TAGS[] = {"fi", "fi-x-standard", "", "sv", "fi-FI", "fi_FI", "fi-x-nope", "fi-Latn-x-standard", "x-", "-", "fi--", "FI", "default", "fi-x-standard-x", "fi-Latn", "klingon-and-more-subtags-than-usual"};
const char * HYPHENS[] = {"-", "", "\xC2\xAD", "=", "&shy;", "\xE2\x80\x90", "--------------------------", "\xFF"};

// raw code units a caller can put in a wide string
W hostile(Ctx & c, W w) {
	static const wchar_t bad[] = {0xD800, 0xDFFF, 0xDC00, 0x10FFFF};
	if (!w.empty()) w[c.below(w.size())] = bad[c.below(4)];
	return w;
}

std::vector<Op> sequence(Ctx & c) {
	size_t n = 1 + c.small(16);
	std::vector<Op> ops;
	std::vector<W> pool;
	for (size_t i = 0; i < n; i++) {
		Op o;
		static const Kind kinds[] = {SPELL, SUGGEST, HYPH, INSERT, ANALYZE, TOKENS, SENTENCES, GRAMMAR, BOOL, INT, VALUES, LISTS, OPEN, CLOSE, DEPRECATED_OPEN, DEPRECATED_CLOSE};
		o.k = kinds[c.weighted({12, 10, 8, 6, 6, 6, 4, 14, 10, 4, 1, 1, 1, 2, 2, 1})];
		o.slot = c.chance(1, 5) ? 1 + (int) c.below(SLOTS - 1) : 0;
		o.depSlot = (int) c.below(2);
		o.utf8 = c.coin();
		o.viaOld = c.chance(1, 4);
		o.keep = c.chance(1, 3);
		o.a = o.b = 0;
		o.start = 0;
		bool needsText = o.k == TOKENS || o.k == SENTENCES || o.k == GRAMMAR;
		bool needsWord = o.k <= ANALYZE;
		if (needsText || needsWord) {
			if (!pool.empty() && c.chance(1, 4)) o.w = c.pick(pool);
			else {
				o.w = needsText ? gen::text(c, c.chance(1, 10) ? 20000 : 600) : word(c, 400);
				if (o.w.size() < 600) pool.push_back(o.w);
			}
			if (c.chance(1, 6)) { size_t p = c.below(o.w.size() + 1); o.w.resize(p); }
			if (needsWord && c.chance(1, 20)) o.w += L' ' + word(c, 60);
			o.s = uni::enc(o.w);
			if (c.chance(1, 6)) o.s = mangle(c, o.s);
			if (c.chance(1, 25)) o.w = hostile(c, o.w);
		}
		switch (o.k) {
			case INSERT: o.s2 = c.pick(HYPHENS); o.a = c.coin(); break;
			case GRAMMAR: o.start = c.chance(1, 4) ? c.below(o.w.size() + 3) : 0; o.a = c.chance(1, 3) ? (int) c.below(6) : 0; o.b = c.coin(); break;
			case BOOL: o.a = c.chance(1, 12) ? c.range(-2, 40) : BOOL_OPTS[c.below(N_BOOL_OPTS)]; o.b = c.coin(); break;
			case INT: if (c.coin()) { o.a = VOIKKO_MIN_HYPHENATED_WORD_LENGTH; static const int v[] = {2, 0, 1, 3, 5, 10, 300, -1, 2147483647}; o.b = v[c.below(9)]; } else { o.a = VOIKKO_SPELLER_CACHE_SIZE; o.b = c.range(-1, 5); } break;
			case VALUES: o.s2 = c.pick(ATTRS); break;
			case OPEN: o.s2 = c.pick(TAGS); o.a = c.range(-1, 2); o.b = c.coin(); break;
			case DEPRECATED_CLOSE: o.a = (int) c.below(7); break;
			case DEPRECATED_OPEN: o.a = c.range(-1, 2); o.b = c.coin(); break;
			default: break;
		}
		ops.push_back(o);
	}
	return ops;
}

}

static void check(pbt::Ctx & c, const std::vector<Op> & ops) {
	if (PATH.empty()) PATH = vk::dictPath();
	std::string key;
	for (const Op & o : ops) {
		std::string l = std::string(KIND[o.k]) + " handle" + std::to_string(o.slot) + (o.viaOld ? "(old" + std::to_string(o.depSlot) + ") " : " ") + (o.utf8 ? "utf8 " + uni::showBytes(o.s.substr(0, 700)) : "wide " + uni::show(o.w.substr(0, 700))) + " a=" + std::to_string(o.a) + " b=" + std::to_string(o.b) + " start=" + std::to_string(o.start) + " " + uni::showBytes(o.s2) + (o.keep ? " keep" : "");
		c.note(l);
		key += l + "\n";
	}
	std::vector<Result> kept;
	kept.reserve(64);
	bool any = execute(ops, kept, c);
	c.eval();
	if (any) { c.nontrivial(key); if (c.wantSample()) c.sample(key.substr(0, 380)); }
	for (const Op & o : ops) c.label(KIND[o.k]);
	// second run: one-time initialisation is over, every byte must come back
	size_t before = __sanitizer_get_current_allocated_bytes();
	execute(ops, kept, c);
	size_t after = __sanitizer_get_current_allocated_bytes();
	if (after != before) {
		size_t b2 = __sanitizer_get_current_allocated_bytes();
		execute(ops, kept, c);
		size_t a2 = __sanitizer_get_current_allocated_bytes();
		if (a2 > b2) c.fail("the sequence leaves " + std::to_string(a2 - b2) + " bytes allocated");
	}
	if (mappings()) c.fail("dictionary files stay mapped after all handles are closed");
	c.eval();
}

PBT_PROP(calls, 6) { check(c, sequence(c)); }

// every function on one degenerate word with random options
PBT_PROP(edge, 10) {
	std::vector<Op> ops;
	Op o;
	o.slot = o.depSlot = o.a = o.b = 0; o.start = 0; o.viaOld = o.keep = false; o.utf8 = false;
	o.k = BOOL;
	size_t n = c.below(6);
	for (size_t i = 0; i < n; i++) { o.a = BOOL_OPTS[c.below(N_BOOL_OPTS)]; o.b = c.coin(); ops.push_back(o); }
	if (c.chance(1, 4)) { o.k = INT; o.a = VOIKKO_MIN_HYPHENATED_WORD_LENGTH; o.b = c.range(0, 8); ops.push_back(o); }
	o.w = edgeWord(c);
	if (c.chance(1, 10)) o.w += L' ' + edgeWord(c) + L'.';
	o.s = uni::enc(o.w);
	o.s2 = "-";
	o.a = c.coin(); o.b = 0;
	for (int k = SPELL; k <= GRAMMAR; k++) for (int u = 0; u < 2; u++) { if (k == INSERT && u) continue; o.k = (Kind) k; o.utf8 = u; if (k == GRAMMAR) o.a = 0; ops.push_back(o); }
	check(c, ops);
}
PBT_MAIN
