// C18: a dictionary that cannot be used is refused cleanly
#include "att.hpp"
#include "gen.hpp"
#include <sanitizer/allocator_interface.h>
#include <dirent.h>
using namespace att;
typedef std::string S;

static S slurp(const S & p) { std::ifstream f(p, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); return ss.str(); }

// small valid transducers by kind: weighted, byte order
static const S & good(pbt::Ctx & c, bool weighted, bool be) {
	static std::map<int, S> cache;
	S & s = cache[weighted * 2 + be];
	if (s.empty()) {
		Scratch sc;
		S w = weighted ? "\t1" : "";
		S text = "0\t1\ta\t[Lh]" + w + "\n0\t1\t@P.F.a@\t@0@" + w + "\n0\t1\tä\tä" + w + "\n0\t1\t-\t-" + w + "\n1\t1\tb\tb" + w + "\n1\t2\t@R.F.a@\t@0@" + w + "\n1" + w + "\n2" + w + "\n";
		S t = sc.path + "/t.vfst";
		if (compile(sc, text, t, weighted, be) != 0) c.discard();
		s = slurp(t);
	}
	return s;
}

enum Fault { GOOD, GOOD_SWAPPED, MISSING, EMPTY, SHORT, COOKIE, KIND, DIRECTORY, CUT_SYMBOLS, CUT_TABLE, BAD_FLAG, BAD_UTF8, FAULTS };
static const char * FAULT[] = {"good", "good, other byte order", "missing", "empty", "shorter than the header", "wrong file type", "wrong kind", "directory", "cut off inside the symbols", "cut off before the transitions", "malformed flag diacritic", "malformed UTF-8 in a symbol"};

// end of the symbol table of a valid file
static size_t symbolsEnd(const S & d, bool be) {
	unsigned n = be ? ((unsigned char) d[16] << 8) + (unsigned char) d[17] : (unsigned char) d[16] + ((unsigned char) d[17] << 8);
	size_t p = 18;
	for (unsigned i = 0; i < n; i++) p = d.find('\0', p) + 1;
	return p;
}

static S put(pbt::Ctx & c, Scratch & sc, const S & dir, const S & name, bool weighted, Fault f) {
	bool be = f == GOOD_SWAPPED || (f != GOOD && c.chance(1, 3));
	S d = good(c, weighted, be), path = dir + "/" + name, info = name + ": " + FAULT[f];
	switch (f) {
		case MISSING: return info;
		case EMPTY: d = ""; break;
		case SHORT: d = d.substr(0, 1 + c.below(17)); info += " (" + std::to_string(d.size()) + " bytes)"; break;
		case COOKIE: { size_t k = c.below(8); d[k] ^= 1 << c.below(8); break; }
		case KIND: d = good(c, !weighted, be); break;
		case DIRECTORY: mkdir(path.c_str(), 0777); return info;
		case CUT_SYMBOLS: { size_t e = symbolsEnd(d, be); d = d.substr(0, 18 + c.below(e - 18)); info += " (" + std::to_string(d.size()) + " bytes)"; break; }
		case CUT_TABLE: { size_t e = symbolsEnd(d, be), cell = weighted ? 16 : 8, start = (e + cell - 1) / cell * cell; d = d.substr(0, e + c.below(start - e + 1)); info += " (" + std::to_string(d.size()) + " bytes)"; break; }
		case BAD_FLAG: { size_t p = d.find("@P.F.a@"); d = d.substr(0, p) + "@P.@" + d.substr(p + 7); break; }
		case BAD_UTF8: { size_t p = d.find("ä"); d[p + (c.coin() ? 1 : 0)] = c.coin() ? 'x' : (char) 0xFF; break; }
		default: break;
	}
	if (be) info += ", big endian";
	sc.file(path, d);
	return info;
}

static size_t openFiles() {
	size_t n = 0;
	if (DIR * d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); }
	return n;
}
static bool mapped(const S & path) { return slurp("/proc/self/maps").find(path) != S::npos; }

PBT_PROP(opening, 10) {
	static const char * DEFSP = "FinnishSpellerTweaksWrapper(AnalyzerToSpellerAdapter(currentAnalyzer),currentAnalyzer)";
	static const char * MOR[] = {"", "finnishVfst", "vfst", "null", "malaga", "finnishVfst ", "nosuch"};
	static const char * SPL[] = {"", DEFSP, "vfst", "AnalyzerToSpellerAdapter(currentAnalyzer)", "AllOk", "AllError", "nosuch", "AnalyzerToSpellerAdapter()"};
	static const char * SUG[] = {"", "FinnishSuggestionStrategy(currentAnalyzer)", "vfst", "null", "hfst", "nosuch"};
	static const char * HYP[] = {"", "AnalyzerToFinnishHyphenatorAdapter(currentAnalyzer)", "nosuch"};
	static const char * GRA[] = {"", "finnishVfst", "finnish", "null", "nosuch"};
	S mor = MOR[c.weighted({6, 3, 5, 3, 1, 1, 1})], spl = SPL[c.weighted({5, 3, 8, 2, 2, 1, 1, 1})], sug = SUG[c.weighted({5, 2, 8, 2, 1, 1})], hyp = HYP[c.weighted({8, 4, 1})], gra = GRA[c.weighted({6, 4, 3, 3, 1})];
	bool useMor = mor == "" || mor == "finnishVfst" || mor == "vfst", useSpl = spl == "vfst", useErr = sug == "vfst", useAuto = gra == "" || gra == "finnishVfst";
	bool morW = mor == "vfst";
	bool ok = (useMor || mor == "null") && spl != "nosuch" && spl != "AnalyzerToSpellerAdapter()" && sug != "nosuch" && sug != "hfst" && !(useErr && !useSpl) && hyp != "nosuch" && gra != "nosuch";
	Scratch sc;
	S d = sc.dir("5/mor-x");
	S idx = "Voikko-Dictionary-Format: 5\nLanguage: fi\n";
	if (!mor.empty()) idx += "Morphology-Backend: " + mor + "\n";
	if (!spl.empty()) idx += "Speller-Backend: " + spl + "\n";
	if (!sug.empty()) idx += "Suggestion-Backend: " + sug + "\n";
	if (!hyp.empty()) idx += "Hyphenator-Backend: " + hyp + "\n";
	if (!gra.empty()) idx += "Grammar-Backend: " + gra + "\n";
	sc.file(d + "/index.txt", idx);
	S log = idx;
	auto fault = [&]() { return c.chance(1, 5) ? (Fault) c.range(MISSING, FAULTS - 1) : c.chance(1, 4) ? GOOD_SWAPPED : GOOD; };
	int faults = 0;
	auto place = [&](const S & name, bool weighted, bool used) {
		Fault f = fault();
		log += put(c, sc, d, name, weighted, f) + (used ? "" : " (not used)") + "\n";
		if (used && f > GOOD_SWAPPED) { ok = false; faults++; c.label(FAULT[f]); }
	};
	place("mor.vfst", morW, useMor);
	place("spl.vfst", true, useSpl);
	place("err.vfst", true, useErr && useSpl);
	place("autocorr.vfst", false, useAuto);
	c.note(log);
	auto session = [&]() {
		const char * err = (const char *) 1;
		VoikkoHandle * h = voikkoInit(&err, "fi", sc.path.c_str());
		if (!h) {
			if (!err || err == (const char *) 1 || !*err) c.fail("failure without an error message");
			if (ok) c.fail(S("a usable dictionary is refused: ") + err);
			return;
		}
		if (err) c.fail("an opened dictionary reports an error");
		if (!ok) { voikkoTerminate(h); c.fail("a dictionary that cannot be used is opened"); }
		// the analyses of the plain vfst backend have no word structure, which the Finnish components need
		bool plainVfst = mor == "vfst";
		bool spell = !plainVfst || useSpl || spl == "AllOk" || spl == "AllError", suggest = spell && (!plainVfst || sug == "vfst" || sug == "null");
		for (const wchar_t * w : {L"a", L"ab", L"äb", L"-b", L"Ab", L"x"}) {
			if (spell && voikkoSpellUcs4(h, w) == VOIKKO_INTERNAL_ERROR) c.fail("internal error");
			if (suggest) if (wchar_t ** s = voikkoSuggestUcs4(h, w)) voikko_free_suggest_ucs4(s);
			if (!plainVfst) if (char * s = voikkoHyphenateUcs4(h, w)) voikkoFreeCstr(s);
		}
		if (!plainVfst || gra == "null") if (VoikkoGrammarError * e = voikkoNextGrammarErrorUcs4(h, L"ab  äb ab .", 11, 0, 0)) voikkoFreeGrammarError(e);
		voikkoSetBooleanOption(h, VOIKKO_OPT_OCR_SUGGESTIONS, 1);
		if (spell && !plainVfst) if (wchar_t ** s = voikkoSuggestUcs4(h, L"abx")) voikko_free_suggest_ucs4(s);
		if (c.coin()) voikkoSetBooleanOption(h, VOIKKO_OPT_OCR_SUGGESTIONS, 0);
		voikkoTerminate(h);
	};
	session();
	size_t files = openFiles();
	size_t before = __sanitizer_get_current_allocated_bytes();
	session();
	size_t after = __sanitizer_get_current_allocated_bytes();
	c.eval();
	if (!ok) { c.nontrivial(log); if (c.wantSample()) c.sample(log); }
	c.label(ok ? "usable" : faults ? "faulty file" : "unknown or unsuitable backend");
	S what = ok ? "after closing the dictionary" : "after the dictionary was refused";
	if (after != before) c.fail(what + " " + std::to_string((long) after - (long) before) + " bytes remain allocated");
	if (openFiles() != files) c.fail(what + " files remain open");
	if (mapped(sc.path)) c.fail(what + " files remain mapped to memory");
	if (ok && useErr) {
		// files that disappear while the dictionary is in use
		const char * err = 0;
		VoikkoHandle * h = voikkoInit(&err, "fi", sc.path.c_str());
		unlink((d + "/err.vfst").c_str());
		voikkoSetBooleanOption(h, VOIKKO_OPT_OCR_SUGGESTIONS, 1);
		if (wchar_t ** s = voikkoSuggestUcs4(h, L"abx")) voikko_free_suggest_ucs4(s);
		voikkoTerminate(h);
		if (mapped(sc.path)) c.fail("files remain mapped to memory after the dictionary is closed");
	}
}

// zip archive whose members are not compressed
static S zip(const std::vector<std::pair<S, S>> & members) {
	auto n = [](unsigned long v, int bytes) { S r; for (int i = 0; i < bytes; i++) r += (char) (v >> 8 * i); return r; };
	S out, dir;
	for (auto & m : members) {
		unsigned crc = ~0u;
		for (unsigned char b : m.second) { crc ^= b; for (int k = 0; k < 8; k++) crc = (crc >> 1) ^ (crc & 1 ? 0xEDB88320u : 0); }
		S common = n(10, 2) + n(0, 2) + n(0, 2) + n(0, 4) + n(~crc, 4) + n(m.second.size(), 4) + n(m.second.size(), 4) + n(m.first.size(), 2) + n(0, 2);
		dir += S("PK\1\2") + n(20, 2) + common + n(0, 2) + n(0, 2) + n(0, 2) + n(0, 4) + n(out.size(), 4) + m.first;
		out += S("PK\3\4") + common + m.first + m.second;
	}
	return out + dir + S("PK\5\6") + n(0, 4) + n(members.size(), 2) + n(members.size(), 2) + n(dir.size(), 4) + n(out.size(), 4) + n(0, 2);
}

// broken dictionaries of the other format do not get in the way of usable ones
PBT_PROP(beside_broken, 1) {
	Scratch sc;
	S d = sc.dir("5/mor-x"), z = sc.dir("3"), log;
	sc.file(d + "/index.txt", "Voikko-Dictionary-Format: 5\nLanguage: fi\nGrammar-Backend: null\n");
	sc.file(d + "/mor.vfst", good(c, false, false));
	for (size_t i = 0, n = 1 + c.below(3); i < n; i++) {
		S name = c.pick(std::vector<S>{"se", "fi", "a", "x-y"}) + std::to_string(i) + c.pick(std::vector<S>{".zhfst", ".zhfst", "", ".zip"}), data;
		switch (c.below(6)) {
			case 0: log += name + ": empty\n"; break;
			case 1: for (size_t k = 0, m = 1 + c.below(100); k < m; k++) data += (char) c.below(256); log += name + ": random bytes\n"; break;
			case 2: data = zip({}); log += name + ": empty archive\n"; break;
			case 3: data = zip({{c.pick(std::vector<S>{"acceptor.default.hfst", "acceptor.x.hfst", "errmodel.default.hfst"}), ""}}); log += name + ": empty transducer\n"; break;
			case 4: data = zip({{c.pick(std::vector<S>{"readme.txt", "Index.xml"}), "text"}}); log += name + ": archive of something else\n"; break;
			case 5: { S full = zip({{"acceptor.default.hfst", S(50, 'x')}}); data = full.substr(0, c.below(30)); log += name + ": incomplete archive\n"; break; }
		}
		sc.file(z + "/" + name, data);
	}
	c.note(log);
	c.eval();
	c.nontrivial(log);
	const char * err = 0;
	for (S lang : {"fi", "se"}) {
		VoikkoHandle * h = voikkoInit(&err, lang.c_str(), sc.path.c_str());
		if (h) voikkoTerminate(h);
		if ((lang == "fi") != (h != 0)) c.fail(lang + (h ? " was opened" : S(" was refused: ") + err));
	}
	int n = 0;
	if (voikko_dict ** l = voikko_list_dicts(sc.path.c_str())) {
		while (l[n]) n++;
		voikko_free_dicts(l);
	}
	if (n != 1) c.fail(std::to_string(n) + " dictionaries are listed");
}
PBT_MAIN
