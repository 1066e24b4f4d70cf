// C++ wrappers around the public C API.  Results are copied and freed at once.
#pragma once
#include <map>
#include <string>
#include <vector>
#include <memory>
#include <cstdlib>
#include <voikko.h>
#include "uni.hpp"

namespace vk {
using uni::W;

inline std::string dictPath() { const char * p = getenv("VERIF_DICT"); return p ? p : "/verif/build/dicts/standard"; }
inline std::string dictRoot() { const char * p = getenv("VERIF_DICTS"); return p ? p : "/verif/build/dicts"; }
inline std::string dataDir() { const char * p = getenv("VERIF_DATA"); return p ? p : "/verif/data"; }

typedef std::vector<std::map<std::string, W>> Analyses;

struct GErr {
	int code; size_t start, len;
	std::vector<std::string> sugg;
	bool operator==(const GErr & o) const { return code == o.code && start == o.start && len == o.len && sugg == o.sugg; }
	bool operator!=(const GErr & o) const { return !(*this == o); }
	std::string str() const {
		std::string s = "[code=" + std::to_string(code) + " start=" + std::to_string(start) + " len=" + std::to_string(len) + " sugg={";
		for (size_t i = 0; i < sugg.size(); i++) s += (i ? "|" : "") + uni::showBytes(sugg[i]);
		return s + "}]";
	}
};

struct Tok {
	int type; W text;
	bool operator==(const Tok & o) const { return type == o.type && text == o.text; }
};

class Handle {
public:
	explicit Handle(const std::string & path = dictPath(), const char * lang = "fi") {
		const char * err = 0;
		h = voikkoInit(&err, lang, path.c_str());
		if (!h) error = err ? err : "?";
	}
	~Handle() { if (h) voikkoTerminate(h); }
	Handle(const Handle &) = delete;
	VoikkoHandle * h;
	std::string error;

	int opt(int o, int v) { return voikkoSetBooleanOption(h, o, v); }
	int iopt(int o, int v) { return voikkoSetIntegerOption(h, o, v); }

	int spell(const W & w) { return voikkoSpellUcs4(h, w.c_str()); }
	int spellU(const std::string & w) { return voikkoSpellCstr(h, w.c_str()); }
	// null result is reported through isNull
	std::vector<W> suggest(const W & w, bool * isNull = 0) {
		wchar_t ** s = voikkoSuggestUcs4(h, w.c_str());
		if (isNull) *isNull = !s;
		std::vector<W> r;
		if (s) { for (wchar_t ** p = s; *p; p++) r.push_back(*p); voikko_free_suggest_ucs4(s); }
		return r;
	}
	static std::vector<std::string> take(char ** s, bool * isNull = 0) {
		if (isNull) *isNull = !s;
		std::vector<std::string> r;
		if (s) { for (char ** p = s; *p; p++) r.push_back(*p); voikkoFreeCstrArray(s); }
		return r;
	}
	std::vector<std::string> suggestU(const std::string & w, bool * isNull = 0) { return take(voikkoSuggestCstr(h, w.c_str()), isNull); }
	static std::string take1(char * s, bool * isNull) {
		if (isNull) *isNull = !s;
		std::string r;
		if (s) { r = s; voikkoFreeCstr(s); }
		return r;
	}
	std::string hyph(const W & w, bool * isNull = 0) { return take1(voikkoHyphenateUcs4(h, w.c_str()), isNull); }
	std::string hyphU(const std::string & w, bool * isNull = 0) { return take1(voikkoHyphenateCstr(h, w.c_str()), isNull); }
	std::string insertHyphens(const std::string & w, const std::string & hy, bool ctx, bool * isNull = 0) {
		return take1(voikkoInsertHyphensCstr(h, w.c_str(), hy.c_str(), ctx ? 1 : 0), isNull);
	}
	static Analyses takeA(voikko_mor_analysis ** a, bool * isNull) {
		if (isNull) *isNull = !a;
		Analyses r;
		if (a) {
			for (voikko_mor_analysis ** p = a; *p; p++) {
				std::map<std::string, W> m;
				for (const char ** k = voikko_mor_analysis_keys(*p); *k; k++) m[*k] = voikko_mor_analysis_value_ucs4(*p, *k);
				r.push_back(m);
			}
			voikko_free_mor_analysis(a);
		}
		return r;
	}
	Analyses analyze(const W & w, bool * isNull = 0) { return takeA(voikkoAnalyzeWordUcs4(h, w.c_str()), isNull); }
	Analyses analyzeU(const std::string & w, bool * isNull = 0) { return takeA(voikkoAnalyzeWordCstr(h, w.c_str()), isNull); }

	std::vector<Tok> tokens(const W & t) {
		std::vector<Tok> r;
		size_t pos = 0;
		while (true) {
			size_t len = 0;
			int ty = voikkoNextTokenUcs4(h, t.c_str() + pos, t.size() - pos, &len);
			if (ty == TOKEN_NONE) break;
			if (len == 0 || len > t.size() - pos) { r.push_back(Tok{-1, L""}); break; }
			r.push_back(Tok{ty, t.substr(pos, len)});
			pos += len;
		}
		return r;
	}
	static bool takeG(VoikkoGrammarError * e, GErr & g) {
		if (!e) return false;
		g.code = voikkoGetGrammarErrorCode(e);
		g.start = voikkoGetGrammarErrorStartPos(e);
		g.len = voikkoGetGrammarErrorLength(e);
		g.sugg.clear();
		const char ** s = voikkoGetGrammarErrorSuggestions(e);
		if (s) for (; *s; s++) g.sugg.push_back(*s);
		voikkoFreeGrammarError(e);
		return true;
	}
	bool grammar(const W & t, size_t start, int skip, GErr & g) { return takeG(voikkoNextGrammarErrorUcs4(h, t.c_str(), t.size(), start, skip), g); }
	bool grammarU(const std::string & t, size_t start, int skip, GErr & g) { return takeG(voikkoNextGrammarErrorCstr(h, t.c_str(), t.size(), start, skip), g); }
	std::vector<GErr> allGrammar(const W & t, int max = 1000) {
		std::vector<GErr> r; GErr g;
		for (int i = 0; i < max && grammar(t, 0, i, g); i++) r.push_back(g);
		return r;
	}
	std::vector<GErr> allGrammarU(const std::string & t, int max = 1000) {
		std::vector<GErr> r; GErr g;
		for (int i = 0; i < max && grammarU(t, 0, i, g); i++) r.push_back(g);
		return r;
	}
};

inline std::string showA(const Analyses & a) {
	std::string s;
	for (auto & m : a) { s += "{"; for (auto & kv : m) s += kv.first + "=" + uni::enc(kv.second) + " "; s += "}\n"; }
	return s;
}

} // namespace vk
