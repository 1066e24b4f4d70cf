// A stand-in for libvoikko.so.1 in the checks of the language bindings: forwards every call to the real library and keeps
// account of what the caller owns.  It records the first breach of the rules of the interface: a result released twice or
// with the wrong function, a handle used after it was closed or by two threads at the same time.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <sched.h>
#include <time.h>
#include <unistd.h>

namespace {
std::mutex lock;
std::map<void *, std::string> owned;      // results the caller has to release
std::map<void *, int> handles;            // open handles and the number of calls in progress on each
std::string problem;
long slow = 0;

void breach(const std::string & s) { if (problem.empty()) problem = s; }

void * real(const char * name) {
	static void * lib = [] {
		const char * f = getenv("VERIF_REAL_LIB");
		void * l = f ? dlopen(f, RTLD_NOW | RTLD_LOCAL | RTLD_DEEPBIND) : 0;
		if (!l) { fprintf(stderr, "shim: cannot load %s\n", f ? f : "(VERIF_REAL_LIB)"); _exit(98); }
		return l;
	}();
	void * p = dlsym(lib, name);
	if (!p) { fprintf(stderr, "shim: no %s\n", name); _exit(98); }
	return p;
}

// keeps a handle marked as used for the duration of a call
struct Use {
	void * h;
	bool ok;
	Use(void * h, const char * fn) : h(h), ok(true) {
		{
			std::lock_guard<std::mutex> g(lock);
			auto i = handles.find(h);
			if (i == handles.end()) { breach(std::string(fn) + " called with a handle that is not open"); ok = false; return; }
			if (i->second++) breach(std::string(fn) + " called while another thread uses the same handle");
		}
		if (slow) { timespec t = {0, slow}; nanosleep(&t, 0); }
	}
	~Use() { if (ok) { std::lock_guard<std::mutex> g(lock); auto i = handles.find(h); if (i != handles.end()) i->second--; } }
};
template<class T> T own(T p, const char * kind) {
	if (p) { std::lock_guard<std::mutex> g(lock); owned[(void *) p] = kind; }
	return p;
}
bool disown(void * p, const char * kind, const char * fn) {
	if (!p) return true;
	std::lock_guard<std::mutex> g(lock);
	auto i = owned.find(p);
	if (i == owned.end()) { breach(std::string(fn) + " called with something that is not a result to be released"); return false; }
	if (i->second != kind) { breach(std::string(fn) + " called for a result of kind " + i->second); return false; }
	owned.erase(i);
	return true;
}
}

#define EXPORT extern "C" __attribute__((visibility("default")))
template<class T> struct Id { typedef T type; };
// the first argument is a function pointer type; it may contain commas only inside parentheses
#define REAL(T, name) static const Id<T>::type f = (Id<T>::type) real(#name)
#define GUARD(name, none) Use use(h, #name); if (!use.ok) return none
typedef size_t Z;

// results still owned by the caller (not counting handles), open handles, first breach, delay in calls
EXPORT int shimOwned() { std::lock_guard<std::mutex> g(lock); return (int) owned.size(); }
EXPORT int shimHandles() { std::lock_guard<std::mutex> g(lock); return (int) handles.size(); }
EXPORT const char * shimKinds() { static std::string s; std::lock_guard<std::mutex> g(lock); s.clear(); for (auto & o : owned) s += o.second + " "; return s.c_str(); }
EXPORT const char * shimProblem() { std::lock_guard<std::mutex> g(lock); return problem.c_str(); }
EXPORT void shimSlow(int ns) { slow = ns; }
EXPORT void shimReset() { std::lock_guard<std::mutex> g(lock); owned.clear(); problem.clear(); }

EXPORT void * voikkoInit(const char ** e, const char * l, const char * p) {
	REAL(void * (*)(const char **, const char *, const char *), voikkoInit);
	void * h = f(e, l, p);
	if (h) { std::lock_guard<std::mutex> g(lock); handles[h] = 0; }
	return h;
}
EXPORT void voikkoTerminate(void * h) {
	REAL(void (*)(void *), voikkoTerminate);
	{
		std::lock_guard<std::mutex> g(lock);
		auto i = handles.find(h);
		if (i == handles.end()) { breach("voikkoTerminate called with a handle that is not open"); return; }
		if (i->second) breach("voikkoTerminate called while another thread uses the same handle");
		handles.erase(i);
	}
	f(h);
}
#define H1(ret, name, none, A) EXPORT ret name(void * h, A a) { REAL(ret (*)(void *, A), name); GUARD(name, none); return f(h, a); }
#define H2(ret, name, none, A, B) EXPORT ret name(void * h, A a, B b) { REAL(ret (*)(void *, A, B), name); GUARD(name, none); return f(h, a, b); }
#define H3(ret, name, none, A, B, C) EXPORT ret name(void * h, A a, B b, C c) { REAL(ret (*)(void *, A, B, C), name); GUARD(name, none); return f(h, a, b, c); }
#define O1(ret, name, A, kind) EXPORT ret name(void * h, A a) { REAL(ret (*)(void *, A), name); GUARD(name, 0); return own(f(h, a), kind); }
#define FREE(name, T, kind) EXPORT void name(T p) { REAL(void (*)(T), name); if (disown((void *) p, kind, #name)) f(p); }
#define PURE1(ret, name, A) EXPORT ret name(A a) { REAL(ret (*)(A), name); return f(a); }
#define PURE2(ret, name, A, B) EXPORT ret name(A a, B b) { REAL(ret (*)(A, B), name); return f(a, b); }

H2(int, voikkoSetBooleanOption, 0, int, int)
H2(int, voikkoSetIntegerOption, 0, int, int)
H1(int, voikkoSpellCstr, 2, const char *)
H1(int, voikkoSpellUcs4, 2, const wchar_t *)
O1(char **, voikkoSuggestCstr, const char *, "array")
O1(wchar_t **, voikkoSuggestUcs4, const wchar_t *, "warray")
O1(char *, voikkoHyphenateCstr, const char *, "string")
O1(char *, voikkoHyphenateUcs4, const wchar_t *, "string")
EXPORT char * voikkoInsertHyphensCstr(void * h, const char * a, const char * b, int c) {
	REAL(char * (*)(void *, const char *, const char *, int), voikkoInsertHyphensCstr);
	GUARD(voikkoInsertHyphensCstr, 0);
	return own(f(h, a, b, c), "string");
}
FREE(voikko_free_suggest_ucs4, wchar_t **, "warray")
FREE(voikkoFreeCstrArray, char **, "array")
FREE(voikkoFreeCstr, char *, "string")
H3(int, voikkoNextTokenUcs4, 0, const wchar_t *, Z, Z *)
H3(int, voikkoNextTokenCstr, 0, const char *, Z, Z *)
H3(int, voikkoNextSentenceStartUcs4, 0, const wchar_t *, Z, Z *)
H3(int, voikkoNextSentenceStartCstr, 0, const char *, Z, Z *)
EXPORT void * voikkoNextGrammarErrorUcs4(void * h, const wchar_t * t, Z n, Z s, int k) {
	REAL(void * (*)(void *, const wchar_t *, Z, Z, int), voikkoNextGrammarErrorUcs4);
	GUARD(voikkoNextGrammarErrorUcs4, 0);
	return own(f(h, t, n, s, k), "error");
}
EXPORT void * voikkoNextGrammarErrorCstr(void * h, const char * t, Z n, Z s, int k) {
	REAL(void * (*)(void *, const char *, Z, Z, int), voikkoNextGrammarErrorCstr);
	GUARD(voikkoNextGrammarErrorCstr, 0);
	return own(f(h, t, n, s, k), "error");
}
#define ERR(ret, name, none) EXPORT ret name(void * e) { REAL(ret (*)(void *), name); { std::lock_guard<std::mutex> g(lock); if (!owned.count(e)) { breach(#name " called for a released error"); return none; } } return f(e); }
ERR(int, voikkoGetGrammarErrorCode, 0)
ERR(Z, voikkoGetGrammarErrorStartPos, 0)
ERR(Z, voikkoGetGrammarErrorLength, 0)
ERR(const char **, voikkoGetGrammarErrorSuggestions, 0)
FREE(voikkoFreeGrammarError, void *, "error")
EXPORT char * voikkoGetGrammarErrorShortDescription(void * e, const char * l) {
	REAL(char * (*)(void *, const char *), voikkoGetGrammarErrorShortDescription);
	return own(f(e, l), "message");
}
FREE(voikkoFreeErrorMessageCstr, char *, "message")
EXPORT void ** voikko_list_dicts(const char * p) { REAL(void ** (*)(const char *), voikko_list_dicts); return own(f(p), "dicts"); }
FREE(voikko_free_dicts, void **, "dicts")
PURE1(const char *, voikko_dict_language, void *)
PURE1(const char *, voikko_dict_script, void *)
PURE1(const char *, voikko_dict_variant, void *)
PURE1(const char *, voikko_dict_description, void *)
EXPORT char ** voikkoListSupportedSpellingLanguages(const char * p) { REAL(char ** (*)(const char *), voikkoListSupportedSpellingLanguages); return own(f(p), "array"); }
EXPORT char ** voikkoListSupportedHyphenationLanguages(const char * p) { REAL(char ** (*)(const char *), voikkoListSupportedHyphenationLanguages); return own(f(p), "array"); }
EXPORT char ** voikkoListSupportedGrammarCheckingLanguages(const char * p) { REAL(char ** (*)(const char *), voikkoListSupportedGrammarCheckingLanguages); return own(f(p), "array"); }
EXPORT const char * voikkoGetVersion() { REAL(const char * (*)(), voikkoGetVersion); return f(); }
O1(void **, voikkoAnalyzeWordUcs4, const wchar_t *, "analysis")
O1(void **, voikkoAnalyzeWordCstr, const char *, "analysis")
FREE(voikko_free_mor_analysis, void **, "analysis")
PURE1(const char **, voikko_mor_analysis_keys, void *)
PURE2(const wchar_t *, voikko_mor_analysis_value_ucs4, void *, const char *)
EXPORT char * voikko_mor_analysis_value_cstr(void * a, const char * k) { REAL(char * (*)(void *, const char *), voikko_mor_analysis_value_cstr); return own(f(a, k), "value"); }
FREE(voikko_free_mor_analysis_value_cstr, char *, "value")
O1(char **, voikkoGetAttributeValues, const char *, "array")
