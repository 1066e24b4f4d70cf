// C14: dictionaries are found, listed and selected by the documented rules
#include "att.hpp"
#include <dirent.h>
#include <pwd.h>
using namespace att;
typedef std::string S;

// ---- reference model -------------------------------------------------------

struct Tag {
	S lang, script, priv;
	S str() const { return lang + (script.empty() ? "" : "-" + script) + (priv.empty() ? "" : "-x-" + priv); }
};
static S lowerA(S s) { for (auto & c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static S variantName(const S & s) { S r; for (char c : lowerA(s)) if (c != '-') r += c; return r; }
static Tag parseTag(const S & s, Tag t = Tag()) {
	size_t x = s.find("-x-");
	S main = s.substr(0, x);
	if (x != S::npos) t.priv = variantName(s.substr(x + 3));
	size_t d = main.find('-');
	S l = main.substr(0, d);
	if (d != S::npos && main.size() - d - 1 == 4) t.script = main.substr(d + 1);
	t.lang = lowerA(l.substr(0, l.find('_')));
	return t;
}

struct Dict { Tag tag; S desc, dir; };

static std::vector<S> lines(const S & file, bool & ok) {
	std::ifstream f(file);
	std::vector<S> r;
	struct stat st;
	ok = stat(file.c_str(), &st) == 0 && S_ISREG(st.st_mode) && f.good();
	S l;
	while (ok && std::getline(f, l)) r.push_back(l);
	return r;
}

// all dictionaries of a location; within one location no two have the same tag
static void location(const S & path, std::map<S, Dict> & found) {
	DIR * d = opendir((path + "/5").c_str());
	if (!d) return;
	while (dirent * e = readdir(d)) {
		S n = e->d_name;
		if (n.compare(0, 4, "mor-") != 0 || n.size() == 4) continue;
		bool ok;
		auto ls = lines(path + "/5/" + n + "/index.txt", ok);
		if (!ok || ls.empty() || ls[0] != "Voikko-Dictionary-Format: 5") continue;
		Dict x;
		x.tag.lang = "fi";
		x.dir = path + "/5/" + n;
		for (size_t i = 1; i < ls.size(); i++) {
			if (ls[i].compare(0, 10, "Language: ") == 0) x.tag = parseTag(ls[i].substr(10));
			if (ls[i].compare(0, 13, "Description: ") == 0) x.desc = ls[i].substr(13);
		}
		if (x.tag.lang.empty()) continue;
		found.insert({x.tag.str(), x});
	}
	closedir(d);
}

// preferred ones first (in reverse order of their tags), then the others by tag
static std::vector<Dict> available(const std::vector<S> & locations) {
	std::map<S, Dict> found;
	for (auto & l : locations) location(l, found);
	std::set<S> haveDefault;
	for (auto & f : found) if (f.second.tag.priv == "default") haveDefault.insert(f.second.tag.lang);
	std::vector<Dict> first, rest;
	for (auto & f : found) {
		const Tag & t = f.second.tag;
		if (t.priv == "default" || (t.priv == "standard" && !haveDefault.count(t.lang))) first.insert(first.begin(), f.second);
		else rest.push_back(f.second);
	}
	first.insert(first.end(), rest.begin(), rest.end());
	return first;
}

static const Dict * select(const std::vector<Dict> & ds, const S & request, const char * envVariant) {
	Tag r = parseTag(request);
	if ((r.priv.empty() || r.priv == "default") && envVariant) r.priv = variantName(envVariant);
	for (auto & d : ds) {
		if (d.tag.lang != r.lang || d.tag.script != r.script) continue;
		if (r.priv.empty() || r.priv == d.tag.priv || (r.priv == "standard" && d.tag.priv.empty())) return &d;
	}
	return 0;
}

// ---- generation --------------------------------------------------------------

static const int IDS = 16;
// transducers that analyse the word "a" as [k]
static S idFile(pbt::Ctx & c, int k) {
	const char * b = getenv("VERIF_BUILD_DIR");
	S dir = S(b ? b : "/verif/build") + "/scratch/ids-" + std::to_string(getpid());
	S f = dir + "/" + std::to_string(k) + ".vfst";
	struct stat st;
	if (stat(f.c_str(), &st) == 0 && st.st_size > 0) return f;
	mkdir(dir.c_str(), 0777);
	Scratch sc;
	if (compile(sc, "0\t1\ta\t[" + std::to_string(k) + "]\t1\n1\t1\n", f, true, false) != 0) c.discard();
	return f;
}

static S language(pbt::Ctx & c) {
	static const char * L[] = {"fi", "fi", "fi", "FI", "fi_FI", "fi-FI", "sv", "se", "en_US", "e", "fi_FI_euro", "fi-fonipa", "fi-419", "fi-Latnx"};
	return L[c.below(14)];
}
static S variant(pbt::Ctx & c) {
	static const char * V[] = {"standard", "default", "Standard", "DEFAULT", "laaja", "a", "zzz", "tekni", "x", "foo-bar", "foobar", "morpho", "mor-ph-o", "tieteelli-nen", "standards", "nostandard", "x-standard", "mystandard", "sukija"};
	return V[c.weighted({6, 5, 1, 1, 4, 2, 3, 3, 1, 2, 2, 2, 1, 1, 2, 2, 1, 1, 2})];
}
static S tagText(pbt::Ctx & c, bool request) {
	if (c.chance(1, 8)) {
		// a language with scripts
		S s = c.pick({S("sr-Latn"), S("sr-Cyrl"), S("sr")});
		return c.chance(1, 2) ? s : s + "-x-" + c.pick({S("standard"), S("a"), S("zz")});
	}
	S l = request && c.chance(1, 2) ? S("fi") : language(c);
	if (!request && c.chance(1, 40)) l = "";
	return c.chance(1, 4) ? l : l + "-x-" + variant(c);
}

PBT_PROP(selection, 10) {
	Scratch sc;
	int n = c.range(1, 4);
	std::vector<S> locs;
	std::map<S, int> ids; // directory -> analysis
	int total = 0;
	S log;
	for (int i = 0; i < n; i++) {
		S loc = sc.path + "/loc" + std::to_string(i);
		locs.push_back(loc);
		if (c.chance(1, 12)) { log += "location " + std::to_string(i) + " does not exist\n"; continue; }
		sc.dir("loc" + std::to_string(i));
		std::set<S> used;
		int k = (int) c.below(5);
		for (int j = 0; j < k && total < IDS; j++) {
			S version = c.chance(1, 16) ? c.pick({S("2"), S("4"), S("6"), S("55")}) : S("5");
			S dn = c.chance(1, 16) ? c.pick({S("mor-"), S("foo"), S("amor-x"), S("morx"), S("mor-default")}) : "mor-" + std::to_string(j) + c.pick({S("standard"), S("default"), S("x")});
			S t = tagText(c, false);
			bool noLanguage = c.chance(1, 14);
			Tag tag = noLanguage ? parseTag("fi") : parseTag(t);
			if (version == "5" && !used.insert(tag.str()).second) continue;
			S d = sc.dir("loc" + std::to_string(i) + "/" + version + "/" + dn);
			S head = c.chance(1, 14) ? c.pick({S("Voikko-Dictionary-Format: 4"), S("Voikko-Dictionary-Format: 55"), S("voikko-dictionary-format: 5"), S(""), S(" Voikko-Dictionary-Format: 5")}) : S("Voikko-Dictionary-Format: 5");
			std::vector<S> body;
			if (!noLanguage) body.push_back("Language: " + t);
			S desc = c.chance(1, 5) ? "" : "kuvaus " + std::to_string(total) + c.pick({S(""), S(" ä"), S(": x")});
			if (!desc.empty()) body.push_back("Description: " + desc);
			body.push_back("Morphology-Backend: vfst");
			if (c.chance(1, 4)) body.push_back(c.pick({S("Unknown-Key: x"), S(""), S("# comment"), S("language: se"), S("Xdescription: y"), S("Languages: se"), S("Copyright: Language: se")}));
			body.push_back("Speller-Backend: AllOk");
			body.push_back("Suggestion-Backend: null");
			body.push_back("Grammar-Backend: null");
			for (size_t q = body.size(); q > 1; q--) std::swap(body[q - 1], body[c.below(q)]);
			S text = head + "\n";
			for (size_t q = 0; q < body.size(); q++) text += body[q] + (q + 1 == body.size() && c.coin() ? "" : "\n");
			if (c.chance(1, 20)) log += "loc" + std::to_string(i) + "/" + version + "/" + dn + " without index file\n";
			else { sc.file(d + "/index.txt", text); log += "loc" + std::to_string(i) + "/" + version + "/" + dn + "/index.txt:\n" + text + "\n"; }
			if (symlink(idFile(c, total).c_str(), (d + "/mor.vfst").c_str()) != 0) continue;
			ids[d] = total++;
		}
		if (c.chance(1, 16)) sc.file(sc.dir("loc" + std::to_string(i) + "/5") + "/mor-file", "Voikko-Dictionary-Format: 5\nLanguage: fi-x-file\n");
	}
	// which locations are given how
	size_t given = c.below(3); // no path, empty path, first location
	std::vector<S> order;
	S envPath;
	bool useEnv = false;
	size_t from = given == 2 ? 1 : 0;
	if (given == 2) order.push_back(locs[0]);
	if (from < locs.size() || c.coin()) {
		useEnv = true;
		for (size_t i = from; i < locs.size(); i++) { envPath += (i > from ? ":" : "") + locs[i] + (c.chance(1, 10) ? "/" : ""); order.push_back(locs[i]); }
		if (from == locs.size()) useEnv = c.coin(); // empty value
	}
	S path = given == 2 ? locs[0] : S();
	const char * pathArg = given == 0 ? 0 : path.c_str();
	if (passwd * pw = getpwuid(getuid())) order.push_back(S(pw->pw_dir) + "/.voikko");
	order.push_back("/etc/voikko");
	S envVariant;
	bool useVariant = c.chance(1, 4);
	if (useVariant) envVariant = variant(c);
	if (useEnv) setenv("VOIKKO_DICTIONARY_PATH", envPath.c_str(), 1); else unsetenv("VOIKKO_DICTIONARY_PATH");
	if (useVariant) setenv("VOIKKO_DICTIONARY", envVariant.c_str(), 1); else unsetenv("VOIKKO_DICTIONARY");
	log += S("path argument: ") + (pathArg ? path : "none") + "\nVOIKKO_DICTIONARY_PATH: " + (useEnv ? envPath : "unset") + "\nVOIKKO_DICTIONARY: " + (useVariant ? envVariant : "unset") + "\n";
	c.note(log);

	auto exp = available(order);
	// listing
	{
		std::vector<S> e, g;
		for (auto & d : exp) e.push_back(d.tag.lang + " / " + d.tag.script + " / " + (d.tag.priv.empty() ? "standard" : d.tag.priv) + " / " + d.desc);
		voikko_dict ** ds = voikko_list_dicts(pathArg);
		for (voikko_dict ** p = ds; *p; p++) g.push_back(S(voikko_dict_language(*p)) + " / " + voikko_dict_script(*p) + " / " + voikko_dict_variant(*p) + " / " + voikko_dict_description(*p));
		voikko_free_dicts(ds);
		c.eval();
		if (e != g) {
			S m = "dictionaries found differ; expected\n";
			for (auto & x : e) m += "  " + x + "\n";
			m += "got\n";
			for (auto & x : g) m += "  " + x + "\n";
			c.fail(m);
		}
		std::set<S> langs;
		for (auto & d : exp) langs.insert(d.tag.lang + (d.tag.script.empty() ? "" : "-" + d.tag.script));
		std::vector<S> el(langs.begin(), langs.end());
		if (vk::Handle::take(voikkoListSupportedSpellingLanguages(pathArg)) != el) c.fail("languages with spelling differ");
		if (vk::Handle::take(voikkoListSupportedHyphenationLanguages(pathArg)) != el) c.fail("languages with hyphenation differ");
		if (vk::Handle::take(voikkoListSupportedGrammarCheckingLanguages(pathArg)) != el) c.fail("languages with grammar checking differ");
	}
	if (exp.size() >= 2) c.nontrivial(log);
	c.label(exp.empty() ? "no dictionary" : exp.size() == 1 ? "one dictionary" : "several dictionaries");
	// selection
	int q = c.range(2, 6);
	for (int i = 0; i < q; i++) {
		S req = tagText(c, true);
		if (c.chance(1, 3) && !exp.empty()) req = c.pick(exp).tag.str();
		bool old = c.chance(1, 5);
		S oldName;
		if (old) {
			oldName = c.pick({S(""), S("default"), S("fi_FI"), variant(c)});
			req = oldName.empty() || oldName == "default" || oldName == "fi_FI" ? S("fi") : "fi-x-" + oldName;
		}
		const Dict * want = select(exp, req, useVariant ? envVariant.c_str() : 0);
		const char * err = 0;
		VoikkoHandle * h = 0;
		int handle = 0;
		S got;
		if (old) {
			err = voikko_init_with_path(&handle, oldName.c_str(), 0, pathArg);
			if (!err) {
				voikko_mor_analysis ** a = voikko_analyze_word_ucs4(handle, L"a");
				if (a && a[0]) got = uni::enc(voikko_mor_analysis_value_ucs4(a[0], "FSTOUTPUT"));
				if (a) voikko_free_mor_analysis(a);
				voikko_terminate(handle);
			}
		}
		else {
			h = voikkoInit(&err, req.c_str(), pathArg);
			if (h && err) c.fail("an opened dictionary reports the error " + S(err));
			if (!h && (!err || !*err)) c.fail("failure without an error message");
			if (h) {
				voikko_mor_analysis ** a = voikkoAnalyzeWordUcs4(h, L"a");
				if (a && a[0]) got = uni::enc(voikko_mor_analysis_value_ucs4(a[0], "FSTOUTPUT"));
				if (a) voikko_free_mor_analysis(a);
				voikkoTerminate(h);
			}
		}
		c.eval();
		S name = old ? "variant name " + uni::showBytes(oldName) : "language tag " + uni::showBytes(req);
		if (!want) { if (!err) c.fail(name + " opens dictionary " + got + " although none matches"); continue; }
		S expId = ids.count(want->dir) ? "[" + std::to_string(ids[want->dir]) + "]" : S();
		if (err) c.fail(name + " opens no dictionary (" + err + ") although " + want->tag.str() + " matches");
		if (!expId.empty() && got != expId) c.fail(name + " opens dictionary " + got + " instead of " + expId + " (" + want->tag.str() + ")");
		if (exp.size() >= 2 && c.wantSample()) c.sample(std::to_string(exp.size()) + " dictionaries, " + name + " -> " + want->tag.str());
	}
	const char * err = 0;
	if (voikkoInit(&err, 0, pathArg) || !err) c.fail("a missing language is not refused");
}
PBT_MAIN
