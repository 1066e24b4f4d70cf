// C08: morphological analyses are exactly those the lexicon licenses
#include "words.hpp"
#include "model.hpp"
using namespace gen;

static model::Finnish & fi() { static model::Finnish m(vk::dictPath() + "/5/mor-standard/mor.vfst"); return m; }

PBT_PROP(analysis, 10) {
	W w = candidate(c);
	c.note("word " + uni::show(w));
	fi().unsure = false;
	auto exp = fi().analyze(w);
	if (fi().unsure) { c.label("outside model"); return; }
	vk::Handle h;
	voikko_mor_analysis ** a = voikkoAnalyzeWordUcs4(h.h, w.c_str());
	if (!a) c.fail("no result array");
	vk::Analyses got;
	for (voikko_mor_analysis ** p = a; *p; p++) {
		std::map<std::string, W> m;
		size_t keys = 0;
		for (const char ** k = voikko_mor_analysis_keys(*p); *k; k++, keys++) {
			const wchar_t * v = voikko_mor_analysis_value_ucs4(*p, *k);
			char * u = voikko_mor_analysis_value_cstr(*p, *k);
			if (!v || !u) c.fail(std::string("listed attribute has no value: ") + *k);
			m[*k] = v;
			bool same = uni::enc(v) == u;
			std::string us = u;
			voikko_free_mor_analysis_value_cstr(u);
			if (!same) c.fail(std::string("wide and UTF-8 values of ") + *k + " differ: " + uni::enc(v) + " / " + us);
		}
		if (keys != m.size()) c.fail("an attribute is listed twice");
		for (const char * k : {"NOSUCH", "", "CLASS", "NUMBER", "FOCUS", "WORDIDS"}) if (!m.count(k)) {
			if (voikko_mor_analysis_value_ucs4(*p, k) || voikko_mor_analysis_value_cstr(*p, k)) c.fail(std::string("an attribute that is not listed has a value: ") + k);
		}
		got.push_back(m);
	}
	voikko_free_mor_analysis(a);
	c.eval();
	if (!exp.empty()) { c.nontrivial(uni::enc(w)); if (c.wantSample()) c.sample(uni::enc(w) + " -> " + std::to_string(exp.size()) + " analyses"); }
	c.label(exp.empty() ? "no analysis" : exp.size() > 5 ? ">5 analyses" : "1-5 analyses");
	if (got != exp) c.fail("analyses differ; expected\n" + vk::showA(exp) + "got\n" + vk::showA(got));
	// enumerated attributes
	for (auto & m : got) for (auto & kv : m) {
		std::set<std::string> values;
		for (auto & v : vk::Handle::take(voikkoGetAttributeValues(h.h, kv.first.c_str()))) values.insert(v);
		bool enumerated = model::valueMaps().count(kv.first) > 0;
		if (enumerated && values.empty()) c.fail("no values are listed for " + kv.first);
		if (!values.empty() && !values.count(uni::enc(kv.second))) c.fail(kv.first + " has the value " + uni::enc(kv.second) + ", which is not listed among its values");
	}
}
PBT_MAIN
