// C12: grammar errors come in text order, lie inside the text, can be paged through, and are explained
#include "paragraphs.hpp"
using namespace gen;

static const char * const LANGS[] = {"fi", "fi_FI", "en", "en_US", "sv", "de", ""};

static std::string describe(VoikkoGrammarError * e, const char * lang) {
	const char * d = voikkoGetGrammarErrorShortDescription(e, lang);
	std::string s = d ? d : "(null)";
	voikkoFreeErrorMessageCstr(const_cast<char *>(d));
	return s;
}

PBT_PROP(paging, 10) {
	size_t texts = 1 + c.below(3);
	vk::Handle h;
	Opts o;
	if (c.chance(1, 3)) o = options(c);
	o.apply(h);
	std::vector<W> ts;
	for (size_t i = 0; i < texts; i++) {
		W t = c.chance(1, 6) ? W(c.pick(sentences())) : paragraph(c);
		if (i && c.chance(1, 4)) { t = ts[c.below(i)]; if (c.coin()) t.resize(c.below(t.size() + 1)); else t += L" " + W(lexWord(c)); }
		if (t.size() > 3000) t.resize(3000);
		ts.push_back(t);
		c.note("text " + uni::show(t.substr(0, 1200)));
	}
	c.note(o.str());
	std::vector<std::vector<vk::GErr>> all;
	for (auto & t : ts) {
		// the list of errors, one by one from the beginning
		std::vector<vk::GErr> list;
		for (int i = 0;; i++) {
			VoikkoGrammarError * e = voikkoNextGrammarErrorUcs4(h.h, t.c_str(), t.size(), 0, i);
			c.eval();
			if (!e) break;
			std::string fi = describe(e, LANGS[c.below(2)]), en = describe(e, LANGS[2 + c.below(5)]);
			vk::GErr g;
			const char * old = voikko_error_message_cstr(voikkoGetGrammarErrorCode(e), "fi");
			if (!old || fi != old) { voikkoFreeGrammarError(e); c.fail("descriptions of the error differ: " + fi); }
			vk::Handle::takeG(e, g);
			if (g.len == 0 || g.start >= t.size() || g.len > t.size() - g.start) c.fail("error " + g.str() + " is not inside a text of " + std::to_string(t.size()) + " characters");
			if (!list.empty() && g.start < list.back().start) c.fail("error " + g.str() + " comes after " + list.back().str());
			if (fi.empty() || en.empty() || fi == "Tuntematon virhe" || en == "Unknown error" || fi == en) c.fail("error " + g.str() + " has no description: " + fi + " / " + en);
			for (auto & s : g.sugg) {
				W d;
				if (!uni::dec(s, d) || s.empty()) { if (uni::encodable(t)) c.fail("suggestion of error " + g.str() + " is not text"); }
				else if (d == t.substr(g.start, g.len)) c.fail("suggestion of error " + g.str() + " is the text itself");
			}
			list.push_back(g);
			if (list.size() > 5000) c.fail("endless errors");
		}
		all.push_back(list);
	}
	// jumping about in the texts
	size_t jumps = 4 + c.small(12), hits = 0;
	for (size_t k = 0; k < jumps; k++) {
		size_t i = c.below(texts);
		const W & t = ts[i];
		auto & list = all[i];
		size_t start = 0;
		if (c.coin()) start = list.empty() || c.chance(1, 3) ? c.below(t.size() + 3) : c.pick(list).start + c.below(2);
		int skip = c.coin() ? 0 : (int) c.below(list.size() + 2);
		const vk::GErr * want = 0;
		for (size_t j = skip; j < list.size() && !want; j++) if (list[j].start >= start) want = &list[j];
		// bytes after the end of the text are not part of it
		W longer = t;
		if (c.chance(1, 3)) longer += c.coin() ? W(L" , , kissa kissa") : W(c.pick(sentences()));
		vk::GErr g;
		bool got = vk::Handle::takeG(voikkoNextGrammarErrorUcs4(h.h, longer.c_str(), t.size(), start, skip), g);
		c.eval();
		if (got != (want != 0) || (got && g != *want))
			c.fail("text " + std::to_string(i) + " from " + std::to_string(start) + " skipping " + std::to_string(skip) + ": got " + (got ? g.str() : "none") + ", expected " + (want ? want->str() : "none"));
		if (got && (start || skip)) hits++;
	}
	if (hits) {
		std::string key = o.str();
		for (auto & t : ts) key += uni::enc(t.substr(0, 300)) + "\n";
		c.nontrivial(key);
		if (c.wantSample()) c.sample(uni::enc(ts[0].substr(0, 100)) + ": " + std::to_string(all[0].size()) + " errors, " + std::to_string(hits) + " jumps");
	}
	c.label(hits ? "jumps into errors" : "no errors");
}
PBT_MAIN
