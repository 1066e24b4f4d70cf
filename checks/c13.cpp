// C13: grammar errors are exactly those of the rules
#include "paragraphs.hpp"
#include "grammodel.hpp"
using namespace gen;

PBT_PROP(rules, 10) {
	W t = c.chance(1, 10) ? W(c.pick(sentences())) : paragraph(c);
	if (t.size() > 6000) t.resize(6000);
	if (t.empty()) c.discard();
	Opts o;
	if (c.chance(1, 2)) for (int k : {VOIKKO_OPT_ACCEPT_TITLES_IN_GC, VOIKKO_OPT_ACCEPT_UNFINISHED_PARAGRAPHS_IN_GC, VOIKKO_OPT_ACCEPT_BULLETED_LISTS_IN_GC}) if (c.chance(1, 3)) o.b[k] = 1;
	if (c.chance(1, 8)) { Opts x = options(c); for (auto & kv : x.b) o.b[kv.first] = kv.second; }
	c.note("text " + uni::show(t.substr(0, 2000)) + " " + o.str());
	vk::Handle h;
	o.apply(h);
	model::Lexicon & lex = model::lexicon();
	lex.unsure = false;
	model::Speller sp(lex, model::SpellOpts(o));
	model::Grammar g(lex, sp, model::GramOpts(o));
	std::vector<model::GramError> want = g.check(t);
	std::vector<vk::GErr> got = h.allGrammar(t, 4000);
	c.eval();
	if (lex.unsure) { c.label("outside model"); return; }
	std::string a, b;
	for (auto & e : want) a += e.str();
	for (auto & e : got) b += e.str();
	if (a != b) {
		size_t i = 0;
		while (i < want.size() && i < got.size() && want[i].str() == got[i].str()) i++;
		c.fail("error " + std::to_string(i) + ": got " + (i < got.size() ? got[i].str() : std::string("none")) + ", expected " + (i < want.size() ? want[i].str() : std::string("none")) + "\nall: " + b.substr(0, 3000) + "\nexpected: " + a.substr(0, 3000));
	}
	std::set<int> codes;
	for (auto & e : want) codes.insert(e.code);
	for (int k : codes) c.label("code " + std::to_string(k));
	if (!want.empty()) { c.nontrivial(uni::enc(t.substr(0, 400)) + o.str()); if (c.wantSample()) c.sample(uni::enc(t.substr(0, 120)) + " -> " + a.substr(0, 200)); }
	else c.label("no errors");
}
PBT_MAIN
