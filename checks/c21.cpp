// C21, comparing program: samples words by walks through two compiled dictionaries, guided towards transitions that no word has used yet, and compares
// what the library answers with each dictionary; also checks expectations of the inflection tables.
// usage: c21 DIR_A DIR_B SEED MAXWORDS EXPECT OUT
#include <algorithm>
#include <functional>
#include <cstdio>
#include <random>
#include <set>
#include <unordered_map>
#include "vfst.hpp"
#include "gen.hpp"
using uni::W;

struct Graph {
	const vfst::Fst & f;
	std::unordered_map<uint32_t, uint32_t> id; // cell -> dense state number
	struct E { uint32_t in, to, out; };          // to == FIN: final
	static const uint32_t FIN = 0xFFFFFFFF;
	std::vector<std::vector<E>> out;
	std::vector<std::vector<char>> used;
	std::vector<std::vector<unsigned char>> tried;
	std::vector<int> toFinal, toNew;
	std::vector<std::vector<uint32_t>> back;
	size_t edges = 0, covered = 0, givenUp = 0;
	explicit Graph(const vfst::Fst & f) : f(f) {
		std::vector<uint32_t> todo;
		auto state = [&](uint32_t c) { auto it = id.find(c); if (it != id.end()) return it->second; uint32_t n = (uint32_t) id.size(); id[c] = n; todo.push_back(c); return n; };
		state(0);
		for (size_t i = 0; i < todo.size(); i++) {
			std::vector<E> es;
			for (auto & a : f.arcs(todo[i])) es.push_back(E{a.in, a.in == vfst::FINAL16 ? FIN : state(a.target), a.in == vfst::FINAL16 ? 0 : a.out});
			if (out.size() < todo.size()) out.resize(todo.size());
			out[i] = es;
		}
		out.resize(id.size());
		back.resize(out.size());
		used.resize(out.size());
		tried.resize(out.size());
		for (uint32_t s = 0; s < out.size(); s++) {
			used[s].assign(out[s].size(), 0);
			tried[s].assign(out[s].size(), 0);
			edges += out[s].size();
			for (auto & e : out[s]) if (e.to != FIN) back[e.to].push_back(s);
		}
		toFinal = dist([&](uint32_t s) { for (auto & e : out[s]) if (e.to == FIN) return true; return false; });
		renew();
	}
	template <class P> std::vector<int> dist(P source) {
		std::vector<int> d(out.size(), 1 << 20);
		std::vector<uint32_t> q;
		for (uint32_t s = 0; s < out.size(); s++) if (source(s)) { d[s] = 0; q.push_back(s); }
		for (size_t i = 0; i < q.size(); i++) for (uint32_t p : back[q[i]]) if (d[p] > d[q[i]] + 1) { d[p] = d[q[i]] + 1; q.push_back(p); }
		return d;
	}
	bool fresh(uint32_t s, size_t k) const { return !used[s][k] && tried[s][k] < 6; }
	void renew() { toNew = dist([&](uint32_t s) { for (size_t k = 0; k < out[s].size(); k++) if (fresh(s, k)) return true; return false; }); }

	// a word accepted by the transducer, aimed at an unused transition; empty if the walk fails
	W walk(std::mt19937_64 & r) {
		auto below = [&](size_t n) { return (size_t) (r() % n); };
		std::vector<std::pair<uint32_t, uint32_t>> path;
		vfst::Fst::Flags fl(f.featureCount(), 0);
		uint32_t s = 0;
		bool aim = below(8) != 0, hit = false;
		std::pair<uint32_t, uint32_t> target(0, 0);
		size_t len = 0;
		auto step = [&](uint32_t k) { // false if a flag blocks
			const E & e = out[s][k];
			if (e.in != 0 && e.in < f.firstNormal && !f.applyFlag(e.in, fl)) return false;
			if (e.in >= f.firstNormal) len++;
			path.push_back({s, k});
			s = e.to;
			return true;
		};
		for (int guard = 0; guard < 300; guard++) {
			if (aim && toNew[s] == 0) {
				std::vector<uint32_t> ks;
				for (size_t k = 0; k < out[s].size(); k++) if (fresh(s, k)) ks.push_back((uint32_t) k);
				if (ks.empty()) aim = false; // used up since the distances were computed
				else {
					target = {s, ks[below(ks.size())]};
					tried[target.first][target.second]++;
					if (!step(target.second)) return W();
					hit = true;
					break;
				}
			}
			std::vector<uint32_t> ks;
			for (size_t k = 0; k < out[s].size(); k++) {
				const E & e = out[s][k];
				if (e.to == FIN) { if (!aim) ks.push_back((uint32_t) k); continue; }
				if (aim && toNew[s] < (1 << 20) && toNew[e.to] >= toNew[s] && below(12)) continue;
				if (toFinal[e.to] >= (1 << 20)) continue;
				ks.push_back((uint32_t) k);
			}
			bool moved = false;
			while (!ks.empty() && !moved) {
				size_t i = below(ks.size());
				if (step(ks[i])) moved = true;
				else { ks[i] = ks.back(); ks.pop_back(); }
			}
			if (!moved) return W();
			if (s == FIN) break;
			if (len > 24) break;
			if (!aim && len > 3 && below(6) == 0) break;
		}
		// the rest: depth first towards a final state
		int budget = 3000;
		auto f0 = fl;
		std::function<bool(uint32_t, vfst::Fst::Flags, size_t)> finish = [&](uint32_t st, vfst::Fst::Flags g, size_t depth) {
			if (st == FIN) return true;
			if (--budget < 0 || depth > 60) return false;
			std::vector<uint32_t> ks(out[st].size());
			for (uint32_t k = 0; k < ks.size(); k++) ks[k] = k;
			std::shuffle(ks.begin(), ks.end(), r);
			std::stable_sort(ks.begin(), ks.end(), [&](uint32_t a, uint32_t b) {
				int da = out[st][a].to == FIN ? -1 : toFinal[out[st][a].to], db = out[st][b].to == FIN ? -1 : toFinal[out[st][b].to];
				return da / 3 < db / 3;
			});
			for (uint32_t k : ks) {
				const E & e = out[st][k];
				auto h = g;
				if (e.in != 0 && e.to != FIN && e.in < f.firstNormal && !f.applyFlag(e.in, h)) continue;
				path.push_back({st, k});
				if (finish(e.to, h, depth + 1)) return true;
				path.pop_back();
				if (budget < 0) return false;
			}
			return false;
		};
		if (s != FIN && !finish(s, fl, 0)) return W();
		(void) hit;
		W w;
		for (auto & p : path) {
			if (!used[p.first][p.second]) { used[p.first][p.second] = 1; covered++; }
			uint32_t in = out[p.first][p.second].in;
			if (in != vfst::FINAL16 && in >= f.firstNormal) w += uni::dec(f.syms[in]);
		}
		return w;
	}
};

// Walks through two transducers at once along transitions with the same symbols, kept to places where the rest differs, until one of them has a
// transition that the other lacks; then on to a final state. With deterministic transducers every difference of their paths can be reached.
struct Differ {
	Graph * g[2];
	std::vector<std::vector<std::pair<uint64_t, uint32_t>>> lab[2]; // transitions of each state in the order of their symbols
	std::vector<uint64_t> cls[2];                                   // what can follow the state
	struct Edge { int k[2]; uint32_t to; };                          // numbers of the transitions, -1 if there is none
	struct Node { uint32_t p[2]; std::vector<Edge> es; int dist = 1 << 20; };
	static const uint32_t HARD = 0xFFFFFFFF;
	std::vector<Node> nodes;

	static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xBF58476D1CE4E5B9ULL; return h ^ (h >> 29); }
	Differ(Graph * a, Graph * b) : g{a, b} {
		std::map<std::string, uint64_t> syms;
		for (int i = 0; i < 2; i++) {
			auto sym = [&](uint32_t n) { return syms.emplace(g[i]->f.syms[n], syms.size() + 1).first->second; };
			std::vector<uint64_t> num;
			for (uint32_t n = 0; n < g[i]->f.syms.size(); n++) num.push_back(sym(n));
			lab[i].resize(g[i]->out.size());
			for (uint32_t s = 0; s < g[i]->out.size(); s++) {
				for (uint32_t k = 0; k < g[i]->out[s].size(); k++) { auto & e = g[i]->out[s][k]; lab[i][s].push_back({e.to == Graph::FIN ? 0 : num[e.in] << 32 | num[e.out], k}); }
				std::sort(lab[i][s].begin(), lab[i][s].end());
			}
			cls[i].assign(g[i]->out.size(), 1);
		}
		size_t count = 1;
		for (int round = 0; round < 2000; round++) {
			std::set<uint64_t> all;
			for (int i = 0; i < 2; i++) {
				std::vector<uint64_t> next(cls[i].size());
				for (uint32_t s = 0; s < next.size(); s++) {
					uint64_t h = 77;
					for (auto & l : lab[i][s]) { auto & e = g[i]->out[s][l.second]; h = mix(mix(h, l.first), e.to == Graph::FIN ? 3 : cls[i][e.to]); }
					next[s] = h;
				}
				cls[i].swap(next);
			}
			std::vector<uint64_t> v(cls[0]);
			v.insert(v.end(), cls[1].begin(), cls[1].end());
			std::sort(v.begin(), v.end());
			size_t n = std::unique(v.begin(), v.end()) - v.begin();
			if (n == count) break;
			count = n;
		}
		if (!different()) return;
		std::unordered_map<uint64_t, uint32_t> id;
		std::vector<std::vector<uint32_t>> back;
		auto node = [&](uint32_t p, uint32_t q) {
			uint64_t key = (uint64_t) p << 32 | q;
			auto it = id.find(key);
			if (it != id.end()) return it->second;
			uint32_t n = (uint32_t) nodes.size();
			id[key] = n;
			Node x;
			x.p[0] = p; x.p[1] = q;
			nodes.push_back(x);
			back.push_back({});
			return n;
		};
		node(0, 0);
		std::vector<uint32_t> q;
		for (uint32_t n = 0; n < nodes.size() && n < 400000; n++) {
			uint32_t p[2] = {nodes[n].p[0], nodes[n].p[1]};
			auto & la = lab[0][p[0]];
			auto & lb = lab[1][p[1]];
			bool hard = false;
			for (size_t i = 0, j = 0; i < la.size() || j < lb.size();) {
				if (j == lb.size() || (i < la.size() && la[i].first < lb[j].first)) { nodes[n].es.push_back({{(int) la[i].second, -1}, HARD}); hard = true; i++; }
				else if (i == la.size() || lb[j].first < la[i].first) { nodes[n].es.push_back({{-1, (int) lb[j].second}, HARD}); hard = true; j++; }
				else {
					auto & ea = g[0]->out[p[0]][la[i].second];
					auto & eb = g[1]->out[p[1]][lb[j].second];
					if (ea.to != Graph::FIN && eb.to != Graph::FIN && cls[0][ea.to] != cls[1][eb.to]) { uint32_t t = node(ea.to, eb.to); nodes[n].es.push_back({{(int) la[i].second, (int) lb[j].second}, t}); back[t].push_back(n); }
					i++; j++;
				}
			}
			if (hard) { nodes[n].dist = 0; q.push_back(n); }
		}
		for (size_t i = 0; i < q.size(); i++) for (uint32_t p : back[q[i]]) if (nodes[p].dist > nodes[q[i]].dist + 1) { nodes[p].dist = nodes[q[i]].dist + 1; q.push_back(p); }
	}
	bool different() const { return cls[0][0] != cls[1][0]; }
	W walk(std::mt19937_64 & r) {
		auto below = [&](size_t n) { return (size_t) (r() % n); };
		vfst::Fst::Flags fl[2] = {vfst::Fst::Flags(g[0]->f.featureCount(), 0), vfst::Fst::Flags(g[1]->f.featureCount(), 0)};
		W w;
		uint32_t n = 0;
		auto step = [&](int i, const Graph::E & e, bool text) {
			const vfst::Fst & f = g[i]->f;
			if (e.to == Graph::FIN) return true;
			if (e.in != 0 && e.in < f.firstNormal) return f.applyFlag(e.in, fl[i]);
			if (text && e.in >= f.firstNormal) w += uni::dec(f.syms[e.in]);
			return true;
		};
		int side = -1;
		uint32_t s = 0;
		int tight = 1 + (int) below(12);
		for (int guard = 0; guard < 200 && side < 0; guard++) {
			Node & x = nodes[n];
			std::vector<size_t> ks;
			for (size_t k = 0; k < x.es.size(); k++) {
				uint32_t t = x.es[k].to;
				if (t != HARD && (nodes[t].dist >= (1 << 20) || (nodes[t].dist >= x.dist && below(tight)))) continue;
				if (t != HARD && x.dist == 0 && below(3)) continue;
				ks.push_back(k);
			}
			bool moved = false;
			while (!ks.empty() && !moved) {
				size_t i = below(ks.size());
				const Edge & e = x.es[ks[i]];
				auto f0 = fl[0], f1 = fl[1];
				int on = e.k[0] >= 0 ? 0 : 1;
				if (step(on, g[on]->out[x.p[on]][e.k[on]], true) && (e.to == HARD || step(1, g[1]->out[x.p[1]][e.k[1]], false))) {
					moved = true;
					if (e.to == HARD) { side = on; s = g[on]->out[x.p[on]][e.k[on]].to; }
					else n = e.to;
				}
				else { fl[0] = f0; fl[1] = f1; ks[i] = ks.back(); ks.pop_back(); }
			}
			if (!moved) return W();
		}
		if (side < 0) return W();
		if (s == Graph::FIN) return w;
		Graph & h = *g[side];
		int budget = 3000;
		size_t loose = 1 + below(6);
		std::vector<uint32_t> ins;
		std::function<bool(uint32_t, vfst::Fst::Flags, size_t)> finish = [&](uint32_t st, vfst::Fst::Flags fs, size_t depth) {
			if (st == Graph::FIN) return true;
			if (--budget < 0 || depth > 60) return false;
			std::vector<uint32_t> ks(h.out[st].size());
			for (uint32_t k = 0; k < ks.size(); k++) ks[k] = k;
			std::shuffle(ks.begin(), ks.end(), r);
			if (depth > 8 || below(loose)) std::stable_sort(ks.begin(), ks.end(), [&](uint32_t a, uint32_t b) {
				int da = h.out[st][a].to == Graph::FIN ? -1 : h.toFinal[h.out[st][a].to], db = h.out[st][b].to == Graph::FIN ? -1 : h.toFinal[h.out[st][b].to];
				return da / 3 < db / 3;
			});
			for (uint32_t k : ks) {
				const Graph::E & e = h.out[st][k];
				auto gs = fs;
				if (e.in != 0 && e.to != Graph::FIN && e.in < h.f.firstNormal && !h.f.applyFlag(e.in, gs)) continue;
				ins.push_back(e.to == Graph::FIN ? 0 : e.in);
				if (finish(e.to, gs, depth + 1)) return true;
				ins.pop_back();
				if (budget < 0) return false;
			}
			return false;
		};
		if (!finish(s, fl[side], 0)) return W();
		for (uint32_t in : ins) if (in >= h.f.firstNormal) w += uni::dec(h.f.syms[in]);
		return w;
	}
};

static std::string oneLine(std::string s) { for (auto & c : s) if (c == '\n' || c == '\t') c = ' '; return s; }
static std::string answer(vk::Handle & h, const W & w, bool full) {
	std::string s = "spell " + std::to_string(h.spell(w));
	if (full) {
		s += " hyphenation " + h.hyph(w) + "\n";
		vk::Analyses a = h.analyze(w);
		if (a.size() < 30) { // the library gives a limited number of analyses
			std::set<std::string> each;
			for (auto & m : a) each.insert(vk::showA(vk::Analyses(1, m)));
			for (auto & e : each) s += e;
		}
		else s += "many analyses";
	}
	return s;
}
static W cased(const W & w, std::mt19937_64 & r) {
	W v = w;
	switch (r() % 6) {
		case 0: case 1: case 2: if (!v.empty()) v[0] = gen::upperCh(v[0]); break;
		case 3: { bool up = true; for (auto & c : v) { if (up) c = gen::upperCh(c); up = c == L'-'; } break; }
		default: break;
	}
	return v;
}

int main(int argc, char ** argv) {
	if (argc < 7) return 2;
	std::string da = argv[1], db = argv[2];
	std::mt19937_64 r((uint64_t) atoll(argv[3]) * 7919 + 17);
	size_t max = (size_t) atoll(argv[4]);
	FILE * out = fopen(argv[6], "w");
	vk::Handle a(da), b(db);
	size_t words = 0, accepted = 0, diffs = 0, expects = 0;
	auto compare = [&](const W & w, const char * how) {
		if (w.empty() || w.size() > 200) return;
		words++;
		std::string x = answer(a, w, true), y = answer(b, w, true);
		if (x.compare(0, 7, "spell 1") == 0) accepted++;
		if (x != y && ++diffs <= 200) fprintf(out, "DIFF\t%s\t%s\t%s\t%s\n", how, uni::enc(w).c_str(), oneLine(x).c_str(), oneLine(y).c_str());
	};
	// expectations: sign, word, base form, case, number, class; only those that the reference meets are held against the current tree
	size_t unmet = 0;
	{
		std::ifstream f(argv[5]);
		std::string l;
		while (std::getline(f, l)) {
			std::vector<std::string> t;
			std::stringstream ss(l);
			std::string x;
			while (std::getline(ss, x, '\t')) t.push_back(x);
			if (t.size() < 2) continue;
			t.resize(8);
			W w = uni::dec(t[1]);
			if (t[0] == "=") { compare(w, "word"); continue; }
			expects++;
			auto meets = [&](vk::Handle & h, std::string & got) {
				bool found = false;
				if (t[0] == "a") { // incorrect expression, correct expression
					W text = L"Koe " + w + L" koe.";
					for (auto & g : h.allGrammar(text)) {
						got += g.str() + " ";
						if (g.code == 1 && g.start == 4 && g.len == w.size() && g.sugg.size() == 1 && g.sugg[0] == t[2]) found = true;
					}
					return found;
				}
				int sp = h.spell(w);
				got = "spell " + std::to_string(sp) + " ";
				for (auto & m : h.analyze(w)) {
					auto g = [&](const char * k) { auto it = m.find(k); return it == m.end() ? std::string() : uni::enc(it->second); };
					bool ok = true;
					if (!t[2].empty() && g("BASEFORM") != t[2]) ok = false;
					if (!t[3].empty() && g("SIJAMUOTO") != t[3]) ok = false;
					if (!t[4].empty() && g("NUMBER") != t[4]) ok = false;
					if (!t[5].empty() && g("CLASS") != t[5]) ok = false;
					if (ok) found = true;
					got += vk::showA(vk::Analyses(1, m));
				}
				return t[0] == "+" ? found && sp == 1 : !found;
			};
			std::string ga, gb;
			if (!meets(b, gb)) { unmet++; continue; }
			if (!meets(a, ga) && ++diffs <= 400) fprintf(out, "EXPECT\t%s\t%s\t%s\t%s\n", oneLine(l).c_str(), uni::enc(w).c_str(), oneLine(ga).c_str(), oneLine(gb).c_str());
			if (t[0] != "a") compare(w, "table");
		}
	}
	vfst::Fst fa(da + "/5/mor-standard/mor.vfst"), fb(db + "/5/mor-standard/mor.vfst");
	if (!fa.ok || !fb.ok) { fprintf(out, "BAD\n"); fclose(out); return 3; }
	if (max == 0) { fprintf(out, "STATS\t%zu\t%zu\t%zu\t%zu\n", words, accepted, expects, unmet); fclose(out); return 0; }
	if (argc > 7) { // list the words of walks through the first dictionary
		Graph g(fa);
		for (size_t i = 0; i < max; i++) { if (i % 400 == 0) g.renew(); W w = g.walk(r); if (!w.empty()) fprintf(out, "%s\n", uni::enc(w).c_str()); }
		printf("%zu of %zu\n", g.covered, g.edges);
		fclose(out);
		return 0;
	}
	Graph * gs[2] = {new Graph(fa), new Graph(fb)};
	size_t fails = 0, walks = 0;
	{
		Differ d(gs[0], gs[1]);
		if (d.different()) for (size_t i = 0, before = diffs; i < 30000 && diffs < before + 20; i++) compare(d.walk(r), "difference");
	}
	while (walks < max && !diffs) {
		for (int k = 0; k < 2; k++) {
			if (walks % 400 == 0) { gs[0]->renew(); gs[1]->renew(); }
			walks++;
			W w = gs[k]->walk(r);
			if (w.empty()) { fails++; continue; }
			compare(w, k ? "walk B" : "walk A");
			if (r() % 3 == 0) compare(cased(w, r), "cased");
			if (r() % 8 == 0) { // near miss
				W v = w;
				size_t i = r() % v.size();
				static const W L = L"aeiouyäölmnrstkpdvhjg-";
				switch (r() % 4) { case 0: v[i] = L[r() % L.size()]; break; case 1: v.erase(i, 1); break; case 2: v.insert(i, 1, L[r() % L.size()]); break; default: v.insert(i, 1, v[i]); }
				compare(v, "near");
			}
		}
	}
	fprintf(out, "STATS\t%zu\t%zu\t%zu\t%zu\t%zu\t%zu\t%zu\t%zu\t%zu\n", words, accepted, expects, unmet, gs[0]->edges, gs[0]->covered, gs[1]->edges, gs[1]->covered, fails);
	fclose(out);
	return 0;
}
