// Reference model of spelling suggestions on top of the lexicon model.
#pragma once
#include <functional>
#include "spellmodel.hpp"

namespace model {

// which corrections a suggestion came from, for labels
struct Candidate { W word; long prio; const char * by; };

class Suggester {
public:
	Suggester(Lexicon & l, bool ocr) : lex(l), limit(ocr ? 2000 : 800), ocr(ocr) {}

	// candidates in order of preference for a normalised word
	std::vector<Candidate> run(const W & word) {
		w = word; n = w.size(); cost = 0; found.clear();
		by = "case"; tryWord(w);
		if (!ocr && !done()) { by = "soft hyphens"; W v; for (wchar_t c : w) if (c != 0xAD) v += c; if (v.size() != n) tryWord(v); }
		if (found.empty()) {
			if (ocr) { step("ocr", [&] { replacements(OCR); }); step("ocr two", [&] { twice(); }); }
			else {
				static const wchar_t * const R1 = L".,asiuiotrtdersšsanmuilkklkgoiäömnrertvbpbpoythjjhjkdtdsdföägfghgkfgfdbpbncvcswewvxczžzxqaåoåpåäåöaeiktyea";
				static const wchar_t * const R2 = L"1q2q2w3w3e4e4r5r5t6t6y7y7u8u8i9i9o0o0p+pie";
				static const wchar_t * const R3 = L"essdnhujlökjopäpmkrdvgplyhhujideölgtfvbvckwaxszaqkåaaåeéaâkcscijxz";
				static const wchar_t * const R4 = L"qwqswqwswdedefrfrgtftgthygyjuhukilokolpöpäsesxdrbgfefrftfcgygbgvhyhnhbhgjujmjnkikokmlolpöpöåäåzsxdcdcfcxvfbhnjnbmjewpåaqswszdwdcdxvcawazsq";
				static const wchar_t * const R5 = L"aooaoutlsraieääeuvvuoddokqpvvpqeeqaddarsetteryyrtuutyiiyuoippioåhvvhhmmh";
				step("vowels", [&] { vowels(); });
				step("replacement", [&] { replacements(R1); });
				step("deletion", [&] { for (size_t i = 0; i < n && !done(); i++) if (!i || lower(w[i]) != lower(w[i - 1])) tryWord(W(w).erase(i, 1)); });
				step("hyphen or doubling", [&] { special(); });
				step("split", [&] { split(); });
				step("replacement of two", [&] { pairs(R1); });
				step("replacement", [&] { replacements(R2); });
				step("insertion", [&] { insertions(L"aitesn"); });
				step("swap", [&] { swaps(); });
				step("replacement", [&] { replacements(R3); });
				step("insertion", [&] { insertions(L"ulkoämrvpyhjdögfbcw:xzqå'."); });
				step("replacement", [&] { replacements(R4); });
				step("replacement of two", [&] { pairs(R2); });
				step("replacement of two", [&] { pairs(R3); });
				step("replacement of two", [&] { pairs(R4); });
				step("deletion of two", [&] {
					std::set<W> seen;
					if (n >= 6) for (size_t i = 0; i + 3 < n && !done(); i++) if (w.compare(i, 2, w, i + 2, 2) == 0) { W v = W(w).erase(i, 2); if (seen.insert(v).second) tryWord(v); }
				});
				step("replacement", [&] { replacements(R5); });
			}
		}
		std::stable_sort(found.begin(), found.end(), [](const Candidate & a, const Candidate & b) { return a.prio < b.prio; });
		if (found.size() > 5) found.resize(5);
		return found;
	}
	// all corrections tried, or the search ended because of its limits
	bool exhausted() const { return cost < limit && found.size() < 15; }
	size_t effort() const { return cost; }
private:
	static constexpr const wchar_t * OCR = L"0oliiluoouaääaoööosššszžžzeééeaââapbbpeffeqooqnmmnuvvuoccobhhb_a_b_c_d_e_f_g_h_i_j_k_l_m_n_o_p_q_r_s_t_u_v_w_x_y_z_ä_ö";
	Lexicon & lex;
	size_t limit, cost = 0, n = 0;
	bool ocr;
	W w;
	const char * by = "";
	std::vector<Candidate> found;

	bool done() const { return found.size() == 15 || (cost >= limit && !(found.empty() && cost < 2 * limit)); }
	void step(const char * name, const std::function<void()> & f) { if (!done()) { by = name; f(); } }

	Spell rate(const W & v, int & prio) {
		Spell best = FAILED;
		prio = 0;
		cost++;
		for (auto & a : lex.get(v)) {
			Spell r = caseMatch(v, a.structure);
			int parts = std::min<int>(5, std::count(a.structure.begin(), a.structure.end(), L'='));
			int p = a.likelihood * (parts ? 1 << (3 * (parts - 1)) : 1) * (r == CAP_FIRST ? 2 : r == CAP_ERROR ? 3 : 1);
			if (better(r, best)) { best = r; prio = p; }
			else if (r == best) prio = std::min(prio, p);
		}
		return best;
	}
	void add(const W & v, long prio) { if (found.size() < 15) found.push_back(Candidate{v, prio * (long) (found.size() + 5), by}); }
	void tryWord(const W & v) {
		if (done()) return;
		int prio;
		Spell r = rate(v, prio);
		if (r == FAILED) return;
		W s(v);
		if (r == CAP_FIRST) s[0] = upper(s[0]);
		if (r == CAP_ERROR) {
			cost++;
			const W & st = lex.get(v)[0].structure;
			size_t j = 0;
			for (auto & ch : s) {
				while (j < st.size() && st[j] == L'=') j++;
				if (j >= st.size()) break;
				if (st[j] == L'i' || st[j] == L'j') ch = upper(ch);
				if (st[j] == L'p' || st[j] == L'q') ch = lower(ch);
				j++;
			}
		}
		add(s, prio);
	}
	// every occurrence of the first character of a pair by the second, in lower and upper case
	void replacements(const wchar_t * table) {
		bool both = true;
		for (const wchar_t * p = table; *p && !done(); p += 2) {
			for (int up = 0; up < (both && upper(p[0]) != p[0] ? 2 : 1); up++) {
				wchar_t from = up ? upper(p[0]) : p[0], to = up ? upper(p[1]) : p[1];
				for (size_t i = 0; i < n && !done(); i++) if (w[i] == from) { W v(w); v[i] = to; tryWord(v); }
			}
		}
	}
	void twice() {
		const wchar_t * table = OCR;
		for (const wchar_t * p = table; *p; p += 2) for (size_t i = 0; i < n; i++) {
			if (w[i] != p[0]) continue;
			W v(w);
			v[i] = p[1];
			for (const wchar_t * q = table; *q; q += 2) for (size_t k = i; k < n; k++) {
				if (v[k] != q[0]) continue;
				W u(v);
				u[k] = q[1];
				tryWord(u);
				if (done()) return;
			}
		}
	}
	void vowels() {
		static const W back = L"aouAOU", front = L"äöyÄÖY";
		std::vector<size_t> at;
		for (size_t i = 0; i < n; i++) if (back.find(w[i]) != W::npos || front.find(w[i]) != W::npos) at.push_back(i);
		if (at.empty() || at.size() > 7) return;
		for (unsigned set = 1; set < (1u << at.size()) && !done(); set++) {
			W v(w);
			for (size_t k = 0; k < at.size(); k++) if (set >> k & 1) {
				size_t b = back.find(v[at[k]]);
				v[at[k]] = b != W::npos ? front[b] : back[front.find(v[at[k]])];
			}
			tryWord(v);
		}
	}
	void special() {
		auto hy = [&](size_t i) { return w[i] == L'-'; };
		for (size_t j = 2; j + 2 <= n && !done(); j++) if (!hy(j - 2) && !hy(j - 1) && !hy(j) && !hy(j + 1)) tryWord(W(w).insert(j, 1, L'-'));
		for (size_t j = 0; j < n && !done(); j++) {
			if (j + 1 < n && w[j] == w[j + 1]) { j++; continue; }
			if (w[j] != L'-' && w[j] != L'\'') tryWord(W(w).insert(j, 1, w[j]));
		}
	}
	// a part is written with a capital if it was, or if it has to be
	bool part(W & p, size_t len, int & prio) {
		bool cap = isUpper(p[0]);
		if (cap) p[0] = lower(p[0]);
		Spell r = rate(p.substr(0, len), prio);
		if (cap || r == CAP_FIRST) p[0] = upper(p[0]);
		return r == OK || r == CAP_FIRST;
	}
	void split() {
		for (size_t k = n - 2; k >= 2 && !done(); k--) {
			if (w[k - 2] == L'-' || w[k - 1] == L'-' || w[k + 1] == L'-') continue;
			int strip = w[k] == L'-', p1, p2;
			W a = w.substr(0, k), b = w.substr(k + strip);
			bool ok = part(a, k, p1);
			if (!ok && a.back() == L'.') ok = part(a, k - 1, p1);
			if (!ok || !part(b, b.size(), p2)) continue;
			add(a + L" " + b, (long) (p1 + p2) * (strip ? 6 : 1));
		}
	}
	// a double letter by another double letter
	void pairs(const wchar_t * table) {
		W l = lower(w);
		for (size_t i = 0; i + 1 < n && !done(); i++) {
			if (l[i] != l[i + 1]) continue;
			for (const wchar_t * p = table; *p && !done(); p += 2) if (p[0] == l[i]) { W v(l); v[i] = v[i + 1] = p[1]; tryWord(v); }
			i++;
		}
	}
	void insertions(const wchar_t * chars) {
		for (; *chars && !done(); chars++) {
			for (size_t j = 0; j < n && !done(); j++) if (*chars != lower(w[j]) && (!j || *chars != lower(w[j - 1]))) tryWord(W(w).insert(j, 1, *chars));
			if (*chars != w[n - 1]) tryWord(w + *chars);
		}
	}
	void swaps() {
		static const std::set<W> tried = {L"aä", L"äa", L"oö", L"öo", L"uy", L"yu"};
		size_t far = n <= 8 ? 10 : 50 / n;
		for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n && j - i <= far && !done(); j++) {
			wchar_t a = lower(w[i]), b = lower(w[j]);
			if (a == b || tried.count(W(1, a) + b)) continue;
			W v(w);
			std::swap(v[i], v[j]);
			tryWord(v);
		}
	}
};

} // namespace model
