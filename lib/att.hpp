// Random automata in the text format of the transducer compiler, an interpreter for them, and dictionaries made of them.
#pragma once
#include <cmath>
#include <filesystem>
#include <fstream>
#include <functional>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "pbt.hpp"
#include "uni.hpp"
#include "vk.hpp"

extern char ** environ;

namespace att {
using uni::W;

struct Arc { int to; std::string in, out; double p; };
struct State { std::vector<Arc> arcs; int finals = 0; std::vector<double> fp; };

struct Automaton {
	std::vector<State> st;
	bool weighted = false, logs = false; // weights are written as probabilities or as their negative logarithms

	std::string weight(double p) const { return "\t" + num(logs ? p == 1 ? 0 : -std::log(p) : p); }
	static std::string num(double p) { char b[40]; snprintf(b, sizeof b, "%.6g", p); return b; }
	// lines of one state are consecutive, in the order they were generated; a final line comes at a generated place among them
	std::string text(pbt::Ctx * c = 0) const {
		std::string r;
		for (size_t i = 0; i < st.size(); i++) {
			std::vector<std::string> lines;
			for (auto & a : st[i].arcs) lines.push_back(std::to_string(i) + "\t" + std::to_string(a.to) + "\t" + a.in + "\t" + a.out + (weighted ? weight(a.p) : ""));
			for (int k = 0; k < st[i].finals; k++) {
				size_t at = c ? c->below(lines.size() + 1) : lines.size();
				lines.insert(lines.begin() + at, std::to_string(i) + (weighted ? weight(st[i].fp[k]) : ""));
			}
			for (auto & l : lines) r += l + "\n";
		}
		return r;
	}

	static bool isFlag(const std::string & s) { return s.size() > 4 && s[0] == '@' && s[2] == '.'; }
	static W sym(const std::string & s) {
		if (s == "@0@" || isFlag(s)) return L"";
		if (s == "@_SPACE_@") return L" ";
		return uni::dec(s);
	}

	struct Out { W out; double logp; int arcs; };
	struct Result { std::vector<Out> outs; bool limited = false; size_t furthest = 0, steps = 0; };
	struct Read { wchar_t in; bool flag, eps, one; W out; }; // the symbols of a transition, decoded
	mutable std::vector<std::vector<Read>> reads;
	// every path that reads the whole input; input characters are the symbols of one character
	Result run(const W & input, size_t maxOut = 2000, size_t maxSteps = 20000) const {
		Result r;
		size_t & steps = r.steps;
		size_t total = 0, known = 0;
		for (auto & x : st) total += x.arcs.size();
		for (auto & x : reads) known += x.size();
		if (reads.size() != st.size() || total != known) {
			reads.assign(st.size(), {});
			for (size_t i = 0; i < st.size(); i++) for (auto & a : st[i].arcs) {
				bool f = isFlag(a.in), e = a.in == "@0@";
				W in = f || e ? W() : sym(a.in);
				reads[i].push_back({in.size() == 1 ? in[0] : L'\0', f, e, in.size() == 1, sym(a.out)});
			}
		}
		std::map<std::string, std::string> flags;
		std::function<void(int, size_t, W, double, int)> go = [&](int s, size_t pos, W out, double lp, int depth) {
			if (r.limited) return;
			if (++steps > maxSteps || depth > 600) { r.limited = true; return; }
			if (out.size() > 1900) { r.limited = true; return; } // the library's buffers end soon after this
			r.furthest = std::max(r.furthest, pos);
			if (pos == input.size()) for (int k = 0; k < st[s].finals; k++) {
				r.outs.push_back({out, lp + (weighted ? std::log(st[s].fp[k]) : 0), depth + 1});
				if (r.outs.size() > maxOut) { r.limited = true; return; }
			}
			for (size_t n = 0; n < st[s].arcs.size(); n++) {
				const Arc & a = st[s].arcs[n];
				const Read & d = reads[s][n];
				bool flag = d.flag, eps = d.eps;
				if (!flag && !eps && (pos >= input.size() || !d.one || input[pos] != d.in)) continue;
				double l2 = lp + (weighted ? std::log(a.p) : 0);
				W o2 = out + d.out;
				if (flag) {
					auto saved = flags;
					if (apply(a.in, flags)) go(a.to, pos, o2, l2, depth + 1);
					flags = saved;
				}
				else go(a.to, eps ? pos : pos + 1, o2, l2, depth + 1);
			}
		};
		go(0, 0, L"", 0, 0);
		return r;
	}
	static bool apply(const std::string & f, std::map<std::string, std::string> & v) {
		std::string fv = f.substr(3, f.size() - 4);
		size_t dot = fv.find('.');
		std::string feat = fv.substr(0, dot), val = dot == std::string::npos ? "" : fv.substr(dot + 1);
		std::string cur = v.count(feat) ? v[feat] : "";
		switch (f[1]) {
			case 'P': v[feat] = val; return true;
			case 'C': v.erase(feat); return true;
			case 'U': if (cur.empty()) { v[feat] = val; return true; } return cur == val;
			case 'R': return val.empty() ? !cur.empty() : cur == val;
			case 'D': return val.empty() ? cur.empty() : cur != val;
		}
		return false;
	}
	// input of a random walk
	W walk(pbt::Ctx & c, int longest = 24) const {
		W r;
		int s = 0;
		for (int i = 0; i < longest && r.size() < 255; i++) {
			if (st[s].arcs.empty() || (st[s].finals && (longest > 24 ? c.chance(1, 150) : c.chance(1, 3)))) break;
			const Arc & a = c.pick(st[s].arcs);
			r += sym(a.in);
			s = a.to;
		}
		return r;
	}
};

struct Shape {
	bool weighted = false;
	std::vector<std::string> in, out; // symbols of single characters; tags of any length may be among the outputs
	bool flags = true, epsilon = true, big = false;
	std::string prefix; // output of a transition before all others
	int maxStates = 7;
};

inline std::string flag(pbt::Ctx & c) {
	static const char * F[] = {"F", "G", "LONG"};
	static const char * V[] = {"a", "b", "on", "1"};
	std::string f = F[c.weighted({4, 2, 1})], v = V[c.weighted({4, 3, 1, 1})];
	switch (c.weighted({4, 3, 3, 2, 2, 3, 2})) {
		case 0: return "@P." + f + "." + v + "@";
		case 1: return "@U." + f + "." + v + "@";
		case 2: return "@R." + f + "." + v + "@";
		case 3: return "@R." + f + "@";
		case 4: return "@C." + f + "@";
		case 5: return "@D." + f + "." + v + "@";
		default: return "@D." + f + "@";
	}
}

inline double prob(pbt::Ctx & c) {
	static const double P[] = {1, 0.5, 0.1, 0.25, 0.01, 0.9, 0.2, 0.0001, 0.003, 1e-6, 0.05, 0.3, 0.77};
	return c.chance(1, 4) ? (c.below(10000) + 1) / 10000.0 : c.pick(P);
}

inline Automaton automaton(pbt::Ctx & c, const Shape & sh) {
	Automaton a;
	a.weighted = sh.weighted;
	int n = c.range(1, sh.maxStates);
	a.st.resize(n);
	for (int s = 0; s < n; s++) {
		State & st = a.st[s];
		int k = (int) c.below(6);
		for (int i = 0; i < k; i++) {
			Arc x;
			bool silent = s + 1 < n && (sh.epsilon || sh.flags) && c.chance(2, 5);
			if (silent) {
				x.in = sh.flags && (!sh.epsilon || c.chance(3, 4)) ? flag(c) : "@0@";
				x.to = c.range(s + 1, n - 1);
				x.out = x.in != "@0@" && c.chance(3, 4) ? (c.coin() ? x.in : std::string("@0@")) : c.chance(1, 2) ? c.pick(sh.out) : std::string("@0@");
			}
			else {
				x.in = c.pick(sh.in);
				x.to = c.chance(1, 3) ? (int) c.below(n) : std::min(n - 1, s + 1);
				x.out = c.chance(1, 2) ? x.in : c.chance(1, 3) ? std::string("@0@") : c.pick(sh.out);
			}
			x.p = sh.weighted ? prob(c) : 1;
			st.arcs.push_back(x);
		}
		if (s == n - 1 || st.arcs.empty() || c.chance(1, 3)) { st.finals = c.chance(1, 12) ? 2 : 1; for (int i = 0; i < st.finals; i++) st.fp.push_back(sh.weighted ? prob(c) : 1); }
	}
	if (sh.big) {
		// a state with about as many transitions as one cell can count, or many more
		State & st = a.st[c.below(n)];
		size_t want = c.chance(1, 2) ? (size_t) c.range(250, 262) : (size_t) c.range(263, 600);
		std::vector<Arc> more;
		int to = c.below(n), step = c.range(1, 3);
		for (size_t i = st.arcs.size() + st.finals; i < want; i++) {
			Arc x;
			W ch(1, (wchar_t) (0x4E00 + (i * step) % 400));
			x.in = uni::enc(ch);
			x.out = i % 3 ? x.in : std::string("@0@");
			x.to = i % 7 ? to : (to + 1) % n;
			x.p = sh.weighted ? 1.0 / (1 + i % 11) : 1;
			more.push_back(x);
		}
		if (c.coin()) std::reverse(more.begin(), more.end());
		st.arcs.insert(c.coin() ? st.arcs.begin() : st.arcs.end(), more.begin(), more.end());
	}
	if (!sh.prefix.empty()) {
		for (auto & s : a.st) for (auto & x : s.arcs) x.to++;
		State first;
		first.arcs.push_back({1, "@0@", sh.prefix, 1});
		a.st.insert(a.st.begin(), first);
		n++;
	}
	// the readers need a symbol that is a character
	bool normal = false;
	for (auto & s : a.st) for (auto & x : s.arcs) if (!Automaton::isFlag(x.in) && x.in != "@0@") normal = true;
	if (!normal) a.st[n - 1].arcs.push_back({n - 1, sh.in[0], sh.in[0], 1});
	return a;
}

// a directory that is removed with its files
class Scratch {
public:
	std::string path;
	Scratch() {
		const char * b = getenv("VERIF_BUILD_DIR");
		std::string base = std::string(b ? b : "/verif/build") + "/scratch";
		mkdir(base.c_str(), 0777);
		static int n = 0;
		path = base + "/" + std::to_string(getpid()) + "-" + std::to_string(n++);
		remove();
		mkdir(path.c_str(), 0777);
	}
	~Scratch() { remove(); }
	std::string dir(const std::string & rel) {
		std::string p = path;
		size_t i = 0;
		while (i < rel.size()) {
			size_t e = rel.find('/', i);
			if (e == std::string::npos) e = rel.size();
			p += "/" + rel.substr(i, e - i);
			mkdir(p.c_str(), 0777);
			i = e + 1;
		}
		return p;
	}
	void file(const std::string & p, const std::string & content) {
		std::ofstream f(p, std::ios::binary);
		f.write(content.data(), content.size());
	}
	void remove() { std::error_code ec; std::filesystem::remove_all(path, ec); }
};

inline std::string compiler() {
	const char * b = getenv("VERIF_BUILD_DIR");
	return std::string(b ? b : "/verif/build") + "/plain/voikkovfstc";
}

// runs the transducer compiler; returns its exit status, or -1 if a signal ended it
inline int compile(Scratch & sc, const std::string & text, const std::string & target, bool weighted, bool bigEndian, bool logs = false) {
	std::string src = sc.path + "/source.att", log = sc.path + "/log";
	sc.file(src, text);
	unlink(target.c_str());
	std::string cc = compiler();
	std::vector<const char *> av = {cc.c_str(), "-o", target.c_str(), "-f", bigEndian ? "be" : "le"};
	if (weighted) { av.push_back("-w"); av.push_back(logs ? "log" : "prob"); }
	av.push_back(0);
	posix_spawn_file_actions_t fa;
	posix_spawn_file_actions_init(&fa);
	posix_spawn_file_actions_addopen(&fa, 0, src.c_str(), O_RDONLY, 0);
	posix_spawn_file_actions_addopen(&fa, 1, log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
	posix_spawn_file_actions_adddup2(&fa, 1, 2);
	pid_t pid;
	int rc = posix_spawn(&pid, cc.c_str(), &fa, 0, (char **) av.data(), environ);
	posix_spawn_file_actions_destroy(&fa);
	if (rc) return -2;
	int status = 0;
	while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
	return WIFEXITED(status) ? WEXITSTATUS(status) : -1;
}

} // namespace att
