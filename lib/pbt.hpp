// Small property based testing engine used by all C++ checks.
//
//  * A test case is a byte string of choices.  Generators draw bounded
//    integers from it (zero = simplest); in random mode the draws come from a
//    seeded PRNG and are recorded, in replay mode they are read back.  This gives
//    integrated shrinking for every generator and lets libFuzzer drive the
//    same properties (define PBT_FUZZ).
//  * Cases run in forked workers; the choices of the running case live in
//    shared memory, so that crashes, sanitizer reports and hangs (CPU time) are
//    caught, shrunk and replayed like ordinary failures.
//  * A failure is reported only if it reproduces 3 times from a fresh process;
//    a failure that needs the preceding cases of its worker is replayed together
//    with them (cases are derived from (seed, worker, index)).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <cerrno>
#include <algorithm>
#include <chrono>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

inline uint64_t mix(uint64_t z) {
	z += 0x9e3779b97f4a7c15ULL;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}

inline uint64_t hashBytes(const void * p, size_t n, uint64_t h = 1469598103934665603ULL) {
	const unsigned char * c = (const unsigned char *) p;
	for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
	return mix(h);
}
inline uint64_t hashStr(const std::string & s) { return hashBytes(s.data(), s.size()); }

struct Failure { std::string msg; };
struct Discard {};

static const size_t MAX_CHOICES = 1 << 18;
static const size_t MAX_MSG = 16384;

// state of one worker, in shared memory
struct Shared {
	volatile uint64_t cases;      // finished cases
	volatile uint64_t discards;
	volatile uint64_t nontrivial;
	volatile uint64_t evals;
	volatile int sub;             // running sub property
	volatile uint64_t index;      // index of the running case
	volatile uint32_t len;        // choices recorded for the running case
	volatile int failed;
	char msg[MAX_MSG];
	char note[MAX_MSG];
	volatile uint32_t noteLen;
	unsigned char data[MAX_CHOICES];
};

class Ctx {
public:
	Ctx(Shared * s, uint64_t seed) : sh(s), rng(seed), replay(false), in(0), inLen(0), pos(0) { sh->len = 0; sh->noteLen = 0; sh->note[0] = 0; }
	Ctx(Shared * s, const unsigned char * d, size_t n) : sh(s), rng(1), replay(true), in(d), inLen(n), pos(0) { sh->len = 0; sh->noteLen = 0; sh->note[0] = 0; }

	bool isReplay() const { return replay; }
	size_t used() const { return pos; }

	// uniform integer in [0, n)
	uint64_t below(uint64_t n) {
		if (n <= 1) return 0;
		int bytes = n <= 256 ? 1 : n <= 65536 ? 2 : 4;
		uint64_t v;
		if (replay) {
			v = 0;
			for (int i = 0; i < bytes; i++) v = (v << 8) | (pos + i < inLen ? in[pos + i] : 0);
			pos += bytes;
			v %= n;
		} else {
			v = (uint64_t)(((unsigned __int128) next64() * n) >> 64);
			pos += bytes;
		}
		uint32_t l = sh->len;
		if (l + bytes <= MAX_CHOICES) {
			for (int i = bytes - 1; i >= 0; i--) sh->data[l + (bytes - 1 - i)] = (unsigned char) (v >> (8 * i));
			sh->len = l + bytes;
		}
		return v;
	}
	int range(int lo, int hi) { return lo + (int) below((uint64_t) (hi - lo) + 1); }
	// true with probability num/den; false is the simple outcome
	bool chance(int num, int den) { return (int) below(den) >= den - num; }
	bool coin() { return below(2) == 1; }
	// size biased towards small values
	size_t small(size_t max) {
		static const int caps[] = {2, 4, 8, 16, 32, 64, 128, 256, 512, 1024};
		size_t k = below(6 + (max > 64 ? 4 : 0));
		size_t cap = std::min((size_t) caps[k], max);
		return below(cap + 1);
	}
	template <class T> const T & pick(const std::vector<T> & v) { return v[below(v.size())]; }
	template <class T, size_t N> const T & pick(const T (&v)[N]) { return v[below(N)]; }
	// index chosen according to weights
	size_t weighted(std::initializer_list<int> w) {
		int total = 0;
		for (int x : w) total += x;
		int r = (int) below(total);
		size_t i = 0;
		for (int x : w) { if (r < x) return i; r -= x; i++; }
		return 0;
	}

	[[noreturn]] void fail(const std::string & m) { throw Failure{m}; }
	void check(bool ok, const std::string & m) { if (!ok) throw Failure{m}; }
	[[noreturn]] void discard() { throw Discard(); }
	// human readable description of the case, available even after a crash
	void note(const std::string & s) {
		uint32_t l = sh->noteLen;
		size_t n = std::min(s.size(), MAX_MSG - 2 - l);
		if (l + 2 >= MAX_MSG) return;
		memcpy(sh->note + l, s.data(), n);
		sh->note[l + n] = '\n';
		sh->note[l + n + 1] = 0;
		sh->noteLen = l + n + 1;
	}
	// counts one oracle evaluation
	void eval(uint64_t n = 1) { sh->evals += n; }
	// marks the case (or a part of it) non-trivial; key identifies it
	void nontrivial(const std::string & key) { if (keys) { sh->nontrivial++; if (keys->size() < 4000000) keys->insert(hashStr(key)); } }
	void sample(std::string s) { for (auto & ch : s) if (ch == '\n') ch = ';'; if (samples && samples->size() < 4 && s.size() < 400) samples->push_back(s); }
	bool wantSample() const { return samples && samples->size() < 4; }
	void label(const std::string & l) { if (labels) (*labels)[l]++; }

	std::unordered_set<uint64_t> * keys = 0;
	std::vector<std::string> * samples = 0;
	std::map<std::string, uint64_t> * labels = 0;
private:
	uint64_t next64() { rng += 0x9e3779b97f4a7c15ULL; uint64_t z = rng; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
	Shared * sh;
	uint64_t rng;
	bool replay;
	const unsigned char * in;
	size_t inLen, pos;
};

struct Sub {
	const char * name;
	int weight;
	void (*fn)(Ctx &);
};

inline std::vector<Sub> & subs() { static std::vector<Sub> s; return s; }
struct Reg { Reg(const char * n, int w, void (*f)(Ctx &)) { subs().push_back(Sub{n, w, f}); } };
#define PBT_PROP(name, weight) \
	static void name(pbt::Ctx & c); \
	static pbt::Reg pbt_reg_##name(#name, weight, name); \
	static void name(pbt::Ctx & c)

inline std::string jsonEsc(const std::string & s) {
	std::string o = "\"";
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
		else if (ch < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
		else o += ch;
	}
	return o + "\"";
}

enum Outcome { OK = 0, FAIL = 1, CRASH = 2, HANG = 3 };
static const int EXIT_FAIL = 41, EXIT_HANG = 42;

inline void onProf(int) { _exit(EXIT_HANG); }
inline void armCpu(int seconds) {
	struct itimerval t;
	memset(&t, 0, sizeof t);
	t.it_value.tv_sec = seconds;
	setitimer(ITIMER_PROF, &t, 0);
}

struct Options {
	std::string tier = "quick", out, replay, replayDir = ".", property = "X", dict;
	std::string only;
	uint64_t seed = 1, cases = 1000;
	double maxTime = 60;
	int jobs = 8, caseCpu = 60;
	bool verbose = false;
};
inline Options & opts() { static Options o; return o; }
// called once in every worker process before its first case
inline std::function<void()> & initHook() { static std::function<void()> f; return f; }
inline int & workerId() { static int w = 0; return w; }

inline int pickSub(uint64_t seed) {
	int total = 0;
	for (auto & s : subs()) if (opts().only.empty() || opts().only == s.name) total += s.weight;
	if (!total) { fprintf(stderr, "no such sub property\n"); exit(3); }
	int r = (int) (mix(seed ^ 0x5555) % total);
	for (size_t i = 0; i < subs().size(); i++) {
		if (!(opts().only.empty() || opts().only == subs()[i].name)) continue;
		if (r < subs()[i].weight) return (int) i;
		r -= subs()[i].weight;
	}
	return 0;
}

inline uint64_t caseSeed(uint64_t seed, uint64_t worker, uint64_t index) { return mix(mix(seed * 1000003 + worker) + index); }

// runs one case in this process; returns false on failure (message in sh->msg)
inline bool runCase(Shared * sh, int sub, Ctx & c) {
	sh->sub = sub;
	sh->failed = 0;
	sh->msg[0] = 0;
	try { subs()[sub].fn(c); }
	catch (Failure & f) {
		snprintf(sh->msg, MAX_MSG, "%s", f.msg.c_str());
		sh->failed = 1;
		return false;
	}
	catch (Discard &) { sh->discards++; }
	return true;
}

inline Shared * newShared() {
	void * p = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(3); }
	memset(p, 0, 256);
	return (Shared *) p;
}

struct CaseRef { int sub; bool fromSeed; uint64_t seed; std::vector<unsigned char> data; };

// runs cases in a fresh child; the outcome is that of the last case
inline Outcome runFresh(Shared * sh, const std::vector<CaseRef> & cs, std::string * err, bool showErr = false) {
	char tmpl[] = "/tmp/pbt-err-XXXXXX";
	int efd = mkstemp(tmpl);
	unlink(tmpl);
	fflush(0);
	pid_t pid = fork();
	if (pid == 0) {
		if (!showErr) { dup2(efd, 2); dup2(efd, 1); }
		signal(SIGPROF, onProf);
		if (initHook()) initHook()();
		for (size_t i = 0; i < cs.size(); i++) {
			armCpu(opts().caseCpu);
			bool ok;
			if (cs[i].fromSeed) { Ctx c(sh, cs[i].seed); ok = runCase(sh, cs[i].sub, c); }
			else { Ctx c(sh, cs[i].data.data(), cs[i].data.size()); ok = runCase(sh, cs[i].sub, c); }
			if (!ok) _exit(i + 1 == cs.size() ? EXIT_FAIL : 0);
		}
		_exit(0);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	if (err) {
		off_t n = lseek(efd, 0, SEEK_END);
		if (n > 12000) n = 12000;
		std::string s((size_t) n, 0);
		lseek(efd, 0, SEEK_SET);
		ssize_t r = read(efd, &s[0], (size_t) n);
		s.resize(r < 0 ? 0 : (size_t) r);
		*err = s;
	}
	close(efd);
	if (WIFEXITED(st)) {
		if (WEXITSTATUS(st) == 0) return OK;
		if (WEXITSTATUS(st) == EXIT_FAIL) return FAIL;
		if (WEXITSTATUS(st) == EXIT_HANG) return HANG;
	}
	return CRASH;
}

inline const char * outcomeName(Outcome o) { return o == OK ? "ok" : o == FAIL ? "property failed" : o == CRASH ? "crash or sanitizer report" : "case does not terminate"; }

inline std::vector<unsigned char> shrink(Shared * sh, int sub, std::vector<unsigned char> best, Outcome want, double budget) {
	auto start = std::chrono::steady_clock::now();
	auto left = [&] { return budget - std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count(); };
	auto tryIt = [&](const std::vector<unsigned char> & cand) {
		if (left() <= 0) return false;
		if (runFresh(sh, {CaseRef{sub, false, 0, cand}}, 0) != want) return false;
		// what the case really consumed, normalised
		std::vector<unsigned char> norm(sh->data, sh->data + sh->len);
		if (norm.size() <= cand.size()) best = norm; else best = cand;
		while (!best.empty() && best.back() == 0) best.pop_back();
		return true;
	};
	if (want == HANG) budget = std::min(budget, 0.0);
	bool progress = true;
	while (progress && left() > 0) {
		progress = false;
		for (size_t chunk = std::max<size_t>(1, best.size() / 2); chunk >= 1; chunk /= 2) {
			for (size_t i = 0; i < best.size() && left() > 0;) {
				std::vector<unsigned char> cand(best);
				cand.erase(cand.begin() + i, cand.begin() + std::min(best.size(), i + chunk));
				size_t before = best.size();
				if (tryIt(cand) && best.size() < before) progress = true; else i += chunk;
			}
			if (chunk == 1) break;
		}
		for (size_t i = 0; i < best.size() && left() > 0; i++) {
			if (best[i] == 0) continue;
			std::vector<unsigned char> cand(best);
			cand[i] = 0;
			if (tryIt(cand)) { progress = true; continue; }
			for (int step = 128; step >= 1 && left() > 0; step /= 2) {
				if (i >= best.size() || best[i] < step) continue;
				cand = best;
				cand[i] -= step;
				if (tryIt(cand)) progress = true;
			}
		}
	}
	return best;
}

inline std::string hex(const std::vector<unsigned char> & d) {
	std::string s;
	char b[4];
	for (unsigned char x : d) { snprintf(b, sizeof b, "%02x", x); s += b; }
	return s;
}

struct Stats {
	uint64_t cases = 0, evals = 0, discards = 0, unreproduced = 0, nontrivial = 0;
	std::unordered_set<uint64_t> keys;
	std::vector<std::string> samples;
	std::map<std::string, uint64_t> labels;
};

inline void dumpWorker(const std::string & base, Ctx * , std::unordered_set<uint64_t> & keys, std::vector<std::string> & samples, std::map<std::string, uint64_t> & labels) {
	FILE * f = fopen((base + ".keys").c_str(), "wb");
	if (f) { for (uint64_t k : keys) fwrite(&k, 8, 1, f); fclose(f); }
	f = fopen((base + ".txt").c_str(), "wb");
	if (f) {
		for (auto & s : samples) { uint32_t n = s.size(); fwrite(&n, 4, 1, f); fwrite(s.data(), 1, n, f); }
		fclose(f);
	}
	f = fopen((base + ".labels").c_str(), "wb");
	if (f) { for (auto & l : labels) fprintf(f, "%llu %s\n", (unsigned long long) l.second, l.first.c_str()); fclose(f); }
}

inline void workerLoop(Shared * sh, int w, uint64_t first, uint64_t end, double deadline, const std::string & base) {
	signal(SIGPROF, onProf);
	workerId() = w;
	if (initHook()) initHook()();
	std::unordered_set<uint64_t> keys;
	std::vector<std::string> samples;
	std::map<std::string, uint64_t> labels;
	for (uint64_t i = first; i < end; i++) {
		double now = std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
		if (now > deadline) break;
		sh->index = i;
		uint64_t s = caseSeed(opts().seed, w, i);
		armCpu(opts().caseCpu);
		Ctx c(sh, s);
		c.keys = &keys; c.samples = &samples; c.labels = &labels;
		if (!runCase(sh, pickSub(s), c)) { dumpWorker(base, &c, keys, samples, labels); _exit(EXIT_FAIL); }
		sh->cases++;
	}
	dumpWorker(base, 0, keys, samples, labels);
	_exit(0);
}

inline void writeReplay(const std::string & path, int sub, const std::vector<CaseRef> & cs, Outcome o, const std::string & msg, const std::string & note, const std::string & err) {
	FILE * f = fopen(path.c_str(), "w");
	if (!f) { perror(path.c_str()); return; }
	fprintf(f, "# property %s, check %s: %s\n", opts().property.c_str(), subs()[sub].name, outcomeName(o));
	auto comment = [&](const char * h, const std::string & s) {
		fprintf(f, "# %s:\n", h);
		std::string line;
		for (char ch : s + "\n") { if (ch == '\n') { if (!line.empty()) fprintf(f, "#   %s\n", line.c_str()); line.clear(); } else line += ch; }
	};
	comment("message", msg);
	comment("case", note);
	if (!err.empty()) comment("output", err.substr(0, 6000));
	if (!opts().dict.empty()) fprintf(f, "dict %s\n", opts().dict.c_str());
	for (auto & c : cs) {
		if (c.fromSeed) fprintf(f, "seed %s %llu\n", subs()[c.sub].name, (unsigned long long) c.seed);
		else fprintf(f, "case %s %s\n", subs()[c.sub].name, hex(c.data).c_str());
	}
	fclose(f);
}

inline int subByName(const std::string & n) {
	for (size_t i = 0; i < subs().size(); i++) if (n == subs()[i].name) return (int) i;
	return -1;
}

// selects one of the dictionaries of the build and the word lists that belong to it
inline void useDict(const std::string & name) {
	opts().dict = name;
	const char * root = getenv("VERIF_DICTS");
	setenv("VERIF_DICT", ((root ? std::string(root) : std::string("/verif/build/dicts")) + "/" + name).c_str(), 1);
	setenv("VERIF_WORDS", name.c_str(), 1);
}

inline int replayFile(const std::string & path) {
	FILE * f = fopen(path.c_str(), "r");
	if (!f) { perror(path.c_str()); return 3; }
	std::vector<CaseRef> cs;
	static char kind[32], name[128];
	static char line[MAX_CHOICES * 2 + 512];
	while (fgets(line, sizeof line, f)) {
		if (line[0] == '#') continue;
		int used = 0;
		if (sscanf(line, "%31s %127s %n", kind, name, &used) < 2) continue;
		CaseRef c;
		if (!strcmp(kind, "dict")) { useDict(name); continue; }
		if (!strcmp(kind, "fuzz")) {
			// libFuzzer input: the first byte selects the sub property
			std::vector<unsigned char> raw;
			for (const char * p = line + used; p[0] && p[1] && p[0] != '\n'; p += 2) { unsigned v; if (sscanf(p, "%2x", &v) != 1) break; raw.push_back((unsigned char) v); }
			if (raw.empty()) continue;
			c.sub = raw[0] % subs().size();
			c.fromSeed = false; c.seed = 0;
			c.data.assign(raw.begin() + 1, raw.end());
			cs.push_back(c);
			continue;
		}
		c.sub = subByName(name);
		if (c.sub < 0) { fprintf(stderr, "unknown sub property %s\n", name); return 3; }
		c.fromSeed = !strcmp(kind, "seed");
		c.seed = 0;
		if (c.fromSeed) c.seed = strtoull(line + used, 0, 10);
		else for (const char * p = line + used; p[0] && p[1] && p[0] != '\n'; p += 2) { unsigned v; if (sscanf(p, "%2x", &v) != 1) break; c.data.push_back((unsigned char) v); }
		cs.push_back(c);
	}
	fclose(f);
	Shared * sh = newShared();
	std::string err;
	Outcome o = runFresh(sh, cs, &err, false);
	printf("outcome: %s\n%s\ncase:\n%s\n%s\n", outcomeName(o), o == FAIL ? sh->msg : "", sh->note, err.c_str());
	return o == OK ? 0 : 1;
}

inline int run() {
	Options & O = opts();
	double t0 = std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
	double deadline = t0 + O.maxTime;
	Stats st;
	std::string tmp = O.replayDir + "/.pbt-" + O.property + "-" + std::to_string(getpid());
	std::vector<Shared *> sh(O.jobs);
	std::vector<pid_t> pid(O.jobs, 0);
	std::vector<int> gen(O.jobs, 0);
	uint64_t per = (O.cases + O.jobs - 1) / O.jobs;
	fflush(0);
	auto start = [&](int w, uint64_t first) {
		std::string base = tmp + "-" + std::to_string(w) + "-" + std::to_string(gen[w]++);
		pid_t p = fork();
		if (p == 0) {
			int fd = open("/dev/null", O_WRONLY);
			dup2(fd, 1); dup2(fd, 2);
			workerLoop(sh[w], w, first, per, deadline, base);
		}
		pid[w] = p;
	};
	for (int w = 0; w < O.jobs; w++) { sh[w] = newShared(); start(w, 0); }
	int violations = 0;
	std::string violation;
	int alive = O.jobs, flaky = 0;
	while (alive > 0) {
		int status;
		pid_t p = waitpid(-1, &status, 0);
		if (p < 0) { if (errno == EINTR) continue; break; }
		int w = -1;
		for (int i = 0; i < O.jobs; i++) if (pid[i] == p) w = i;
		if (w < 0) continue;
		pid[w] = 0;
		if (WIFEXITED(status) && WEXITSTATUS(status) == 0) { alive--; continue; }
		// failure of case sh[w]->index
		uint64_t index = sh[w]->index;
		int sub = sh[w]->sub;
		std::vector<unsigned char> data(sh[w]->data, sh[w]->data + sh[w]->len);
		Shared * s2 = newShared();
		Outcome o = OK;
		std::vector<CaseRef> cs;
		int same = 0;
		uint64_t cseed = caseSeed(O.seed, w, index);
		Outcome first = runFresh(s2, {CaseRef{sub, true, cseed, {}}}, 0);
		if (first != OK) {
			o = first;
			data.assign(s2->data, s2->data + s2->len);
			if (O.verbose) fprintf(stderr, "failure: %s: %s\n", subs()[sub].name, s2->msg);
			std::vector<unsigned char> small = shrink(s2, sub, data, o, O.tier == "quick" ? 40 : 120);
			for (int k = 0; k < 3; k++) if (runFresh(s2, {CaseRef{sub, false, 0, small}}, 0) == o) same++;
			cs = {CaseRef{sub, false, 0, small}};
			if (same < 3) {
				same = 0;
				cs = {CaseRef{sub, true, cseed, {}}};
				for (int k = 0; k < 3; k++) if (runFresh(s2, cs, 0) == o) same++;
			}
		}
		if (same < 3 && first == OK) {
			// needs the history of its worker: replay with as few preceding cases as possible
			std::vector<CaseRef> all;
			for (uint64_t i = index > 3000 ? index - 3000 : 0; i <= index; i++) { uint64_t s = caseSeed(O.seed, w, i); all.push_back(CaseRef{pickSub(s), true, s, {}}); }
			Outcome o1 = runFresh(s2, all, 0);
			if (o1 != OK) {
				o = o1;
				cs = all;
				for (size_t keep = 1; keep < all.size(); keep *= 4) {
					std::vector<CaseRef> tail(all.end() - (keep + 1), all.end());
					if (runFresh(s2, tail, 0) == o1) { cs = tail; break; }
				}
				for (int round = 0; round < 200 && cs.size() > 1; round++) {
					bool any = false;
					for (size_t i = 0; i + 1 < cs.size(); i++) {
						std::vector<CaseRef> cand(cs);
						cand.erase(cand.begin() + i);
						if (runFresh(s2, cand, 0) == o1) { cs = cand; any = true; break; }
					}
					if (!any) break;
				}
				same = 0;
				for (int k = 0; k < 3; k++) if (runFresh(s2, cs, 0) == o) same++;
			}
		}
		if (same >= 3) {
			std::string err;
			runFresh(s2, cs, &err);
			std::string path = O.replayDir + "/" + O.property + "-" + (O.dict.empty() ? "" : O.dict + "-") + subs()[sub].name + "-seed" + std::to_string(O.seed) + ".replay";
			writeReplay(path, sub, cs, o, o == FAIL ? s2->msg : outcomeName(o), s2->note, err);
			violation = path;
			violations++;
			fprintf(stderr, "%s: %s: %s\n%s\n", subs()[sub].name, outcomeName(o), s2->msg, s2->note);
			if (!err.empty()) fprintf(stderr, "%s\n", err.substr(0, 3000).c_str());
			for (int i = 0; i < O.jobs; i++) if (pid[i]) kill(pid[i], SIGKILL);
			while (waitpid(-1, 0, 0) > 0) {}
			break;
		}
		st.unreproduced++;
		munmap(s2, sizeof(Shared));
		if (++flaky > 20) { alive--; continue; }
		sh[w]->cases++;
		start(w, index + 1);
	}
	for (int w = 0; w < O.jobs; w++) {
		st.cases += sh[w]->cases; st.evals += sh[w]->evals; st.discards += sh[w]->discards; st.nontrivial += sh[w]->nontrivial;
		for (int g = 0; g < gen[w]; g++) {
			std::string base = tmp + "-" + std::to_string(w) + "-" + std::to_string(g);
			FILE * f = fopen((base + ".keys").c_str(), "rb");
			if (f) { uint64_t k; while (fread(&k, 8, 1, f) == 1) st.keys.insert(k); fclose(f); }
			f = fopen((base + ".txt").c_str(), "rb");
			if (f) { uint32_t n; while (fread(&n, 4, 1, f) == 1 && n < 10000) { std::string s(n, 0); if (fread(&s[0], 1, n, f) != n) break; st.samples.push_back(s); } fclose(f); }
			f = fopen((base + ".labels").c_str(), "rb");
			if (f) { char l[256]; unsigned long long k; while (fscanf(f, "%llu %255[^\n]", &k, l) == 2) st.labels[l] += k; fclose(f); }
			unlink((base + ".keys").c_str()); unlink((base + ".txt").c_str()); unlink((base + ".labels").c_str());
		}
	}
	double wall = std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count() - t0;
	if (!O.out.empty()) {
		FILE * f = fopen(O.out.c_str(), "w");
		if (f) {
			fprintf(f, "{\"cases\": %llu, \"evaluations\": %llu, \"discards\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, \"unreproduced\": %llu, \"wall_s\": %.2f, \"violations\": %d, \"replay\": %s, \"samples\": [",
				(unsigned long long) st.cases, (unsigned long long) st.evals, (unsigned long long) st.discards, (unsigned long long) st.nontrivial,
				(unsigned long long) st.keys.size(), (unsigned long long) st.unreproduced, wall, violations, jsonEsc(violation).c_str());
			for (size_t i = 0; i < st.samples.size() && i < 12; i++) fprintf(f, "%s%s", i ? ", " : "", jsonEsc(st.samples[i]).c_str());
			fprintf(f, "], \"labels\": {");
			bool firstL = true;
			for (auto & l : st.labels) { fprintf(f, "%s%s: %llu", firstL ? "" : ", ", jsonEsc(l.first).c_str(), (unsigned long long) l.second); firstL = false; }
			fprintf(f, "}}\n");
			fclose(f);
		}
	}
	if (violations) { printf("VIOLATION property=%s replay=%s\n", O.property.c_str(), violation.c_str()); return 1; }
	printf("%s: ok, %llu cases, %llu evaluations, %llu distinct non-trivial, %llu discarded, %llu unreproduced, %.1f s\n", O.property.c_str(), (unsigned long long) st.cases,
	       (unsigned long long) st.evals, (unsigned long long) st.keys.size(), (unsigned long long) st.discards, (unsigned long long) st.unreproduced, wall);
	if (O.verbose) {
		for (auto & l : st.labels) printf("  %10llu %s\n", (unsigned long long) l.second, l.first.c_str());
		for (auto & s : st.samples) printf("  sample: %s\n", s.c_str());
	}
	return 0;
}

inline int main_(int argc, char ** argv) {
	Options & O = opts();
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--tier") O.tier = val();
		else if (a == "--seed") O.seed = strtoull(val().c_str(), 0, 10);
		else if (a == "--cases") O.cases = strtoull(val().c_str(), 0, 10);
		else if (a == "--time") O.maxTime = atof(val().c_str());
		else if (a == "--jobs") O.jobs = atoi(val().c_str());
		else if (a == "--cpu") O.caseCpu = atoi(val().c_str());
		else if (a == "--out") O.out = val();
		else if (a == "--only") O.only = val();
		else if (a == "--replay") O.replay = val();
		else if (a == "--replay-dir") O.replayDir = val();
		else if (a == "--property") O.property = val();
		else if (a == "--dict") useDict(val());
		else if (a == "-v") O.verbose = true;
		else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
	}
	if (!O.replay.empty()) return replayFile(O.replay);
	return run();
}

} // namespace pbt

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t * data, size_t size) {
	static pbt::Shared * sh = 0;
	if (!sh) { sh = pbt::newShared(); if (pbt::initHook()) pbt::initHook()(); }
	if (size < 1) return 0;
	int sub = data[0] % pbt::subs().size();
	pbt::Ctx c(sh, data + 1, size - 1);
	if (!pbt::runCase(sh, sub, c)) {
		fprintf(stderr, "PBT-FAIL %s: %s\n%s\n", pbt::subs()[sub].name, sh->msg, sh->note);
		abort();
	}
	return 0;
}
#define PBT_MAIN
#else
#define PBT_MAIN int main(int argc, char ** argv) { return pbt::main_(argc, argv); }
#endif
