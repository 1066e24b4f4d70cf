// C19: handles do not affect each other, even when used at the same time in different threads
#include "paragraphs.hpp"
#include "query.hpp"
#include "att.hpp"
#include <thread>
#include <atomic>
#include <functional>
#include <sys/resource.h>
#include <sys/time.h>
using namespace gen;
typedef std::string S;

static S slurp(const S & p) { std::ifstream f(p, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); return ss.str(); }

// Runs f in a fresh process, so that things initialised at first use are initialised in each case anew.
// The parent never calls the library itself.
static S inChild(Ctx & c, std::function<S()> f) {
	att::Scratch sc;
	S out = sc.path + "/out", err = sc.path + "/err";
	fflush(0);
	pid_t pid = fork();
	if (pid == 0) {
		struct itimerval none;
		memset(&none, 0, sizeof none);
		setitimer(ITIMER_PROF, &none, 0);
		struct rlimit rl = {150, 160};
		setrlimit(RLIMIT_CPU, &rl);
		alarm(300); // a deadlock
		int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
		dup2(fd, 2);
		S r = f();
		std::ofstream o(out, std::ios::binary);
		o.write(r.data(), r.size());
		o.close();
		_exit(0);
	}
	int status = 0;
	while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
	if (!WIFEXITED(status) || WEXITSTATUS(status) != 0)
		c.fail((WIFSIGNALED(status) ? "signal " + std::to_string(WTERMSIG(status)) : "status " + std::to_string(WEXITSTATUS(status))) + "\n" + slurp(err).substr(0, 4000));
	return slurp(out);
}

// a dictionary with a weighted speller and an error model
static const S & weightedDict() {
	static att::Scratch * sc = 0;
	static int owner = 0;
	if (!sc || owner != getpid()) {
		sc = new att::Scratch;
		owner = getpid();
		S d = sc->dir("5/mor-w");
		sc->file(d + "/index.txt", "Voikko-Dictionary-Format: 5\nLanguage: fi\nMorphology-Backend: vfst\nSpeller-Backend: vfst\nSuggestion-Backend: vfst\nGrammar-Backend: null\n");
		S t = "0\t1\tk\tk\t1\n0\t1\t@P.F.a@\t@0@\t1\n1\t1\ti\ti\t0.5\n1\t1\ts\ts\t0.5\n1\t1\ta\ta\t0.5\n1\t2\t@R.F.a@\t@0@\t1\n1\t1\n2\t1\n";
		S e = "0\t0\tk\tk\t1\n0\t0\ti\ti\t1\n0\t0\ts\ts\t1\n0\t0\ta\ta\t1\n0\t1\t@0@\ta\t0.1\n0\t1\ta\ti\t0.2\n0\t1\ts\t@0@\t0.1\n1\t1\tk\tk\t1\n1\t1\ti\ti\t1\n1\t1\ts\ts\t1\n1\t1\ta\ta\t1\n0\t1\n1\t1\n";
		att::compile(*sc, t, d + "/mor.vfst", true, false);
		att::compile(*sc, t, d + "/spl.vfst", true, false);
		att::compile(*sc, e, d + "/err.vfst", true, false);
	}
	return sc->path;
}

struct Plan {
	bool weighted = false;
	Opts o;
	std::vector<int> order;   // queries in the order of asking; negative: other calls
};

static S execute(const Plan & p, const std::vector<query::Q> & qs, const S & wdict, std::vector<S> & answers, std::function<void()> wait) {
	wait();
	vk::Handle h(p.weighted ? wdict : vk::dictPath());
	if (!h.h) return "could not open: " + h.error;
	p.o.apply(h);
	for (int k : p.order) {
		if (k == -1) { voikko_dict ** l = voikko_list_dicts(vk::dictPath().c_str()); S r; for (voikko_dict ** i = l; *i; i++) r += S(voikko_dict_language(*i)) + voikko_dict_variant(*i) + voikko_dict_description(*i); voikko_free_dicts(l); answers.push_back(r); }
		else if (k == -2) { S r; for (int e = 1; e < 19; e++) r += S(voikko_error_message_cstr(e, e % 2 ? "fi" : "en")) + "|"; answers.push_back(r); }
		else if (k == -3) { answers.push_back(S(voikkoGetVersion()) + std::to_string(vk::Handle::take(voikkoListSupportedSpellingLanguages(vk::dictPath().c_str())).size())); }
		else answers.push_back(query::answer(h, qs[k]));
	}
	return "";
}

PBT_PROP(threads, 1) {
	size_t n = 2 + c.below(3);
	std::vector<query::Q> qs;
	std::vector<W> words, texts;
	bool weighted = c.chance(1, 5);
	for (size_t i = 2 + c.small(10); i > 0; i--) {
		query::Q q = query::gen(c, words, texts);
		if (weighted) { // short words over the alphabet of the small dictionary
			q = query::Q();
			q.k = c.pick(std::vector<int>{query::SPELL, query::SUGGEST, query::ANALYZE});
			for (size_t k = 1 + c.below(8); k > 0; k--) q.w += L"kisa"[c.below(4)];
		}
		if (q.utf8 && !uni::encodable(q.w)) q.utf8 = false;
		if (q.k == query::INSERT && !uni::encodable(q.w)) q.k = query::HYPH;
		if (q.k == query::SUGGEST && q.w.size() > 60) q.w.resize(60);
		qs.push_back(q);
	}
	std::vector<Plan> plans(n);
	Plan base;
	base.weighted = weighted;
	if (c.coin()) base.o = options(c, 1, 5);
	size_t len = 2 + c.small(10);
	for (size_t i = 0; i < len; i++) base.order.push_back(c.chance(1, 15) ? -(int) (1 + c.below(3)) : (int) c.below(qs.size()));
	for (size_t t = 0; t < n; t++) {
		plans[t] = base;
		if (t > 0) switch (c.below(4)) {
			case 0: break;                                                                   // the same at the same time
			case 1: std::rotate(plans[t].order.begin(), plans[t].order.begin() + c.below(len), plans[t].order.end()); break;
			case 2: if (!weighted) plans[t].o = options(c, 1, 5); break;
			default: for (auto & k : plans[t].order) k = (int) c.below(qs.size()); break;
		}
	}
	S log = weighted ? "weighted dictionary\n" : "";
	for (size_t i = 0; i < qs.size(); i++) log += "query " + std::to_string(i) + ": " + qs[i].str() + "\n";
	for (auto & p : plans) { log += "thread: " + p.o.str() + " asks"; for (int k : p.order) log += " " + std::to_string(k); log += "\n"; }
	c.note(log);
	const S & wd = weightedDict();
	auto all = [&](bool together) {
		std::vector<std::vector<S>> ans(n);
		std::vector<S> errs(n);
		if (together) {
			std::atomic<size_t> ready(0);
			std::vector<std::thread> ts;
			for (size_t t = 0; t < n; t++) ts.emplace_back([&, t]() { errs[t] = execute(plans[t], qs, wd, ans[t], [&]() { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield(); }); });
			for (auto & t : ts) t.join();
		}
		else for (size_t t = 0; t < n; t++) errs[t] = execute(plans[t], qs, wd, ans[t], []() {});
		S r;
		for (size_t t = 0; t < n; t++) { r += "thread " + std::to_string(t) + " " + errs[t] + "\n"; for (auto & a : ans[t]) { S x = a; for (auto & ch : x) if (ch == '\n') ch = ';'; r += x + "\n"; } }
		return r;
	};
	S got = inChild(c, [&]() { return all(true); });
	S exp = inChild(c, [&]() { return all(false); });
	c.eval();
	bool some = false;
	for (auto & l : {exp}) some = some || l.size() > 40 * n;
	if (some) { c.nontrivial(log); if (c.wantSample()) c.sample(log); }
	c.label(std::to_string(n) + " threads");
	if (got != exp) {
		std::istringstream a(got), b(exp);
		S x, y;
		size_t k = 0;
		while (std::getline(a, x) && std::getline(b, y) && x == y) k++;
		c.fail("at the same time: \"" + x.substr(0, 300) + "\", one after another: \"" + y.substr(0, 300) + "\" (line " + std::to_string(k) + ")");
	}
}
PBT_MAIN
