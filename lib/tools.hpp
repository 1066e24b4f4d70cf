// Runs command line tools with given input and collects their output.
#pragma once
#include <string>
#include <vector>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <fcntl.h>
#include <poll.h>
#include <spawn.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "att.hpp"

namespace tools {

struct Result {
	bool hung = false;
	int status = -1;        // exit status, or -1 if a signal ended the program
	std::string out, err;
};

inline std::string buildDir() { const char * b = getenv("VERIF_BUILD_DIR"); return b ? b : "/verif/build"; }

// The limit is far beyond what any run needs; it only turns a tool that waits for ever into a failure.
inline Result run(const std::string & program, const std::vector<std::string> & args, const std::string & input, int limitSeconds = 100) {
	att::Scratch sc;
	Result r;
	std::string in = sc.path + "/in", err = sc.path + "/err";
	sc.file(in, input);
	int p[2];
	if (pipe2(p, O_CLOEXEC)) return r;
	std::vector<const char *> av = {program.c_str()};
	for (auto & a : args) av.push_back(a.c_str());
	av.push_back(0);
	posix_spawn_file_actions_t fa;
	posix_spawn_file_actions_init(&fa);
	posix_spawn_file_actions_addopen(&fa, 0, in.c_str(), O_RDONLY, 0);
	posix_spawn_file_actions_adddup2(&fa, p[1], 1);
	posix_spawn_file_actions_addopen(&fa, 2, err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
	pid_t pid;
	int rc = posix_spawn(&pid, program.c_str(), &fa, 0, (char **) av.data(), environ);
	posix_spawn_file_actions_destroy(&fa);
	close(p[1]);
	if (rc) { close(p[0]); r.status = -2; return r; }
	struct timespec t0, t;
	clock_gettime(CLOCK_MONOTONIC, &t0);
	char buf[65536];
	while (true) {
		clock_gettime(CLOCK_MONOTONIC, &t);
		int left = limitSeconds - (int) (t.tv_sec - t0.tv_sec);
		if (left <= 0) { r.hung = true; kill(pid, SIGKILL); break; }
		struct pollfd f = {p[0], POLLIN, 0};
		int k = poll(&f, 1, left * 1000);
		if (k < 0 && errno == EINTR) continue;
		if (k == 0) continue;
		ssize_t n = read(p[0], buf, sizeof buf);
		if (n <= 0) break;
		r.out.append(buf, n);
	}
	close(p[0]);
	int status = 0;
	while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
	r.status = WIFEXITED(status) ? WEXITSTATUS(status) : -1;
	std::ifstream f(err, std::ios::binary);
	std::stringstream ss;
	ss << f.rdbuf();
	r.err = ss.str();
	return r;
}

} // namespace tools
