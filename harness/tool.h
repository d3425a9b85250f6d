// Runs the recovery tool on the image "core" in the current directory.
#pragma once
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <string>
#include <vector>

static const char *tool, *self;

static std::string noaddr(const std::string &s)
{
	std::string r; size_t i = 0;
	while (i < s.size()) {
		size_t j = s.find(" bytes @ 0x", i);
		if (j == std::string::npos) { r += s.substr(i); break; }
		j += 11; r += s.substr(i, j - i); i = j;
		while (i < s.size() && isxdigit((unsigned char) s[i])) i++;
	}
	return r;
}
static std::string slurp(const char *p)
{
	std::string s; char b[65536]; ssize_t n;
	int fd = open(p, O_RDONLY);
	while ((n = read(fd, b, sizeof(b))) > 0) s.append(b, n);
	close(fd);
	return s;
}
// runs of the same line of an unused slot, and runs of zeros, become one
static std::string squeeze(const std::string &s)
{
	std::string r, last; size_t i = 0;
	while (i < s.size()) {
		size_t j = s.find('\n', i); j = j == std::string::npos ? s.size() : j + 1;
		std::string l;
		for (; i < j; i++) if (s[i] || l.empty() || l.back()) l += s[i];
		if (l == last && l.find("INVALID:INVALID") != std::string::npos) continue;
		r += last = l;
	}
	return r;
}
static int recover(std::vector<std::string> args, std::string &out)
{
	pid_t p = fork();
	if (!p) {
		int o = open("tool.out", O_CREAT | O_TRUNC | O_WRONLY, 0644), e = open("tool.err", O_CREAT | O_TRUNC | O_WRONLY, 0644);
		dup2(o, 1); dup2(e, 2);
		std::vector<char *> av;
		av.push_back((char *) "hogl-recover");
		for (auto &a : args) av.push_back((char *) a.c_str());
		av.push_back(0);
		alarm(30);
		setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=99", 1);
		execv(tool, &av[0]);
		_exit(127);
	}
	int st; waitpid(p, &st, 0);
	out = slurp("tool.out");
	return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}

static const std::string MARK = "Dumping records from ring buffers:\n", END = "#### #### #### ####\n\n";
// text of the outputs and of the rings; a result code of 0 if all is well
static int recovered(const std::vector<std::string> &args, bool all, std::string &pre, std::string &rec)
{
	std::string out;
	int rc = recover(args, out);
	out = noaddr(out);
	size_t p = out.find(MARK);
	if (p == std::string::npos) return rc + 6000;
	pre = squeeze(out.substr(0, p)); rec = out.substr(p + MARK.size());
	if (rec.size() >= END.size() && rec.substr(rec.size() - END.size()) == END) rec.resize(rec.size() - END.size()); else rc += 5000;
	if (all) rec = squeeze(rec);
	return rc;
}
