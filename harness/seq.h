// Sequential drivers: one JSON line per execution; a crash ends that execution only.
#pragma once
#include "prng.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <string>
#include <vector>

namespace hl {

struct text : public std::string {
	__attribute__((format(printf, 2, 3)))
	text &f(const char *fmt, ...)
	{
		char b[65536];
		va_list ap; va_start(ap, fmt);
		int n = vsnprintf(b, sizeof(b), fmt, ap);
		va_end(ap);
		append(b, n < (int) sizeof(b) ? n : sizeof(b) - 1);
		return *this;
	}
	// JSON array of byte values / string literal
	text &bytes(const void *p, size_t n)
	{
		push_back('[');
		for (size_t i = 0; i < n; i++) f("%s%u", i ? "," : "", (unsigned) ((const unsigned char *) p)[i]);
		push_back(']');
		return *this;
	}
	text &str(const std::string &s)
	{
		push_back('"');
		for (unsigned char c : s) { if (c == '"' || c == '\\') { push_back('\\'); push_back(c); } else if (c < 32 || c > 126) f("\\u%04x", c); else push_back(c); }
		push_back('"');
		return *this;
	}
};

// fn(suite, seed, out): produces the line without newline
template <typename F> static int seq_main(int argc, char **argv, F fn, unsigned tmo = 20)
{
	if (argc < 5) return 2;
	const char *path = argv[1], *suite = argv[2];
	uint64_t from = strtoull(argv[3], 0, 10), to = strtoull(argv[4], 0, 10);
	volatile uint64_t *cur = (volatile uint64_t *) mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	*cur = from;
	while (*cur < to) {
		pid_t p = fork();
		if (!p) {
			int fd = open(path, O_WRONLY | O_CREAT | O_APPEND, 0644);
			for (uint64_t s = *cur; s < to; s++) {
				*cur = s;
				alarm(tmo);
				text o;
				fn(suite, s, o);
				o += "\n";
				size_t k = 0;
				while (k < o.size()) { ssize_t n = ::write(fd, o.data() + k, o.size() - k); if (n <= 0) break; k += n; }
			}
			*cur = to;
			_exit(0);
		}
		int st; waitpid(p, &st, 0);
		if (*cur < to) {
			int fd = open(path, O_WRONLY | O_CREAT | O_APPEND, 0644);
			text o;
			const char *why = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "it hangs" : "signal") : WEXITSTATUS(st) == 99 || WEXITSTATUS(st) == 98 ? "invalid access to memory or undefined operation" : "it exits";
			o.f("{\"sd\":%llu,\"died\":%d,\"why\":\"%s\"}\n", (unsigned long long) *cur, st, why);
			if (::write(fd, o.data(), o.size()) < 0) {}
			close(fd);
			*cur = *cur + 1;
		}
	}
	return 0;
}

} // namespace hl
