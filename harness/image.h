// Writes the memory of this process as an ELF core file.
#pragma once
#include <elf.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <string>
#include <vector>
#include "prng.h"

struct image {
	struct seg { uint64_t a, n; };
	std::vector<seg> segs;
	static bool touched(int pm, uint64_t a)
	{
		static uint64_t c[512], at = ~0ull;
		uint64_t p = a / 4096;
		if (at == ~0ull || p < at || p >= at + 512) { at = p; if (pread(pm, c, sizeof(c), p * 8) <= 0) memset(c, 255, sizeof(c)); }
		return c[p - at] >> 62;
	}

	// all: also read-only pages of files
	explicit image(bool all)
	{
		int pm = open("/proc/self/pagemap", O_RDONLY);
		static char b[1 << 20]; size_t n = 0; ssize_t k;
		int fd = open("/proc/self/maps", O_RDONLY);
		while (n < sizeof(b) - 1 && (k = read(fd, b + n, sizeof(b) - 1 - n)) > 0) n += k;
		close(fd); b[n] = 0;
		for (char *l = strtok(b, "\n"); l; l = strtok(0, "\n")) {
			unsigned long a, e, off, ino; char pr[8], dev[16]; int at = 0;
			if (sscanf(l, "%lx-%lx %7s %lx %15s %lu %n", &a, &e, pr, &off, dev, &ino, &at) < 6) continue;
			if (pr[0] != 'r' || strchr(l + at, '[') ? strncmp(l + at, "[heap", 5) && strncmp(l + at, "[stack", 6) : 0) continue;
			if (pr[3] == 's') continue;
			if (pr[1] != 'w' && !(all && ino && !strstr(l + at, ".so"))) continue;
			// long runs of untouched pages are left out
			uint64_t start = a, run = 0;
			for (uint64_t q = a; !ino && e - a > (4 << 20) && q < e; q += 4096) {
				if (touched(pm, q)) { run = 0; continue; }
				if (!run) run = q;
				if (q - run != (1 << 20)) continue;
				if (run > start) segs.push_back({ start, run - start });
				while (q < e && !touched(pm, q)) q += 4096;
				start = q; run = 0; q -= 4096;
			}
			if (start < e) segs.push_back({ start, e - start });
		}
		close(pm);
	}
	// adjacent pieces
	void split(hl::prng &g, unsigned n)
	{
		while (n--) {
			size_t i = g(segs.size());
			if (segs[i].n < 8192) continue;
			uint64_t k = (1 + g(segs[i].n / 4096 - 1)) * 4096;
			segs.insert(segs.begin() + i + 1, { segs[i].a + k, segs[i].n - k });
			segs[i].n = k;
		}
	}
	void write(const char *path)
	{
		struct { Elf64_Nhdr h; char name[8]; char d[136]; } note;
		memset(&note, 0, sizeof(note));
		note.h.n_namesz = 5; note.h.n_descsz = 136; note.h.n_type = NT_PRPSINFO; strcpy(note.name, "CORE");
		strcpy(note.d + 40, "harness"); strcpy(note.d + 56, "harness");
		std::vector<Elf64_Phdr> ph(segs.size() + 1);
		memset(&ph[0], 0, ph.size() * sizeof(ph[0]));
		Elf64_Ehdr eh; memset(&eh, 0, sizeof(eh));
		memcpy(eh.e_ident, ELFMAG, 4); eh.e_ident[4] = ELFCLASS64; eh.e_ident[5] = ELFDATA2LSB; eh.e_ident[6] = EV_CURRENT;
		eh.e_type = ET_CORE; eh.e_machine = EM_X86_64; eh.e_version = EV_CURRENT; eh.e_phoff = sizeof(eh); eh.e_ehsize = sizeof(eh); eh.e_phentsize = sizeof(Elf64_Phdr); eh.e_phnum = ph.size();
		uint64_t off = sizeof(eh) + ph.size() * sizeof(Elf64_Phdr);
		ph[0].p_type = PT_NOTE; ph[0].p_offset = off; ph[0].p_filesz = sizeof(note); ph[0].p_align = 4;
		off = (off + sizeof(note) + 4095) & ~4095ull;
		uint64_t first = off;
		for (size_t i = 0; i < segs.size(); i++) {
			Elf64_Phdr &p = ph[i + 1];
			p.p_type = PT_LOAD; p.p_flags = PF_R | PF_W; p.p_offset = off; p.p_vaddr = segs[i].a; p.p_filesz = p.p_memsz = segs[i].n; p.p_align = 4096;
			off += segs[i].n;
		}
		int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
		if (::write(fd, &eh, sizeof(eh)) < 0 || ::write(fd, &ph[0], ph.size() * sizeof(ph[0])) < 0 || ::write(fd, &note, sizeof(note)) < 0) {}
		lseek(fd, first, SEEK_SET);
		for (auto &s : segs) { uint64_t k = 0; while (k < s.n) { ssize_t n = ::write(fd, (char *) s.a + k, s.n - k); if (n <= 0) break; k += n; } }
		close(fd);
	}
};
