// Input placed so that the byte after it cannot be read.
#pragma once
#include <sys/mman.h>
#include <cstdint>
#include <cstring>
#include <cstddef>
#include <vector>
struct Guard {
	uint8_t *base; size_t cap; 
	explicit Guard(size_t pages = 64)
	{
		cap = pages * 4096; base = (uint8_t *)mmap(nullptr, cap + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		mprotect(base + cap, 4096, PROT_NONE);
	}
	const uint8_t *put(const uint8_t *p, size_t n) { uint8_t *d = base + cap - n; if(n) memcpy(d, p, n); return d; }
	const uint8_t *put(const std::vector<uint8_t> &b) { return put(b.data(), b.size()); }
};
inline Guard &guardPage() { static Guard g; return g; }
