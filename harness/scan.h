// Dead-memory monitor (AddressSanitizer builds): every heap block is searched for registered secrets at the
// moment it is given back. The tables are fixed arrays, so that watching allocates nothing itself.
#pragma once
#include "h.h"
#include <sanitizer/allocator_interface.h>
#include <atomic>
#include <cstring>
namespace scan
{
	const size_t MAXSEC = 64, WIN = 12;
	struct Secret { const uint8_t* p; size_t n; };
	inline uint8_t store[1 << 18]; inline size_t used = 0;
	inline Secret secrets[MAXSEC]; inline size_t nsec = 0;
	inline std::atomic<bool> armed{false};
	inline thread_local bool inside = false;
	inline std::atomic<uint64_t> blocks{0}, bytes{0}, hits{0};
	inline size_t hitSize = 0, hitAt = 0;
	inline uint64_t words[1 << 16 >> 6];        // which 16-bit prefixes start some window
	inline bool dirty(const uint8_t* p, size_t n, size_t* at)
	{
		if (n < WIN) return false;
		for (size_t i = 0; i + WIN <= n; ++i)
		{
			unsigned w = p[i] | p[i + 1] << 8;
			if (!(words[w >> 6] >> (w & 63) & 1)) continue;
			for (size_t s = 0; s < nsec; ++s)
				for (size_t j = 0; j + WIN <= secrets[s].n; ++j)
					if (memcmp(p + i, secrets[s].p + j, WIN) == 0) { *at = i; return true; }
		}
		return false;
	}
	__attribute__((no_sanitize("address"))) inline void onFree(const volatile void* v)
	{
		if (!armed.load() || inside || !v) return;
		inside = true;
		size_t n = __sanitizer_get_allocated_size(v);
		++blocks; bytes += n;
		size_t at = 0;
		if (n <= (1 << 20) && dirty((const uint8_t*)v, n, &at) && hits++ == 0) { hitSize = n; hitAt = at; }
		inside = false;
	}
	inline void onAlloc(const volatile void*, size_t) {}
	inline void install() { static bool once = false; if (!once) { once = true; __sanitizer_install_malloc_and_free_hooks(onAlloc, onFree); } }
	inline void forget() { armed = false; nsec = 0; used = 0; memset(words, 0, sizeof(words)); hits = 0; hitSize = 0; }
	inline void add(const uint8_t* p, size_t n)
	{
		if (nsec == MAXSEC || n < WIN || used + n > sizeof(store)) return;
		memcpy(store + used, p, n);
		secrets[nsec++] = { store + used, n };
		for (size_t j = 0; j + WIN <= n; ++j) { unsigned w = p[j] | p[j + 1] << 8; words[w >> 6] |= 1ull << (w & 63); }
		used += n;
	}
	inline void add(const vh::Bytes& b) { add(b.data(), b.size()); }
}
