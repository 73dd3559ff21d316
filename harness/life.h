// Life-time monitor (AddressSanitizer builds): which heap blocks are alive, where they were made, and the
// possibility to let the n-th request fail.
#pragma once
#include "h.h"
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <atomic>
#include <mutex>
#include <new>
#ifdef VERIF_COV // no sanitizer runtime in the coverage build
extern "C" { __attribute__((weak)) int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) { return 0; } __attribute__((weak)) void __sanitizer_symbolize_pc(void*, const char*, char* b, size_t) { *b = 0; } __attribute__((weak)) size_t __asan_get_alloc_stack(void*, void**, size_t, int*) { return 0; } }
#endif
namespace life
{
	const size_t SLOTS = 1 << 20, DEPTH = 14;
	struct Slot { const volatile void* p; size_t n; };
	inline Slot* table = nullptr;
	inline std::atomic<bool> armed{false};
	inline std::mutex lock;
	inline thread_local bool inside = false;
	inline std::atomic<int64_t> countdown{-1}; inline std::atomic<uint64_t> requests{0}, failed{0}, made{0};
	inline size_t slot(const volatile void* p) { return (vh::mix((uint64_t)p) * SLOTS) >> 44 & (SLOTS - 1); }
	__attribute__((no_sanitize("address", "undefined"))) inline void frames(const void** pc)
	{
		void** fp = (void**)__builtin_frame_address(0); size_t i = 0;
		char* top = (char*)fp + (1 << 20);
		while (i < DEPTH && fp && ((uintptr_t)fp & 7) == 0 && (char*)fp < top) { void* ra = fp[1]; if (!ra) break; pc[i++] = ra; void** nx = (void**)fp[0]; if (nx <= fp) break; fp = nx; }
		while (i < DEPTH) pc[i++] = nullptr;
	}
	__attribute__((no_sanitize("address"))) inline void onAlloc(const volatile void* p, size_t n)
	{
		if (!armed.load() || inside || !p) return;
		inside = true; lock.lock();
		++made;
		size_t s = slot(p); for (size_t k = 0; k < 64; ++k, s = (s + 1) & (SLOTS - 1)) if (!table[s].p || table[s].p == (void*)1) { table[s].p = p; table[s].n = n; break; }
		lock.unlock(); inside = false;
	}
	__attribute__((no_sanitize("address"))) inline void onFree(const volatile void* p)
	{
		if (!armed.load() || inside || !p) return;
		inside = true; lock.lock();
		size_t s = slot(p); for (size_t k = 0; k < 64; ++k, s = (s + 1) & (SLOTS - 1)) { if (table[s].p == p) { table[s].p = (void*)1; break; } if (!table[s].p) break; }
		lock.unlock(); inside = false;
	}
	inline void start()
	{
		if (!table) { table = (Slot*)calloc(SLOTS, sizeof(Slot)); __sanitizer_install_malloc_and_free_hooks(onAlloc, onFree); }
		else memset(table, 0, SLOTS * sizeof(Slot));
		made = 0; armed = true;
	}
	// stops watching; the library function that made the first block still alive, or nothing
	inline std::string stop(size_t* blocks, size_t* bytes, std::string* where)
	{
		armed = false; *blocks = 0; *bytes = 0; std::string who;
		for (size_t s = 0; s < SLOTS; ++s)
		{
			if (!table[s].p || table[s].p == (void*)1) continue;
			std::string first, chain; void* pc[30]; int tid; size_t deep = __asan_get_alloc_stack((void*)table[s].p, pc, 30, &tid);     // the sanitizer knows who asked for it
			for (size_t i = 0; i < deep; ++i)
			{
				char b[600]; __sanitizer_symbolize_pc((void*)((char*)pc[i] - 1), "%f %s:%l", b, sizeof b);
				std::string t = b;
				if (chain.empty() && (t.find("pthread_create") != std::string::npos || t.find("allocate_tls") != std::string::npos)) break;      // the thread library keeps the stacks of finished threads
				if (t.find("/CEX/") != std::string::npos) { chain += t.substr(t.rfind('/') + 1) + " < "; if (first.empty()) { first = t.substr(0, t.find('(')); size_t sp = first.find(' '); if (sp != std::string::npos && t.find('(') == std::string::npos) first = first.substr(0, sp); } }
			}
			if (first.empty()) continue;      // not made by the library (thread stacks, the harness)
			++*blocks; *bytes += table[s].n;
			if (who.empty()) { who = first; *where = chain.substr(0, 300); }
		}
		return who;
	}
}
