// Runtime side of the Win32 shim. The calls that reach outside the process for
// entropy, and page allocation, are counted here and can be made to fail.
#include "verif_rt.h"
#include "win32_shim.h"
#include <atomic>
#include <map>
#include <mutex>
#include <malloc.h>

namespace verif
{
	std::atomic<int> rt_fail_crypt{0};       // 1: acquire fails, 2: generate fails
	std::atomic<int> rt_fail_rdrand{0};      // 1: step always reports failure
	std::atomic<uint64_t> rt_crypt_bytes{0};
	std::atomic<uint64_t> rt_rd_words{0};
	std::atomic<uint64_t> rt_det{0};         // non-zero: deterministic entropy stream (seed)
	std::atomic<int> rt_fail_valloc{0}, rt_fail_vlock{0};
	std::atomic<int64_t> rt_allow{-1};       // not negative: entropy requests still answered, all later ones fail
	std::atomic<int> rt_stuck{0};            // not zero: the sources return this byte only
	std::atomic<int64_t> rt_flip{-1};        // not negative: the entropy byte of this index has its low bit inverted
	std::atomic<int64_t> rt_total{0};        // entropy bytes returned
	std::atomic<int64_t> rt_requests{0};     // entropy requests made
}
using namespace verif;

static uint64_t splitmix(std::atomic<uint64_t>& s) { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

static void fill(void* p, size_t n)
{
	unsigned char* b = (unsigned char*)p;
	struct Flip { unsigned char* b; size_t n; ~Flip() { int64_t o = rt_total.fetch_add((int64_t)n), f = rt_flip.load(); if (f >= o && f < o + (int64_t)n) b[f - o] ^= 1; } } flip{ b, n };
	if (rt_stuck.load()) { memset(p, rt_stuck.load(), n); return; }
	if (rt_det.load() != 0)
	{
		while (n) { uint64_t v = splitmix(rt_det); size_t k = n < 8 ? n : 8; memcpy(b, &v, k); b += k; n -= k; }
		return;
	}
	while (n) { ssize_t k = getrandom(b, n > 256 ? 256 : n, 0); if (k <= 0) abort(); b += k; n -= (size_t)k; }
}

static bool refused()
{
	++rt_requests;
	int64_t a = rt_allow.load();
	if (a < 0) return false;
	if (a == 0) return true;
	rt_allow = a - 1;
	return false;
}

int verif_rdrand(int, int width, void* out)
{
	if (rt_fail_rdrand.load() || refused()) { memset(out, 0, (size_t)width); return 0; }
	fill(out, (size_t)width); ++rt_rd_words; return 1;
}

BOOL CryptAcquireContextW(HCRYPTPROV* h, LPCWSTR, LPCWSTR, DWORD, DWORD) { if (rt_fail_crypt.load() == 1) return 0; *h = 7; return 1; }
BOOL CryptGenRandom(HCRYPTPROV, DWORD n, BYTE* p) { if (rt_fail_crypt.load() == 2 || refused()) return 0; fill(p, n); rt_crypt_bytes += n; return 1; }
BOOL CryptReleaseContext(HCRYPTPROV, DWORD) { return 1; }

// Locked pages are only given out to harnesses that ask for them (by defining verif_locked_pages): elsewhere secure
// vectors come from the heap, where AddressSanitizer sees their bounds.
extern "C" { extern int verif_locked_pages __attribute__((weak)); }
static std::mutex& g_vm = *new std::mutex; static std::map<void*, size_t>& g_vmap = *new std::map<void*, size_t>; static std::map<void*, size_t>& g_locked = *new std::map<void*, size_t>;
BOOL VirtualLock(void* p, SIZE_T n) { if (rt_fail_vlock.load()) return 0; std::lock_guard<std::mutex> l(g_vm); g_locked[p] = n; return 1; }
BOOL VirtualUnlock(void* p, SIZE_T) { std::lock_guard<std::mutex> l(g_vm); return g_locked.erase(p) != 0; }
size_t verif::rt_pages(bool locked) { std::lock_guard<std::mutex> l(g_vm); return locked ? g_locked.size() : g_vmap.size(); }
bool verif::rt_locked(const void* p, size_t n)
{
	std::lock_guard<std::mutex> l(g_vm);
	for (auto& i : g_locked) if ((const char*)p >= (const char*)i.first && (const char*)p + n <= (const char*)i.first + i.second) return true;
	return false;
}
void* VirtualAlloc(void*, SIZE_T n, DWORD, DWORD) { if (!&verif_locked_pages || rt_fail_valloc.load()) return nullptr; void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) return nullptr; std::lock_guard<std::mutex> l(g_vm); g_vmap[p] = n; return p; }
BOOL VirtualFree(void* p, SIZE_T, DWORD) { std::lock_guard<std::mutex> l(g_vm); auto i = g_vmap.find(p); if (i == g_vmap.end()) return 0; munmap(p, i->second); g_vmap.erase(i); return 1; }

void* _aligned_realloc(void* p, size_t n, size_t a) { void* q = nullptr; if (posix_memalign(&q, a < sizeof(void*) ? sizeof(void*) : a, n)) return nullptr; if (p) { size_t o = malloc_usable_size(p); memcpy(q, p, o < n ? o : n); free(p); } return q; }

static thread_local int t_wsa = 0;
int WSAGetLastError()
{
	switch (errno) { case EAGAIN: return WSAEWOULDBLOCK; case ECONNRESET: return WSAECONNRESET; case ENOTCONN: return WSAENOTCONN; case EINVAL: return WSAEINVAL; case EADDRINUSE: return WSAEADDRINUSE; default: return t_wsa; }
}
void WSASetLastError(int e) { t_wsa = e; }
