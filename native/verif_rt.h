#pragma once
#include <atomic>
#include <cstdint>
namespace verif
{
	extern std::atomic<int> rt_fail_crypt, rt_fail_rdrand, rt_fail_valloc, rt_fail_vlock;
	extern std::atomic<uint64_t> rt_crypt_bytes, rt_rd_words, rt_det;
	extern std::atomic<int64_t> rt_allow, rt_flip, rt_total, rt_requests;
	extern std::atomic<int> rt_stuck;
	// the number of page ranges allocated or locked, and whether a range lies in locked pages
	size_t rt_pages(bool locked);
	bool rt_locked(const void* p, size_t n);
	// no faults, real entropy
	inline void rt_reset() { rt_fail_crypt = 0; rt_fail_rdrand = 0; rt_fail_valloc = 0; rt_fail_vlock = 0; rt_det = 0; rt_allow = -1; rt_flip = -1; rt_stuck = 0; rt_total = 0; rt_requests = 0; }
}
