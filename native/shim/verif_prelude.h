// Force-included before every CEX source: selects the same configuration the
// repository's own build selects (MSVC/Windows/AVX2, no OpenMP) on native Linux.
#pragma once
#include <algorithm>
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <iostream>
#include <memory>
#include <string>
#include <vector>
#include <functional>
#include <thread>
#include <mutex>
#include <cpuid.h>
#include <immintrin.h>
#include <x86intrin.h>
static inline void* _aligned_malloc(size_t n, size_t a) { void* p = nullptr; return posix_memalign(&p, a < sizeof(void*) ? sizeof(void*) : a, n) == 0 ? p : nullptr; }
static inline void _aligned_free(void* p) { free(p); }
void* _aligned_realloc(void* p, size_t n, size_t a);
#define VERIF_STR2(x) #x
#define VERIF_STR(x) VERIF_STR2(x)
#ifndef VERIF_REPO
#	define VERIF_REPO /repo
#endif
#define VERIF_REPO_CEX(f) VERIF_STR(VERIF_REPO/CEX/f)
#define _MSC_VER 1930
#define _WIN32 1
#define _WIN64 1
#pragma push_macro("__SIZEOF_INT128__")
#undef __SIZEOF_INT128__
#include VERIF_REPO_CEX(CexConfig.h)
#pragma pop_macro("__SIZEOF_INT128__")
#undef _MSC_VER
#undef _WIN32
#undef _WIN64
#undef CEX_OPTIMIZE_IGNORE
#undef CEX_OPTIMIZE_RESUME
#define CEX_OPTIMIZE_IGNORE
#define CEX_OPTIMIZE_RESUME
#define _mm_load_si128 _mm_loadu_si128
#define _mm_store_si128 _mm_storeu_si128
#define _mm256_load_si256 _mm256_loadu_si256
#define _mm256_store_si256 _mm256_storeu_si256
#define _XCR_XFEATURE_ENABLED_MASK 0
#undef __cpuid
static inline void verif_cpuid(int* r, int leaf, int sub) { unsigned a, b, c, d; __cpuid_count(leaf, sub, a, b, c, d); r[0] = (int)a; r[1] = (int)b; r[2] = (int)c; r[3] = (int)d; }
#define __cpuid(r, leaf) verif_cpuid((int*)(r), (int)(leaf), 0)
#define __cpuidex(r, leaf, sub) verif_cpuid((int*)(r), (int)(leaf), (int)(sub))
static inline unsigned long long verif_umul128(unsigned long long x, unsigned long long y, void* hi) { unsigned __int128 p = (unsigned __int128)x * y; unsigned long long h = (unsigned long long)(p >> 64); memcpy(hi, &h, 8); return (unsigned long long)p; }
#define _umul128(x, y, h) verif_umul128((x), (y), (h))
// hardware RNG steps: observable and fault-injectable
int verif_rdrand(int seed, int width, void* out);
#undef _rdseed64_step
#define _rdseed64_step(p) verif_rdrand(1, 8, (p))
#define _rdrand64_step(p) verif_rdrand(0, 8, (p))
#define _rdseed32_step(p) verif_rdrand(1, 4, (p))
#define _rdrand32_step(p) verif_rdrand(0, 4, (p))
