#include "h.h"
#include "CryptoException.h"
#include <exception>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cxxabi.h>
#include <typeinfo>
#include <mutex>

extern "C" __attribute__((weak)) int __llvm_profile_write_file(void);
namespace vh
{
	Cfg cfg;
	struct Shared { std::atomic<uint64_t> next; std::atomic<uint32_t> stop; };
	static Shared* shared = nullptr;
	static char* current = nullptr;
	static std::string outdir, worker = "0", casename;
	static uint64_t claimed = 0, index = 0, evals = 0, ran = 0;
	static bool have = false;
	static std::unordered_set<uint64_t> sigs;
	static std::map<std::string, uint64_t> counters;
	static std::map<std::string, int> failures;
	static std::vector<std::string> samples;
	static uint64_t totalFails = 0;

	uint64_t mix(uint64_t x) { x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ULL; x ^= x >> 27; x *= 0x94D049BB133111EBULL; return x ^ (x >> 31); }
	uint64_t hash(const void* p, size_t n, uint64_t h) { const uint8_t* b = (const uint8_t*)p; for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ULL; } return mix(h ^ n); }
	uint64_t Rng::next() { s += 0x9E3779B97F4A7C15ULL; return mix(s); }
	Bytes Rng::bytes(size_t n) { Bytes b(n); for (size_t i = 0; i < n; i += 8) { uint64_t v = next(); memcpy(b.data() + i, &v, n - i < 8 ? n - i : 8); } return b; }
	size_t Rng::length(size_t block, size_t maxBlocks)
	{
		switch (below(8))
		{
			case 0: return below(block + 1);
			case 1: return block * range(0, maxBlocks);
			case 2: { size_t n = block * range(1, maxBlocks); return n - 1; }
			case 3: return block * range(0, maxBlocks) + 1;
			case 4: return range(0, 2 * block + 2);
			default: return range(0, block * maxBlocks);
		}
	}

	std::string strf(const char* fmt, ...) { char b[4096]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); return b; }
	std::string hex(const uint8_t* p, size_t n, size_t max)
	{
		static const char* d = "0123456789abcdef"; std::string s;
		for (size_t i = 0; i < n && i < max; ++i) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
		if (n > max) s += strf("..(%zu bytes)", n);
		return s;
	}
	Bytes unhex(const std::string& s) { Bytes b; auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }; for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((uint8_t)(v(s[i]) << 4 | v(s[i + 1]))); return b; }

	// cases may report from several threads
	static std::recursive_mutex reports;
	#define LOCKED std::lock_guard<std::recursive_mutex> locked(reports)
	void fail(const std::string& key, const char* fmt, ...)
	{
		LOCKED;
		char b[3000]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
		++totalFails;
		if (failures[key]++ < 2) { for (char* p = b; *p; ++p) if (*p == '\n' || *p == '\t') *p = ' '; printf("FAIL\t%s\t%s\t%s\n", key.c_str(), casename.c_str(), b); fflush(stdout); }
	}
	void seen(uint64_t s) { LOCKED; ++evals; if (sigs.size() < 400000) sigs.insert(s); }
	void count(const std::string& w, uint64_t n) { LOCKED; counters[w] += n; }
	void sample(const std::string& s) { LOCKED; if (samples.size() < 4) samples.push_back(s.substr(0, 400)); }
	bool same(const std::string& key, const Bytes& got, const Bytes& want, const std::string& ctx)
	{
		if (got == want) return true;
		size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
		fail(key, "%s: sizes %zu/%zu, first difference at %zu: got %s want %s", ctx.c_str(), got.size(), want.size(), i,
			i < got.size() ? hex(got.data() + i, got.size() - i, 16).c_str() : "-", i < want.size() ? hex(want.data() + i, want.size() - i, 16).c_str() : "-");
		return false;
	}
	bool expect(bool c, const std::string& key, const char* fmt, ...)
	{
		if (!c) { char b[2000]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); fail(key, "%s", b); }
		return c;
	}

	static std::string describe()
	{
		try { throw; }
		catch (CEX::Exception::CryptoException& e) { return std::string("CryptoException: ") + e.Location() + " " + e.Name() + " " + e.Message(); }
		catch (std::exception& e) { int st; char* d = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st); std::string s = std::string(d ? d : typeid(e).name()) + ": " + e.what(); free(d); return s; }
		catch (...) { auto t = abi::__cxa_current_exception_type(); int st; char* d = t ? abi::__cxa_demangle(t->name(), 0, 0, &st) : nullptr; std::string s = d ? d : "unknown exception"; free(d); return s; }
	}
	Outcome outcome(const std::function<void()>& f, std::string* e)
	{
		try { f(); return Returned; }
		catch (CEX::Exception::CryptoException&) { if (e) *e = describe(); return Threw; }
		catch (...) { std::string d = describe(); if (e) *e = d; return d.find("Exception") != std::string::npos && d.find("Crypto") != std::string::npos ? Threw : ThrewForeign; }
	}

	static void onAlarm(int) { static const char m[] = "\nHANG\n"; if (write(1, m, sizeof m - 1)) {} _exit(98); }

	bool part(const char* p) { return cfg.part.empty() || ("," + cfg.part + ",").find(std::string(",") + p + ",") != std::string::npos; }

	void run(const std::string& name, const std::function<void(Rng&)>& f)
	{
		if (!cfg.only.empty()) { if (name != cfg.only) return; }
		else
		{
			uint64_t i = index++;
			if (!have) { claimed = shared ? shared->next.fetch_add(1) : i; have = true; }
			if (i != claimed) return;
			have = false;
			if (shared && shared->stop.load()) { count("cases not run (time budget)"); return; }
		}
		casename = name;
		if (current) { strncpy(current, name.c_str(), 1023); current[1023] = 0; }
		alarm(cfg.limit);
		Rng r(hash(name) ^ mix(cfg.seed));
		verif::rt_reset();
		try { f(r); }
		catch (...) { fail("exception:" + name.substr(0, name.find('#')), "unexpected exception %s", describe().c_str()); }
		alarm(0);
		verif::rt_reset();
		++ran;
	}
}

int main(int argc, char** argv)
{
	using namespace vh;
	std::string sh;
	for (int i = 1; i + 1 < argc; i += 2)
	{
		std::string k = argv[i], v = argv[i + 1];
		if (k == "--seed") cfg.seed = strtoull(v.c_str(), 0, 10);
		else if (k == "--tier") cfg.thorough = v == "thorough";
		else if (k == "--scale") cfg.scale = atof(v.c_str());
		else if (k == "--part") cfg.part = v;
		else if (k == "--only") cfg.only = v;
		else if (k == "--limit") cfg.limit = (unsigned)atoi(v.c_str());
		else if (k == "--out") outdir = v;
		else if (k == "--worker") worker = v;
	}
	if (!outdir.empty())
	{
		int fd = open((outdir + "/shared").c_str(), O_RDWR | O_CREAT, 0644);
		if (ftruncate(fd, 4096)) return 2;
		shared = (Shared*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		fd = open((outdir + "/current." + worker).c_str(), O_RDWR | O_CREAT, 0644);
		if (ftruncate(fd, 1024)) return 2;
		current = (char*)mmap(0, 1024, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	}
	signal(SIGALRM, onAlarm);
	signal(SIGPIPE, SIG_IGN);
	cases();
	if (!outdir.empty())
	{
		FILE* f = fopen((outdir + "/evid." + worker).c_str(), "w");
		if (f)
		{
			fprintf(f, "cases\t%llu\nevals\t%llu\n", (unsigned long long)ran, (unsigned long long)evals);
			for (auto& c : counters) fprintf(f, "count\t%s\t%llu\n", c.first.c_str(), (unsigned long long)c.second);
			for (auto& s : samples) { std::string t; for (char c : s) t += c == '\n' || c == '\t' ? ' ' : c; fprintf(f, "sample\t%s\n", t.c_str()); }
			for (auto s : sigs) fprintf(f, "s\t%llx\n", (unsigned long long)s);
			fclose(f);
		}
	}
	printf("DONE cases=%llu evals=%llu distinct=%zu fails=%llu\n", (unsigned long long)ran, (unsigned long long)evals, sigs.size(), (unsigned long long)totalFails);
	fflush(stdout);
	if (__llvm_profile_write_file) __llvm_profile_write_file();      // only in the coverage build
	_exit(totalFails ? 1 : 0);
}

#ifdef VERIF_ODD
// operator new promises 16 byte alignment and nothing about the content: give exactly that
#include <cstdlib>
#include <cstring>
#include <new>
static void* odd(size_t n)
{
	char* p = nullptr;
	if (n > (size_t)1 << 40 || posix_memalign((void**)&p, 32, n + 48)) throw std::bad_alloc();
	memcpy(p + 8, &n, sizeof(n));
	memset(p + 16, 0xA5, n);
	memset(p + 16 + n, 0x3C, 16);
	return p + 16;
}
static void odder(void* v) noexcept
{
	if (!v) return;
	char* p = (char*)v - 16;
	size_t n;
	memcpy(&n, p + 8, sizeof(n));
	for (int i = 0; i < 16; ++i) if (p[16 + n + i] != 0x3C) { fprintf(stdout, "\nwrite past the end of a heap block of %zu bytes\n", n); fflush(stdout); abort(); }
	memset(p + 16, 0x5A, n);
	free(p);
}
void* operator new(size_t n) { return odd(n); }
void* operator new[](size_t n) { return odd(n); }
void operator delete(void* p) noexcept { odder(p); }
void operator delete[](void* p) noexcept { odder(p); }
void operator delete(void* p, size_t) noexcept { odder(p); }
void operator delete[](void* p, size_t) noexcept { odder(p); }
#endif
