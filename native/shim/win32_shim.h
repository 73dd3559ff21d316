// Minimal Win32 surface over POSIX, so the CEX sources (whose only buildable
// configuration is the Windows one) can be compiled natively for the sanitizers.
// Semantics follow the Win32 documentation for the calls CEX makes; system
// inventory calls (tool-help, registry, tokens) return small fixed inventories.
#ifndef VERIF_WIN32_SHIM_H
#define VERIF_WIN32_SHIM_H
#include <cstdint>
#include <cstring>
#include <cwchar>
#include <ctime>
#include <string>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/sysinfo.h>
#include <sys/syscall.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <errno.h>

typedef uint32_t DWORD; typedef int32_t LONG; typedef uint32_t ULONG; typedef int BOOL; typedef unsigned char BYTE;
typedef wchar_t WCHAR; typedef wchar_t TCHAR; typedef const TCHAR* LPCTSTR; typedef TCHAR* LPTSTR; typedef int INT; typedef unsigned UINT;
typedef void* HANDLE; typedef void* HMODULE; typedef void* HKEY; typedef LONG LSTATUS; typedef size_t SIZE_T; typedef char* PSTR; typedef char* LPSTR;
typedef void* LPVOID; typedef void* PVOID; typedef void VOID; typedef uintptr_t ULONG_PTR; typedef DWORD* LPDWORD; typedef DWORD* PDWORD; typedef long long LONGLONG; typedef unsigned long long ULONGLONG;
typedef wchar_t* LPWSTR; typedef const wchar_t* LPCWSTR; typedef const char* LPCSTR; typedef void* PSID; typedef void* HCRYPTPROV_; typedef uintptr_t HCRYPTPROV;
typedef unsigned short WORD; typedef int errno_t_;
#define WINAPI
#define CALLBACK
#define TRUE 1
#define FALSE 0
#define TEXT(x) L##x
#define _T(x) L##x
#define MAX_COMPUTERNAME_LENGTH 15
#define UNLEN 256
#define MAX_PATH 260
#define NO_ERROR 0
#define ERROR_SUCCESS 0
#define ERROR_BUFFER_OVERFLOW 111
#define ERROR_CALL_NOT_IMPLEMENTED 120
#define ERROR_INSUFFICIENT_BUFFER 122
#define INVALID_HANDLE_VALUE ((HANDLE)(intptr_t)-1)
#define ZeroMemory(p,n) memset((p),0,(n))
typedef union { struct { DWORD LowPart; LONG HighPart; }; LONGLONG QuadPart; } LARGE_INTEGER;
typedef union { struct { DWORD LowPart; DWORD HighPart; }; ULONGLONG QuadPart; } ULARGE_INTEGER;
typedef struct { DWORD dwLowDateTime, dwHighDateTime; } FILETIME;
typedef struct { LONG x, y; } POINT;
typedef struct { DWORD dwLength, dwMemoryLoad; ULONGLONG ullTotalPhys, ullAvailPhys, ullTotalPageFile, ullAvailPageFile, ullTotalVirtual, ullAvailVirtual, ullAvailExtendedVirtual; } MEMORYSTATUSEX;
typedef struct { DWORD dwOemId, dwPageSize; LPVOID lpMinimumApplicationAddress, lpMaximumApplicationAddress; ULONG_PTR dwActiveProcessorMask; DWORD dwNumberOfProcessors, dwProcessorType, dwAllocationGranularity; WORD wProcessorLevel, wProcessorRevision; } SYSTEM_INFO;
typedef struct { DWORD v[15]; } MIB_TCPSTATS;
typedef struct { struct { char String[16]; } IpAddress, IpMask; DWORD Context; } IP_ADDR_STRING;
typedef struct _IP_ADAPTER_INFO { IP_ADDR_STRING DhcpServer, IpAddressList, GatewayList; long long LeaseObtained, LeaseExpires; struct _IP_ADAPTER_INFO* Next; DWORD ComboIndex; char AdapterName[260]; char Description[132]; UINT AddressLength; BYTE Address[8]; DWORD Index; UINT Type; UINT DhcpEnabled; } IP_ADAPTER_INFO, *PIP_ADAPTER_INFO;
typedef struct { SIZE_T dwSize; HANDLE hHandle; ULONG_PTR dwAddress; SIZE_T dwBlockSize; DWORD dwFlags, dwLockCount, dwResvd, th32ProcessID; ULONG_PTR th32HeapID; } HEAPENTRY32;
typedef struct { SIZE_T dwSize; DWORD th32ProcessID; ULONG_PTR th32HeapID; DWORD dwFlags; } HEAPLIST32;
typedef struct { DWORD dwSize, th32ModuleID, th32ProcessID, GlblcntUsage, ProccntUsage; BYTE* modBaseAddr; DWORD modBaseSize; HMODULE hModule; TCHAR szModule[256]; TCHAR szExePath[260]; } MODULEENTRY32;
typedef struct { DWORD dwSize, cntUsage, th32ProcessID; ULONG_PTR th32DefaultHeapID; DWORD th32ModuleID, cntThreads, th32ParentProcessID; LONG pcPriClassBase; DWORD dwFlags; TCHAR szExeFile[260]; } PROCESSENTRY32;
typedef struct { DWORD dwSize, cntUsage, th32ThreadID, th32OwnerProcessID; LONG tpBasePri, tpDeltaPri; DWORD dwFlags; } THREADENTRY32;
typedef PROCESSENTRY32 PROCESSENTRY32W; typedef MODULEENTRY32 MODULEENTRY32W;
typedef struct { PVOID BaseAddress, AllocationBase; DWORD AllocationProtect; SIZE_T RegionSize; DWORD State, Protect, Type; } MEMORY_BASIC_INFORMATION;
typedef struct { PSID Sid; DWORD Attributes; } SID_AND_ATTRIBUTES; typedef struct { SID_AND_ATTRIBUTES User; } TOKEN_USER, *PTOKEN_USER; typedef enum { TokenUser = 1 } TOKEN_INFORMATION_CLASS;
#define TH32CS_SNAPHEAPLIST 1
#define TH32CS_SNAPPROCESS 2
#define TH32CS_SNAPTHREAD 4
#define TH32CS_SNAPMODULE 8
#define PAGE_NOACCESS 1
#define PAGE_READWRITE 4
#define PAGE_EXECUTE_READWRITE 0x40
#define PAGE_GUARD 0x100
#define MEM_COMMIT 0x1000
#define MEM_RESERVE 0x2000
#define MEM_RELEASE 0x8000
#define HKEY_CLASSES_ROOT ((HKEY)1)
#define KEY_READ 0x20019
#define TOKEN_QUERY 8
#define GET_MODULE_HANDLE_EX_FLAG_FROM_ADDRESS 4
#define PROV_RSA_FULL 1
#define CRYPT_VERIFYCONTEXT 0xF0000000u
#define CRYPT_SILENT 0x40
#define UNREFERENCED_PARAMETER(x) (void)(x)

static inline BOOL GetComputerName(TCHAR* b, DWORD* n) { const wchar_t* s = L"SANDBOX"; DWORD l = (DWORD)wcslen(s); if (*n <= l) return 0; wcscpy(b, s); *n = l; return 1; }
static inline BOOL GetUserName(TCHAR* b, DWORD* n) { const wchar_t* s = L"tester"; DWORD l = (DWORD)wcslen(s); if (*n <= l) return 0; wcscpy(b, s); *n = l + 1; return 1; }
static inline UINT GetDriveType(LPCTSTR) { return 3; }
static inline BOOL GetDiskFreeSpaceEx(LPCTSTR, ULARGE_INTEGER* a, ULARGE_INTEGER* b, ULARGE_INTEGER* c) { a->QuadPart = 1ull << 33; b->QuadPart = 1ull << 36; c->QuadPart = 1ull << 33; return 1; }
static inline void Sleep(DWORD ms) { struct timespec t = { (time_t)(ms / 1000), (long)(ms % 1000) * 1000000L }; nanosleep(&t, nullptr); }
static inline BOOL GlobalMemoryStatusEx(MEMORYSTATUSEX* m) { struct sysinfo s; sysinfo(&s); DWORD l = m->dwLength; memset(m, 0, sizeof(*m)); m->dwLength = l; m->ullTotalPhys = (ULONGLONG)s.totalram * s.mem_unit; m->ullAvailPhys = (ULONGLONG)s.freeram * s.mem_unit; m->ullTotalPageFile = m->ullTotalPhys; m->ullAvailPageFile = m->ullAvailPhys; m->ullTotalVirtual = 1ull << 47; m->ullAvailVirtual = 1ull << 46; return 1; }
static inline DWORD GetCurrentProcessId() { return (DWORD)getpid(); }
static inline DWORD GetCurrentThreadId() { return (DWORD)syscall(SYS_gettid); }
static inline BOOL QueryPerformanceCounter(LARGE_INTEGER* l) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); l->QuadPart = (LONGLONG)t.tv_sec * 10000000LL + t.tv_nsec / 100; return 1; }
static inline BOOL QueryPerformanceFrequency(LARGE_INTEGER* l) { l->QuadPart = 10000000; return 1; }
static inline void GetSystemTimeAsFileTime(FILETIME* f) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); uint64_t v = 116444736000000000ull + (uint64_t)t.tv_sec * 10000000ull + t.tv_nsec / 100; f->dwLowDateTime = (DWORD)v; f->dwHighDateTime = (DWORD)(v >> 32); }
static inline ULONGLONG GetTickCount64() { struct timespec t; clock_gettime(CLOCK_BOOTTIME, &t); return (ULONGLONG)t.tv_sec * 1000 + t.tv_nsec / 1000000; }
static inline HANDLE GetProcessHeap() { return (HANDLE)1; }
static inline void* HeapAlloc(HANDLE, DWORD, SIZE_T n) { return malloc(n); }
static inline BOOL HeapFree(HANDLE, DWORD, void* p) { free(p); return 1; }
static inline DWORD GetAdaptersInfo(PIP_ADAPTER_INFO p, ULONG* n) { if (!p || *n < sizeof(IP_ADAPTER_INFO)) { *n = sizeof(IP_ADAPTER_INFO); return ERROR_BUFFER_OVERFLOW; } memset(p, 0, sizeof(*p)); strcpy(p->AdapterName, "lo"); return NO_ERROR; }
static inline BOOL GetCursorPos(POINT* p) { p->x = 100; p->y = 100; return 1; }
static inline HANDLE CreateToolhelp32Snapshot(DWORD, DWORD) { return (HANDLE)2; }
static inline BOOL CloseHandle(HANDLE) { return 1; }
static inline BOOL Heap32ListFirst(HANDLE, HEAPLIST32*) { return 0; }
static inline BOOL Heap32ListNext(HANDLE, HEAPLIST32*) { return 0; }
static inline BOOL Heap32First(HEAPENTRY32*, DWORD, ULONG_PTR) { return 0; }
static inline BOOL Heap32Next(HEAPENTRY32*) { return 0; }
static inline BOOL Module32First(HANDLE, MODULEENTRY32* m) { DWORD s = m->dwSize; memset(m, 0, sizeof(*m)); m->dwSize = s; m->th32ProcessID = (DWORD)getpid(); m->hModule = (HMODULE)(void*)&Module32First; wcscpy(m->szModule, L"cex"); return 1; }
static inline BOOL Module32Next(HANDLE, MODULEENTRY32*) { return 0; }
static inline BOOL Process32First(HANDLE, PROCESSENTRY32* m) { DWORD s = m->dwSize; memset(m, 0, sizeof(*m)); m->dwSize = s; m->th32ProcessID = (DWORD)getpid(); m->cntThreads = 1; wcscpy(m->szExeFile, L"cex"); return 1; }
static inline BOOL Process32Next(HANDLE, PROCESSENTRY32*) { return 0; }
static inline BOOL Thread32First(HANDLE, THREADENTRY32* m) { DWORD s = m->dwSize; memset(m, 0, sizeof(*m)); m->dwSize = s; m->th32OwnerProcessID = (DWORD)getpid(); m->th32ThreadID = GetCurrentThreadId(); return 1; }
static inline BOOL Thread32Next(HANDLE, THREADENTRY32*) { return 0; }
static inline DWORD GetLogicalDriveStrings(DWORD, TCHAR* b) { memcpy(b, L"C:\\\0", 5 * sizeof(wchar_t)); return 4; }
static inline BOOL GetModuleHandleEx(DWORD, LPCTSTR, HMODULE* h) { *h = (HMODULE)1; return 1; }
static inline BOOL IsWindowsServer() { return 0; }
static inline BOOL IsWindowsVersionOrGreater(WORD, WORD, WORD) { return 1; }
static inline HANDLE GetCurrentProcess() { return (HANDLE)(intptr_t)-1; }
static inline HANDLE GetCurrentThread() { return (HANDLE)(intptr_t)-2; }
static inline SIZE_T VirtualQueryEx(HANDLE, const void* p, MEMORY_BASIC_INFORMATION* m, SIZE_T n) { memset(m, 0, n); m->BaseAddress = (void*)p; m->Protect = PAGE_READWRITE; return n; }
static inline BOOL VirtualProtectEx(HANDLE, void*, SIZE_T, DWORD, ULONG* o) { *o = PAGE_READWRITE; return 1; }
static inline LSTATUS RegOpenKeyEx(HKEY, LPCTSTR, DWORD, DWORD, HKEY* k) { *k = (HKEY)3; return 0; }
static inline LSTATUS RegEnumKeyEx(HKEY, DWORD i, TCHAR* n, DWORD* l, DWORD*, TCHAR*, DWORD*, FILETIME*) { if (i > 2) return 259; wcscpy(n, L"{11111111-2222-3333-4444-555555555555}"); n[1] += (wchar_t)i; *l = 38; return 0; }
static inline LSTATUS RegCloseKey(HKEY) { return 0; }
static inline void GetSystemInfo(SYSTEM_INFO* s) { memset(s, 0, sizeof(*s)); s->dwPageSize = 4096; s->dwNumberOfProcessors = (DWORD)sysconf(_SC_NPROCESSORS_ONLN); s->dwAllocationGranularity = 65536; }
static inline DWORD GetTcpStatistics(MIB_TCPSTATS* s) { memset(s, 0, sizeof(*s)); return 0; }
static inline BOOL OpenProcessToken(HANDLE, DWORD, HANDLE* h) { *h = (HANDLE)4; return 1; }
static inline DWORD GetLastError() { return (DWORD)ERROR_INSUFFICIENT_BUFFER; }
static inline BOOL GetTokenInformation(HANDLE, TOKEN_INFORMATION_CLASS, void* p, DWORD n, DWORD* l) { *l = sizeof(TOKEN_USER) + 32; if (!p || n < *l) return 0; memset(p, 0, n); ((TOKEN_USER*)p)->User.Sid = (char*)p + sizeof(TOKEN_USER); return 1; }
static inline BOOL ConvertSidToStringSid(PSID, LPTSTR* s) { *s = (LPTSTR)calloc(16, sizeof(wchar_t)); wcscpy(*s, L"S-1-5-21"); return 1; }
static inline HANDLE LocalFree(void* p) { free(p); return nullptr; }
static inline HANDLE GlobalFree(void* p) { free(p); return nullptr; }
static inline void* GlobalAlloc(UINT, SIZE_T n) { return calloc(1, n); }
static inline void* LocalAlloc(UINT, SIZE_T n) { return calloc(1, n); }
static inline BOOL IsValidSid(PSID p) { return p != nullptr; }
static inline BOOL GetProcessWorkingSetSize(HANDLE, SIZE_T* a, SIZE_T* b) { *a = 200 * 4096; *b = 345 * 4096; return 1; }
static inline BOOL GetThreadTimes(HANDLE, FILETIME* a, FILETIME* b, FILETIME* c, FILETIME* d) { GetSystemTimeAsFileTime(a); *b = *a; struct timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); uint64_t v = (uint64_t)t.tv_sec * 10000000ull + t.tv_nsec / 100; c->dwLowDateTime = (DWORD)v; c->dwHighDateTime = (DWORD)(v >> 32); *d = *c; return 1; }
static inline void* RtlSecureZeroMemory(void* p, SIZE_T n) { volatile unsigned char* v = (volatile unsigned char*)p; while (n--) *v++ = 0; return p; }
#define SecureZeroMemory RtlSecureZeroMemory
// page allocator with size bookkeeping in verif_rt.cpp
void* VirtualAlloc(void* p, SIZE_T n, DWORD type, DWORD prot);
BOOL VirtualFree(void* p, SIZE_T n, DWORD type);
BOOL VirtualLock(void* p, SIZE_T n);
BOOL VirtualUnlock(void* p, SIZE_T n);
// CryptoAPI: observable / fault-injectable in verif_rt.cpp
BOOL CryptAcquireContextW(HCRYPTPROV* h, LPCWSTR, LPCWSTR, DWORD, DWORD);
BOOL CryptGenRandom(HCRYPTPROV h, DWORD n, BYTE* p);
BOOL CryptReleaseContext(HCRYPTPROV h, DWORD);
// winsock
typedef uintptr_t SOCKET_; typedef struct { WORD a, b; char c[400]; } WSADATA; typedef struct sockaddr* LPSOCKADDR;
#define SD_RECEIVE 0
#define SD_SEND 1
#define SD_BOTH 2
static inline int WSAStartup(WORD, WSADATA*) { return 0; }
static inline int WSACleanup() { return 0; }
int WSAGetLastError();
void WSASetLastError(int);
static inline int closesocket(uintptr_t s) { return close((int)s); }
static inline int ioctlsocket(uintptr_t s, long c, unsigned long* a) { return ioctl((int)s, (unsigned long)c, a); }
static inline int WSAAddressToStringW(LPSOCKADDR, DWORD, void*, WCHAR* b, DWORD* n) { wcscpy(b, L"::1"); *n = 4; return 0; }
static const struct in6_addr in6addr_linklocalprefix = { { { 0xfe, 0x80 } } };
static inline int getsockname(uintptr_t s, struct sockaddr* a, int32_t* n) { socklen_t l = (socklen_t)*n; int r = getsockname((int)s, a, &l); *n = (int32_t)l; return r; }
static inline int getpeername(uintptr_t s, struct sockaddr* a, int32_t* n) { socklen_t l = (socklen_t)*n; int r = getpeername((int)s, a, &l); *n = (int32_t)l; return r; }
static inline uintptr_t accept(uintptr_t s, struct sockaddr* a, int32_t* n) { socklen_t l = (socklen_t)*n; int r = accept((int)s, a, &l); *n = (int32_t)l; return (uintptr_t)(intptr_t)r; }
static inline int verif_select(int n, fd_set* r, fd_set* w, fd_set* e, const struct timeval* t) { struct timeval c; if (t) c = *t; return ::select(n, r, w, e, t ? &c : (struct timeval*)nullptr); }
#define select verif_select
// the constants of Winsock where they differ: AF_INET6 is 23, MSG_WAITALL is 8; and a write to a closed peer raises no signal there
static inline int verif_socket(int f, int t, int p) { return ::socket(f == 23 ? AF_INET6 : f, t, p); }
static inline ssize_t verif_recv(uintptr_t s, void* b, size_t n, int f) { return ::recv((int)s, b, n, f & 8 ? (f & ~8) | MSG_WAITALL : f); }
static inline ssize_t verif_send(uintptr_t s, const void* b, size_t n, int f) { return ::send((int)s, b, n, f | MSG_NOSIGNAL); }
#define socket verif_socket
#define recv verif_recv
#define send verif_send
#define WSABASEERR 10000
#define WSAEINVAL 10022
#define WSAEWOULDBLOCK 10035
#define WSAEACCES 10013
#define WSAEADDRINUSE 10048
#define WSAECONNABORTED 10053
#define WSAECONNRESET 10054
#define WSAEFAULT 10014
#define WSAEHOSTUNREACH 10065
#define WSAEINPROGRESS 10036
#define WSAEINTR 10004
#define WSAEISCONN 10056
#define WSAEMFILE 10024
#define WSAEMSGSIZE 10040
#define WSAENETDOWN 10050
#define WSAENETRESET 10052
#define WSAENOBUFS 10055
#define WSAENOTCONN 10057
#define WSAENOTSOCK 10038
#define WSAEOPNOTSUPP 10045
#define WSAESHUTDOWN 10058
#define WSAETIMEDOUT 10060
#define WSANOTINITIALISED 10093
#endif
