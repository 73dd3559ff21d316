#ifndef VERIF_IO_H
#define VERIF_IO_H
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#define _O_RDWR O_RDWR
#define _O_CREAT O_CREAT
#define _SH_DENYNO 0
#define _S_IREAD S_IRUSR
#define _S_IWRITE S_IWUSR
static inline int _sopen_s(int* h, const char* f, int o, int, int m) { *h = open(f, o, m); return *h < 0 ? errno : 0; }
static inline int _chsize(int h, long n) { return ftruncate(h, n); }
static inline int _close(int h) { return close(h); }
#endif
