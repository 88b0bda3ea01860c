/* LD_PRELOAD: faults in write(2) and writev(2) to regular files and to standard output.
 * VERIF_WFAULT = mode:n:count   the n-th such call (from 0) and count-1 more: mode
 *   fail   -1, ENOSPC          eio   -1, EIO
 *   short  writes only a part  eintr -1, EINTR (then the call is let through)
 *   slow   writes only a part and lets time pass before or after it (n is a seed, regular files only)
 * VERIF_WFAULT_LOG: file that gets "calls faults" at exit. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <stdatomic.h>

static ssize_t (*real_write)(int, const void*, size_t);
static ssize_t (*real_writev)(int, const struct iovec*, int);
static char mode[16];
static long first = -1, count = 0;
static atomic_long calls, faults;
static char log_name[512];

__attribute__((constructor)) static void init(void) {
  real_write  = (ssize_t (*)(int, const void*, size_t))dlsym(RTLD_NEXT, "write");
  real_writev = (ssize_t (*)(int, const struct iovec*, int))dlsym(RTLD_NEXT, "writev");
  const char* e = getenv("VERIF_WFAULT");
  if (e) sscanf(e, "%15[a-z]:%ld:%ld", mode, &first, &count);
  e = getenv("VERIF_WFAULT_LOG");
  if (e && strlen(e) < sizeof log_name) strcpy(log_name, e);
}
__attribute__((destructor)) static void fini(void) {
  if (!log_name[0]) return;
  int f = open(log_name, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (f < 0) return;
  char b[64];
  int n = snprintf(b, sizeof b, "%ld %ld\n", atomic_load(&calls), atomic_load(&faults));
  if (real_write(f, b, (size_t)n)) {}
  close(f);
}
static int mine(int fd) {
  struct stat st;
  if (fd == 2 || first < 0) return 0;
  if (fd == 1) return 1;
  return fstat(fd, &st) == 0 && S_ISREG(st.st_mode);
}
static int slow(int fd) {
  struct stat st;
  return strcmp(mode, "slow") == 0 && fstat(fd, &st) == 0 && S_ISREG(st.st_mode);
}
static ssize_t slowly(int fd, const char* p, size_t n) {
  unsigned long x = (unsigned long)first * 2862933555777941757UL + (unsigned long)atomic_fetch_add(&calls, 1) * 3037000493UL;
  x ^= x >> 29; x *= 0xbf58476d1ce4e5b9UL; x ^= x >> 32;
  atomic_fetch_add(&faults, 1);
  if (x & 1) usleep((useconds_t)((x >> 8) % 30000));
  ssize_t k = real_write(fd, p, n > 1000 ? n / 2 + (x >> 40) % (n / 3) : n);
  if (x & 2) usleep((useconds_t)((x >> 24) % 30000));
  return k;
}
static int hit(int fd) {
  if (!mine(fd) || strcmp(mode, "slow") == 0) return 0;
  long k = atomic_fetch_add(&calls, 1);
  if (k < first || k >= first + count) return 0;
  atomic_fetch_add(&faults, 1);
  return 1;
}
ssize_t write(int fd, const void* p, size_t n) {
  if (n != 0 && slow(fd)) return slowly(fd, (const char*)p, n);
  if (n != 0 && hit(fd)) {
    if (mode[0] == 's') return real_write(fd, p, n > 1 ? n / 2 : n);
    errno = mode[0] == 'f' ? ENOSPC : strcmp(mode, "eintr") == 0 ? EINTR : EIO;
    return -1;
  }
  return real_write(fd, p, n);
}
ssize_t writev(int fd, const struct iovec* v, int k) {
  size_t n = 0;
  for (int i = 0; i < k; ++i) n += v[i].iov_len;
  if (n != 0 && slow(fd))
    for (int i = 0; i < k; ++i)
      if (v[i].iov_len) return slowly(fd, (const char*)v[i].iov_base, v[i].iov_len);
  if (n != 0 && hit(fd)) {
    if (mode[0] == 's') {
      for (int i = 0; i < k; ++i)
        if (v[i].iov_len) return real_write(fd, v[i].iov_base, v[i].iov_len > 1 ? v[i].iov_len / 2 : 1);
    }
    errno = mode[0] == 'f' ? ENOSPC : strcmp(mode, "eintr") == 0 ? EINTR : EIO;
    return -1;
  }
  return real_writev(fd, v, k);
}
