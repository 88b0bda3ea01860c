/* LD_PRELOAD: faults in read(2), readv(2) and pread(2) of chosen files.
 * VERIF_RFAULT = mode:n:count   the n-th such call (from 0) and count-1 more: mode
 *   eio    -1, EIO            eintr  -1, EINTR (then the call is let through)
 *   gone   0, as at the end of the file
 *   short  reads only a part  (a correct program does not notice)
 * VERIF_RFAULT_FILES: names, separated by newlines.
 * VERIF_RFAULT_CTL: a file that is mapped: 3 int64: calls, faults, and an offset for n (set by the test). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

static ssize_t (*real_read)(int, void*, size_t);
static ssize_t (*real_readv)(int, const struct iovec*, int);
static ssize_t (*real_pread)(int, void*, size_t, off_t);
static char mode[16];
static long first = -1, count = 0;
static char files[8192];
static _Atomic int64_t dummy[3];
static _Atomic int64_t* ctl = dummy;

__attribute__((constructor)) static void init(void) {
  real_read  = (ssize_t (*)(int, void*, size_t))dlsym(RTLD_NEXT, "read");
  real_readv = (ssize_t (*)(int, const struct iovec*, int))dlsym(RTLD_NEXT, "readv");
  real_pread = (ssize_t (*)(int, void*, size_t, off_t))dlsym(RTLD_NEXT, "pread64");
  const char* e = getenv("VERIF_RFAULT");
  if (e) sscanf(e, "%15[a-z]:%ld:%ld", mode, &first, &count);
  e = getenv("VERIF_RFAULT_FILES");
  if (e && strlen(e) < sizeof files) strcpy(files, e);
  e = getenv("VERIF_RFAULT_CTL");
  if (e) {
    int f = open(e, O_RDWR);
    if (f >= 0) {
      void* p = mmap(NULL, 24, PROT_READ | PROT_WRITE, MAP_SHARED, f, 0);
      if (p != MAP_FAILED) ctl = p;
      close(f);
    }
  }
}
static int mine(int fd) {
  struct stat st, x;
  if (first < 0 || !files[0]) return 0;
  if (fstat(fd, &st) != 0 || !S_ISREG(st.st_mode)) return 0;
  char buf[8192];
  strcpy(buf, files);
  for (char *s = buf, *n; s && *s; s = n) {
    n = strchr(s, '\n');
    if (n) *n++ = 0;
    if (stat(s, &x) == 0 && x.st_dev == st.st_dev && x.st_ino == st.st_ino) return 1;
  }
  return 0;
}
static int hit(int fd) {
  if (!mine(fd)) return 0;
  int64_t k = atomic_fetch_add(&ctl[0], 1) - atomic_load(&ctl[2]);
  if (k < first || k >= first + count) return 0;
  atomic_fetch_add(&ctl[1], 1);
  return 1;
}
static int fail(void) {
  if (mode[0] == 'g') return 0;
  errno = strcmp(mode, "eintr") == 0 ? EINTR : EIO;
  return -1;
}
ssize_t read(int fd, void* p, size_t n) {
  if (n != 0 && hit(fd)) {
    if (mode[0] == 's') return real_read(fd, p, n > 1 ? 1 + n / 3 : n);
    return fail();
  }
  return real_read(fd, p, n);
}
ssize_t readv(int fd, const struct iovec* v, int k) {
  if (k != 0 && hit(fd)) {
    if (mode[0] == 's') return real_read(fd, v[0].iov_base, v[0].iov_len);
    return fail();
  }
  return real_readv(fd, v, k);
}
ssize_t pread(int fd, void* p, size_t n, off_t o) {
  if (n != 0 && hit(fd)) {
    if (mode[0] == 's') return real_pread(fd, p, n > 1 ? 1 + n / 3 : n, o);
    return fail();
  }
  return real_pread(fd, p, n, o);
}
ssize_t pread64(int fd, void* p, size_t n, off_t o) { return pread(fd, p, n, o); }
