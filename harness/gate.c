/* LD_PRELOAD: a gate before the reads or the writes of chosen files. While it is closed, who comes waits
 * (at most as many threads as there are places; the others pass). VERIF_GATE: r or w.
 * VERIF_GATE_FILES: names, separated by newlines.
 * VERIF_GATE_CTL: a file that is mapped, int64: closed, threads that wait now, calls seen, places. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static char kind;
static char files[8192];
static _Atomic int64_t* ctl;

__attribute__((constructor)) static void init(void) {
  const char* e = getenv("VERIF_GATE");
  if (e) kind = e[0];
  e = getenv("VERIF_GATE_FILES");
  if (e && strlen(e) < sizeof files) strcpy(files, e);
  e = getenv("VERIF_GATE_CTL");
  if (e) {
    int f = open(e, O_RDWR);
    if (f >= 0) {
      void* p = mmap(NULL, 32, PROT_READ | PROT_WRITE, MAP_SHARED, f, 0);
      if (p != MAP_FAILED) ctl = p;
      close(f);
    }
  }
}
static void pass(char k, int fd) {
  struct stat st, x;
  if (k != kind || !ctl || fstat(fd, &st) != 0 || !S_ISREG(st.st_mode)) return;
  char buf[8192];
  strcpy(buf, files);
  int mine = 0;
  for (char *s = buf, *n; s && *s && !mine; s = n) {
    n = strchr(s, '\n');
    if (n) *n++ = 0;
    mine = stat(s, &x) == 0 && x.st_dev == st.st_dev && x.st_ino == st.st_ino;
  }
  if (!mine) return;
  atomic_fetch_add(&ctl[2], 1);
  if (!atomic_load(&ctl[0])) return;
  if (atomic_fetch_add(&ctl[1], 1) < atomic_load(&ctl[3]))
    while (atomic_load(&ctl[0])) {
      struct timespec t = {0, 1000000};
      nanosleep(&t, NULL);
    }
  atomic_fetch_sub(&ctl[1], 1);
}
#define REAL(name, type) \
  static __typeof__(type) real; \
  if (!real) real = (__typeof__(type))dlsym(RTLD_NEXT, name)
ssize_t read(int fd, void* p, size_t n) {
  REAL("read", ssize_t (*)(int, void*, size_t));
  pass('r', fd);
  return real(fd, p, n);
}
ssize_t readv(int fd, const struct iovec* v, int k) {
  REAL("readv", ssize_t (*)(int, const struct iovec*, int));
  pass('r', fd);
  return real(fd, v, k);
}
ssize_t pread(int fd, void* p, size_t n, off_t o) {
  REAL("pread64", ssize_t (*)(int, void*, size_t, off_t));
  pass('r', fd);
  return real(fd, p, n, o);
}
ssize_t pread64(int fd, void* p, size_t n, off_t o) { return pread(fd, p, n, o); }
ssize_t write(int fd, const void* p, size_t n) {
  REAL("write", ssize_t (*)(int, const void*, size_t));
  pass('w', fd);
  return real(fd, p, n);
}
ssize_t writev(int fd, const struct iovec* v, int k) {
  REAL("writev", ssize_t (*)(int, const struct iovec*, int));
  pass('w', fd);
  return real(fd, v, k);
}
ssize_t pwrite64(int fd, const void* p, size_t n, off_t o) {
  REAL("pwrite64", ssize_t (*)(int, const void*, size_t, off_t));
  pass('w', fd);
  return real(fd, p, n, o);
}
ssize_t pwrite(int fd, const void* p, size_t n, off_t o) { return pwrite64(fd, p, n, o); }
