/* LD_PRELOAD: random delays before and after the locking of a mutex, before waiting for a condition and
 * before signalling one. VERIF_LOCKS = seed:one in how many:longest delay in us
 * VERIF_LOCKS_OUT: a file for "delays waits signals". */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>

static int (*r_lock)(pthread_mutex_t*);
static int (*r_unlock)(pthread_mutex_t*);
static int (*r_wait)(pthread_cond_t*, pthread_mutex_t*);
static int (*r_signal)(pthread_cond_t*);
static int (*r_broadcast)(pthread_cond_t*);
static unsigned long seed, rate, us;
static _Atomic unsigned long threads, delays, waits, signals;
static __thread uint64_t rng;
static __thread int      bias;

static void report(void) {
  const char* p = getenv("VERIF_LOCKS_OUT");
  if (!p) return;
  char buf[100];
  int n = snprintf(buf, sizeof buf, "%lu %lu %lu\n", (unsigned long)delays, (unsigned long)waits, (unsigned long)signals);
  int f = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (f >= 0) {
    if (write(f, buf, (size_t)n) < 0) {}
    close(f);
  }
}
__attribute__((constructor)) static void init(void) {
  r_lock      = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  r_unlock    = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  r_wait      = (int (*)(pthread_cond_t*, pthread_mutex_t*))dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
  if (!r_wait) r_wait = (int (*)(pthread_cond_t*, pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_cond_wait");
  r_signal    = (int (*)(pthread_cond_t*))dlvsym(RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2");
  if (!r_signal) r_signal = (int (*)(pthread_cond_t*))dlsym(RTLD_NEXT, "pthread_cond_signal");
  r_broadcast = (int (*)(pthread_cond_t*))dlvsym(RTLD_NEXT, "pthread_cond_broadcast", "GLIBC_2.3.2");
  if (!r_broadcast) r_broadcast = (int (*)(pthread_cond_t*))dlsym(RTLD_NEXT, "pthread_cond_broadcast");
  const char* e = getenv("VERIF_LOCKS");
  if (e) sscanf(e, "%lu:%lu:%lu", &seed, &rate, &us);
  atexit(report);
}
static uint64_t next(void) {
  if (!rng) {
    unsigned long id = ++threads;
    rng  = (seed + 1) * 0x9E3779B97F4A7C15ULL + id * 0xD1B54A32D192ED03ULL;
    bias = (int)((rng >> 33) % 3);
  }
  rng ^= rng << 13;
  rng ^= rng >> 7;
  rng ^= rng << 17;
  return rng;
}
static void maybe(int where) {
  if (!rate) return;
  uint64_t x = next();
  /* some threads are slow mostly before, some mostly after they hold a lock */
  if (x % rate != 0 || (bias != 2 && bias == where)) return;
  delays++;
  struct timespec t = {0, (long)((x >> 20) % (us + 1)) * 1000};
  nanosleep(&t, NULL);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!r_lock) return 0; /* before main, there is one thread */
  maybe(0);
  int e = r_lock(m);
  maybe(1);
  return e;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!r_unlock) return 0;
  int e = r_unlock(m);
  maybe(0);
  return e;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  waits++;
  maybe(1);
  return r_wait(c, m);
}
int pthread_cond_signal(pthread_cond_t* c) {
  signals++;
  maybe(0);
  return r_signal(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  signals++;
  maybe(0);
  return r_broadcast(c);
}
