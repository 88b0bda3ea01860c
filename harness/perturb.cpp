// Schedule perturbation and interleaving monitor. The code under test is compiled with
// -finstrument-functions, so every function of the repository calls the hooks below; they inject
// random delays and record the order in which threads pass through the code. Compiled without any
// sanitizer, so that it adds no synchronisation that ThreadSanitizer could see.
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <sched.h>
#include <unistd.h>

#define NOI __attribute__((no_instrument_function))
#define PUB __attribute__((no_instrument_function, visibility("default")))

namespace {
std::atomic<std::uint64_t> seq{0};
std::atomic<std::uint64_t> switches{0};
std::atomic<std::uint64_t> sig{1469598103934665603ULL};
std::atomic<int>           last_thread{-1};
std::atomic<int>           next_thread{0};
std::atomic<std::uint64_t> delays{0};
int                        ready = 0;
std::uint64_t              seed  = 0;
unsigned                   rate  = 0; // delay probability in 1/65536
unsigned                   maxus = 0;

thread_local int           my_id = -1;
thread_local std::uint64_t rng   = 0;
thread_local bool          in_hook = false;

NOI void report() {
  const char* path = std::getenv("VERIF_TRACE");
  if (path == nullptr) return;
  char buf[256];
  int  n  = std::snprintf(buf, sizeof buf, "{\"events\": %llu, \"switches\": %llu, \"sig\": \"%016llx\", \"threads\": %d, \"delays\": %llu}\n",
                          (unsigned long long)seq.load(), (unsigned long long)switches.load(),
                          (unsigned long long)sig.load(), next_thread.load(), (unsigned long long)delays.load());
  int  fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) {
    if (write(fd, buf, (size_t)n) < 0) {}
    close(fd);
  }
}

NOI __attribute__((constructor)) void init() {
  if (const char* s = std::getenv("VERIF_PERTURB")) {
    unsigned long long sd = 0;
    std::sscanf(s, "%llu:%u:%u", &sd, &rate, &maxus);
    seed = sd;
  }
  std::atexit(report);
  ready = 1;
}

NOI inline void hook(void* fn) {
  if (!ready || in_hook) return;
  in_hook = true;
  if (my_id < 0) {
    my_id = next_thread.fetch_add(1, std::memory_order_relaxed);
    rng   = (seed + 1) * 0x9E3779B97F4A7C15ULL + (std::uint64_t)my_id * 0xD1B54A32D192ED03ULL;
  }
  seq.fetch_add(1, std::memory_order_relaxed);
  if (last_thread.exchange(my_id, std::memory_order_relaxed) != my_id) {
    switches.fetch_add(1, std::memory_order_relaxed);
    // which thread takes over in which function: the interleaving, up to the compiled addresses
    std::uint64_t s = sig.load(std::memory_order_relaxed);
    s ^= ((std::uint64_t)(std::uintptr_t)fn & 0xFFFFFFU) * 31U + (std::uint64_t)my_id;
    s *= 1099511628211ULL;
    sig.store(s, std::memory_order_relaxed);
  }
  if (rate != 0) {
    rng ^= rng << 13;
    rng ^= rng >> 7;
    rng ^= rng << 17;
    if ((rng & 0xFFFF) < rate) {
      delays.fetch_add(1, std::memory_order_relaxed);
      unsigned us = (unsigned)((rng >> 20) % (maxus + 1));
      if (us < 5)
        sched_yield();
      else {
        timespec ts{0, (long)us * 1000};
        nanosleep(&ts, nullptr);
      }
    }
  }
  in_hook = false;
}
} // namespace

extern "C" {
PUB void __cyg_profile_func_enter(void* fn, void*) { hook(fn); }
PUB void __cyg_profile_func_exit(void* fn, void*) { hook(fn); }
}
