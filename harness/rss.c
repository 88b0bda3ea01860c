/* rss FILE PROGRAM ARGS...: runs the program and writes to FILE "maxrss_kb rchar wchar exit" of it.
 * (A small parent of its own: the peak that the kernel reports for a child includes that of the process
 * it was forked from.) Killing this program kills the one it runs. */
#define _GNU_SOURCE
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

int main(int argc, char** argv) {
  if (argc < 3) return 120;
  pid_t p = fork();
  if (p < 0) return 121;
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    execv(argv[2], argv + 2);
    _exit(122);
  }
  siginfo_t si;
  waitid(P_PID, (id_t)p, &si, WEXITED | WNOWAIT); /* it is a zombie now, its counters are still there */
  unsigned long long rchar = 0, wchar = 0, reads = 0, writes = 0;
  char name[64];
  snprintf(name, sizeof name, "/proc/%d/io", (int)p);
  FILE* f = fopen(name, "r");
  if (f) {
    if (fscanf(f, "rchar: %llu wchar: %llu syscr: %llu syscw: %llu", &rchar, &wchar, &reads, &writes) != 4) rchar = 0;
    fclose(f);
  }
  int st;
  struct rusage ru;
  if (wait4(p, &st, 0, &ru) != p) return 123;
  f = fopen(argv[1], "w");
  if (!f) return 124;
  fprintf(f, "%ld %llu %llu %llu %llu\n", ru.ru_maxrss, rchar, wchar, reads, writes);
  fclose(f);
  if (WIFSIGNALED(st)) {
    struct rlimit none = {0, 0};
    setrlimit(RLIMIT_CORE, &none);
    signal(WTERMSIG(st), SIG_DFL);
    kill(getpid(), WTERMSIG(st));
  }
  return WEXITSTATUS(st);
}
