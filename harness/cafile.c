/* LD_PRELOAD: the system's list of trusted certificate authorities becomes the file named by VERIF_CA,
 * so that a server of ours can have a certificate that is valid (or in one way invalid). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static const char* map(const char* p) {
  const char* ca = getenv("VERIF_CA");
  if (ca && p && (strcmp(p, "/etc/ssl/certs/ca-certificates.crt") == 0 || strcmp(p, "/usr/lib/ssl/cert.pem") == 0 ||
                  strcmp(p, "/etc/ssl/cert.pem") == 0))
    return ca;
  return p;
}
FILE* fopen(const char* p, const char* m) {
  static FILE* (*real)(const char*, const char*);
  if (!real) real = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen");
  return real(map(p), m);
}
FILE* fopen64(const char* p, const char* m) {
  static FILE* (*real)(const char*, const char*);
  if (!real) real = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen64");
  return real(map(p), m);
}
int open(const char* p, int f, ...) {
  static int (*real)(const char*, int, ...);
  if (!real) real = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, "open");
  va_list a;
  va_start(a, f);
  int mode = va_arg(a, int);
  va_end(a);
  return real(map(p), f, mode);
}
int open64(const char* p, int f, ...) {
  static int (*real)(const char*, int, ...);
  if (!real) real = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, "open64");
  va_list a;
  va_start(a, f);
  int mode = va_arg(a, int);
  va_end(a);
  return real(map(p), f, mode);
}
