// Stand-in for ext/hash-library (a git submodule that is empty in this sandbox): same interface,
// SHA-1 from OpenSSL. It is not code under test.
#include "sha1.h"
#include <cstdio>
#include <openssl/evp.h>

std::string SHA1::operator()(const std::string& s) {
  unsigned char h[20];
  unsigned      n = 20;
  EVP_Digest(s.data(), s.size(), h, &n, EVP_sha1(), nullptr);
  std::string r;
  for (auto c: h) {
    char b[3];
    std::snprintf(b, 3, "%02x", c);
    r += b;
  }
  return r;
}
