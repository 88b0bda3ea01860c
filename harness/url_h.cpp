// The url of every prefix, as the public API is asked for it.
#include "hibp.hpp"
#include <cstdio>
int main() {
  for (unsigned p = 0; p != 1U << 20U; ++p) {
    std::printf("%u sha1 %s\n", p, hibp::url<hibp::pawned_pw_sha1>(p, false).c_str());
    std::printf("%u ntlm %s\n", p, hibp::url<hibp::pawned_pw_ntlm>(p, false).c_str());
    std::printf("%u sha1t64 %s\n", p, hibp::url<hibp::pawned_pw_sha1t64>(p, false).c_str());
  }
}
