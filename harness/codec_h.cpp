// Records to text and back, against snprintf() and an independent parser. argv: seed, number of random records,
// first and last+1 count (of an exhaustive range), stride
#include "hibp.hpp"
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <random>
#include <sstream>
#include <string>

namespace {
std::mt19937_64 rng;
unsigned long long evaluations = 0, roundtrips = 0, validated = 0, refused = 0;

[[noreturn, gnu::noinline, gnu::cold]] void fail(const char* what, const std::string& in, const std::string& got, const std::string& want) {
  std::printf("MISMATCH %s\ninput:    %s\ngot:      %s\nexpected: %s\n", what, in.c_str(), got.c_str(), want.c_str());
  std::fflush(stdout);
  std::_Exit(1);
}

template <typename Pw>
std::string show(const Pw& p) {
  std::string s;
  char b[16];
  for (auto x: p.hash) {
    std::snprintf(b, sizeof b, "%02X", static_cast<unsigned>(x));
    s += b;
  }
  std::snprintf(b, sizeof b, ":%" PRId32, p.count);
  return s + b;
}

template <typename Pw>
void parses(const std::string& text, const Pw& want) {
  Pw got;
  try {
    got = Pw{text};
  } catch (const std::exception& e) {
    fail("parsing", text, std::string("exception: ") + e.what(), show(want));
  }
  ++evaluations;
  if (got.hash != want.hash || got.count != want.count) fail("parsing", text, show(got), show(want));
}

template <typename Pw>
void roundtrip(const Pw& p, bool variants) {
  const std::string want = show(p);
  const std::string got  = p.to_string();
  if (got != want) fail("formatting", want, got, want);
  ++evaluations;
  ++roundtrips;
  parses<Pw>(want, p);
  if (!variants) return;
  std::ostringstream os;
  os << p;
  if (os.str() != want) fail("operator<<", want, os.str(), want);
  const std::size_t n = 2 * p.hash.size();
  std::string lower = want;
  for (auto& c: lower) c = c >= 'A' && c <= 'F' ? static_cast<char>(c + 32) : c;
  parses<Pw>(lower, p);
  std::string mixed = want;
  for (std::size_t i = 0; i < n; ++i) mixed[i] = rng() % 2 ? want[i] : lower[i];
  parses<Pw>(mixed, p);
  Pw none = p;
  none.count = -1;
  parses<Pw>(want.substr(0, n), none);
  parses<Pw>(lower.substr(0, n), none);
}

void full_line(const hibp::pawned_pw_sha1& s) { // a 64 bit record from a full sha1 line
  const std::string t = show(s);
  hibp::pawned_pw_sha1t64 want;
  std::memcpy(want.hash.data(), s.hash.data(), 8);
  want.count = s.count;
  parses<hibp::pawned_pw_sha1t64>(t, want);
  std::string l = t;
  for (auto& c: l) c = c >= 'A' && c <= 'F' ? static_cast<char>(c + 32) : c;
  parses<hibp::pawned_pw_sha1t64>(l, want);
  want.count = -1;
  parses<hibp::pawned_pw_sha1t64>(t.substr(0, 40), want);
}

template <typename Pw>
Pw any() {
  Pw p;
  const unsigned k = rng() % 4;
  for (auto& b: p.hash) {
    b = static_cast<std::byte>(k == 0 ? rng() : k == 1 ? (rng() % 2 ? 0 : 0xff) : k == 2 ? (rng() % 16 * 0x11) : (rng() % 2 ? 0x9a : 0xa9));
  }
  static const std::int32_t cs[] = {0, 1, 9, 10, 11, 99, 100, -1, -9, -10, 2147483647, 2147483646, -2147483647 - 1, -2147483647, 1000000000, 999999999};
  p.count = rng() % 3 == 0 ? cs[rng() % 16] : static_cast<std::int32_t>(static_cast<std::uint32_t>(rng()) >> (rng() % 32));
  return p;
}

template <typename Pw>
void bytes() { // every value of every byte, the neighbours being anything
  Pw p = any<Pw>();
  for (std::size_t i = 0; i < p.hash.size(); ++i) {
    for (int v = 0; v < 256; ++v) {
      p.hash[i] = static_cast<std::byte>(v);
      roundtrip(p, true);
    }
    p = any<Pw>();
  }
}

template <typename Pw>
void valid(const std::string& s) {
  bool want = s.size() == 2 * sizeof(Pw::hash);
  for (char c: s) want = want && ((c >= '0' && c <= '9') || (c >= 'A' && c <= 'F'));
  if (hibp::is_valid_hash<Pw>(s) != want) fail("hash validation", "'" + s + "'", want ? "refused" : "accepted", want ? "accepted" : "refused");
  ++validated;
  ++evaluations;
}

template <typename Pw>
void validation() {
  const std::size_t n = 2 * sizeof(Pw::hash);
  static const char hex[] = "0123456789ABCDEF";
  for (int k = 0; k < 3; ++k) {
    std::string s(n, '0');
    for (auto& c: s) c = hex[rng() % 16];
    valid<Pw>(s);
    for (std::size_t i = 0; i < n; ++i) {
      const char was = s[i];
      for (int v = 0; v < 256; ++v) {
        s[i] = static_cast<char>(v);
        valid<Pw>(s);
      }
      s[i] = was;
    }
  }
  for (std::size_t m = 0; m < 100; ++m) {
    std::string s(m, '0');
    for (auto& c: s) c = hex[rng() % 16];
    valid<Pw>(s);
    valid<Pw>(std::string(m, 'F'));
    valid<Pw>(std::string(m, '0'));
  }
}
} // namespace

int main(int argc, char** argv) {
  if (argc < 6) return 77;
  rng.seed(std::strtoull(argv[1], nullptr, 10));
  const long long n = std::atoll(argv[2]), lo = std::atoll(argv[3]), hi = std::atoll(argv[4]), step = std::atoll(argv[5]);
  if (n != 0) {
    bytes<hibp::pawned_pw_sha1>();
    bytes<hibp::pawned_pw_ntlm>();
    bytes<hibp::pawned_pw_sha1t64>();
    validation<hibp::pawned_pw_sha1>();
    validation<hibp::pawned_pw_ntlm>();
    validation<hibp::pawned_pw_sha1t64>();
  }
  for (long long i = 0; i < n; ++i) {
    auto s = any<hibp::pawned_pw_sha1>();
    roundtrip(s, true);
    full_line(s);
    roundtrip(any<hibp::pawned_pw_ntlm>(), true);
    roundtrip(any<hibp::pawned_pw_sha1t64>(), true);
  }
  for (long long m = 1, k = 0; n != 0 && k < 11; ++k, m *= 10) { // around the powers of ten, of two
    for (long long d = -200; d < 200; ++d) {
      for (long long c: {m + d, -m + d, (1LL << (3 * k)) + d, -(1LL << (3 * k)) + d}) {
        if (c < -2147483648LL || c > 2147483647LL) continue;
        auto p = any<hibp::pawned_pw_sha1>();
        p.count = static_cast<std::int32_t>(c);
        roundtrip(p, true);
        full_line(p);
        auto q = any<hibp::pawned_pw_ntlm>();
        q.count = p.count;
        roundtrip(q, true);
        auto r = any<hibp::pawned_pw_sha1t64>();
        r.count = p.count;
        roundtrip(r, true);
      }
    }
  }
  hibp::pawned_pw_sha1    a = any<hibp::pawned_pw_sha1>();
  hibp::pawned_pw_ntlm    b = any<hibp::pawned_pw_ntlm>();
  hibp::pawned_pw_sha1t64 e = any<hibp::pawned_pw_sha1t64>();
  for (long long c = lo; c < hi; c += step) {
    const auto k = static_cast<std::int32_t>(c);
    switch (c / step % 3) {
    case 0: a.count = k; roundtrip(a, false); break;
    case 1: b.count = k; roundtrip(b, false); break;
    default: e.count = k; roundtrip(e, false); break;
    }
  }
  std::printf("evaluations=%llu roundtrips=%llu validated=%llu\n", evaluations, roundtrips, validated);
  return 0;
}
