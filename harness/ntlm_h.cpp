// ntlm() and MD4 against an independent implementation.
// argv: seed, mode (codepoints | lengths | random | splits | large), amount
#include "md4.h"
#include "ntlm.hpp"
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <random>
#include <string>
#include <thread>
#include <vector>
#include <atomic>
#include <memory>

namespace oracle {
// RFC 1320, written from the text of the RFC
struct md4 {
  std::uint32_t s[4] = {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u};
  std::uint64_t bytes = 0;
  unsigned char buf[64];
  static std::uint32_t rol(std::uint32_t v, int n) { return (v << n) | (v >> (32 - n)); }
  void block(const unsigned char* p) {
    std::uint32_t x[16];
    for (int i = 0; i < 16; ++i)
      x[i] = static_cast<std::uint32_t>(p[4 * i]) | static_cast<std::uint32_t>(p[4 * i + 1]) << 8 |
             static_cast<std::uint32_t>(p[4 * i + 2]) << 16 | static_cast<std::uint32_t>(p[4 * i + 3]) << 24;
    static const int order[3][16] = {{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
                                     {0, 4, 8, 12, 1, 5, 9, 13, 2, 6, 10, 14, 3, 7, 11, 15},
                                     {0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15}};
    static const int shift[3][4]  = {{3, 7, 11, 19}, {3, 5, 9, 13}, {3, 9, 11, 15}};
    static const std::uint32_t k[3] = {0, 0x5a827999u, 0x6ed9eba1u};
    std::uint32_t v[4] = {s[0], s[1], s[2], s[3]};
    for (int r = 0; r < 3; ++r)
      for (int i = 0; i < 16; ++i) {
        const int a = (16 - i) % 4, b = (a + 1) % 4, c = (a + 2) % 4, d = (a + 3) % 4;
        std::uint32_t f = r == 0 ? ((v[b] & v[c]) | (~v[b] & v[d])) : r == 1 ? ((v[b] & v[c]) | (v[b] & v[d]) | (v[c] & v[d])) : (v[b] ^ v[c] ^ v[d]);
        v[a] = rol(v[a] + f + x[order[r][i]] + k[r], shift[r][i % 4]);
      }
    for (int i = 0; i < 4; ++i) s[i] += v[i];
  }
  void add(const unsigned char* p, std::size_t n) {
    std::size_t have = bytes % 64;
    bytes += n;
    while (n != 0) {
      if (have == 0 && n >= 64) {
        block(p);
        p += 64;
        n -= 64;
        continue;
      }
      const std::size_t k = std::min<std::size_t>(64 - have, n);
      std::memcpy(buf + have, p, k);
      have += k;
      p += k;
      n -= k;
      if (have == 64) {
        block(buf);
        have = 0;
      }
    }
  }
  std::array<unsigned char, 16> end() {
    const std::uint64_t bits = bytes * 8;
    const unsigned char one = 0x80, zero = 0;
    add(&one, 1);
    while (bytes % 64 != 56) add(&zero, 1);
    unsigned char l[8];
    for (int i = 0; i < 8; ++i) l[i] = static_cast<unsigned char>(bits >> (8 * i));
    add(l, 8);
    std::array<unsigned char, 16> out;
    for (int i = 0; i < 16; ++i) out[i] = static_cast<unsigned char>(s[i / 4] >> (8 * (i % 4)));
    return out;
  }
};
std::string utf8(const std::vector<std::uint32_t>& cps) {
  std::string o;
  for (auto c: cps) {
    if (c < 0x80) o += static_cast<char>(c);
    else if (c < 0x800) (o += static_cast<char>(0xc0 | c >> 6)) += static_cast<char>(0x80 | (c & 63));
    else if (c < 0x10000) ((o += static_cast<char>(0xe0 | c >> 12)) += static_cast<char>(0x80 | (c >> 6 & 63))) += static_cast<char>(0x80 | (c & 63));
    else (((o += static_cast<char>(0xf0 | c >> 18)) += static_cast<char>(0x80 | (c >> 12 & 63))) += static_cast<char>(0x80 | (c >> 6 & 63))) += static_cast<char>(0x80 | (c & 63));
  }
  return o;
}
std::array<unsigned char, 16> ntlm(const std::vector<std::uint32_t>& cps) {
  std::vector<unsigned char> u;
  auto put = [&](std::uint32_t x) {
    u.push_back(static_cast<unsigned char>(x));
    u.push_back(static_cast<unsigned char>(x >> 8));
  };
  for (auto c: cps) {
    if (c < 0x10000) put(c);
    else {
      put(0xd800 + ((c - 0x10000) >> 10));
      put(0xdc00 + ((c - 0x10000) & 1023));
    }
  }
  md4 m;
  m.add(u.data(), u.size());
  return m.end();
}
} // namespace oracle

namespace {
std::atomic<unsigned long long> evaluations = 0;

std::string hex(const void* p, std::size_t n) {
  std::string s;
  char b[3];
  for (std::size_t i = 0; i < n; ++i) {
    std::snprintf(b, sizeof b, "%02X", static_cast<const unsigned char*>(p)[i]);
    s += b;
  }
  return s;
}
[[noreturn]] void fail(const std::string& what, const std::string& got, const std::string& want) {
  std::printf("MISMATCH %s\ngot:      %s\nexpected: %s\n", what.c_str(), got.c_str(), want.c_str());
  std::fflush(stdout);
  std::_Exit(1);
}
void judge(const std::vector<std::uint32_t>& cps) {
  const std::string pw = oracle::utf8(cps);
  const auto want = oracle::ntlm(cps);
  std::array<std::byte, 16> got;
  try {
    got = hibp::ntlm(pw);
  } catch (const std::exception& e) {
    fail("ntlm of the UTF-8 password " + hex(pw.data(), pw.size()), std::string("exception: ") + e.what(), hex(want.data(), 16));
  }
  evaluations.fetch_add(1, std::memory_order_relaxed);
  if (std::memcmp(got.data(), want.data(), 16) != 0)
    fail("ntlm of the UTF-8 password " + hex(pw.data(), pw.size()), hex(got.data(), 16), hex(want.data(), 16));
}
std::uint32_t cp(std::mt19937_64& r) {
  while (true) {
    std::uint32_t c = 0;
    switch (r() % 6) {
    case 0: c = r() % 0x80; break;
    case 1: c = 0x80 + r() % 0x780; break;
    case 2: c = 0x800 + r() % 0xf800; break;
    case 3: c = 0x10000 + r() % 0x100000; break;
    case 4: {
      static const std::uint32_t e[] = {0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0xfffd, 0x103ff, 0x10400, 0xff, 0x100, 0x20000};
      c = e[r() % (sizeof e / sizeof *e)];
      break;
    }
    default: c = 0x20 + r() % 95;
    }
    if (c < 0xd800 || c > 0xdfff) return c;
  }
}
void digest(const std::vector<std::size_t>& cuts, const unsigned char* p, std::size_t n, const std::array<unsigned char, 16>& want) {
  MD4_CTX ctx;
  std::memset(&ctx, 0xee, sizeof ctx);
  MD4_Init(&ctx);
  std::size_t at = 0;
  for (auto c: cuts) {
    MD4_Update(&ctx, p + at, c - at);
    at = c;
  }
  MD4_Update(&ctx, p + at, n - at);
  unsigned char got[16];
  MD4_Final(got, &ctx);
  evaluations.fetch_add(1, std::memory_order_relaxed);
  if (std::memcmp(got, want.data(), 16) != 0) {
    std::string w = "MD4 of a message of " + std::to_string(n) + " bytes, cut at";
    for (auto c: cuts) w += " " + std::to_string(c);
    fail(w, hex(got, 16), hex(want.data(), 16));
  }
}
} // namespace

int main(int argc, char** argv) {
  if (argc < 4) return 77;
  const auto seed = std::strtoull(argv[1], nullptr, 10);
  const std::string mode = argv[2];
  const auto amount = std::strtoull(argv[3], nullptr, 10);
  std::mt19937_64 rng(seed);
  if (mode == "codepoints") { // every code point, in several threads at once, first, last and alone
    std::vector<std::thread> ts;
    for (unsigned t = 0; t < 4; ++t) {
      ts.emplace_back([=] {
        std::mt19937_64 r(seed * 7 + t);
        for (std::uint32_t c = t; c < 0x110000; c += 4) {
          if (c >= 0xd800 && c <= 0xdfff) continue;
          if (amount > 1 && c > 0x10400 && (c + seed) % amount > 3 && (c & 0xffff) > 3 && (c & 0xffff) < 0xfffc) continue;
          judge({c});
          judge({c, cp(r)});
          judge({cp(r), c});
        }
      });
    }
    for (auto& t: ts) t.join();
  } else if (mode == "lengths") {
    for (std::size_t n = 0; n < amount; ++n)
      for (int k = 0; k < 6; ++k) {
        std::vector<std::uint32_t> v;
        for (std::size_t i = 0; i < n; ++i) v.push_back(k == 0 ? 'a' + i % 26 : k == 1 ? 0x10000 + i : cp(rng));
        judge(v);
      }
    for (std::size_t n: {1000u, 4095u, 4096u, 16384u, 65535u, 65536u, 100000u})
      for (int k = 0; k < 2; ++k) {
        std::vector<std::uint32_t> v;
        for (std::size_t i = 0; i < n; ++i) v.push_back(k ? cp(rng) : 'x');
        judge(v);
      }
  } else if (mode == "random") {
    for (unsigned long long i = 0; i < amount; ++i) {
      std::vector<std::uint32_t> v;
      const std::size_t n = rng() % 3 ? rng() % 30 : rng() % 200;
      for (std::size_t k = 0; k < n; ++k) v.push_back(cp(rng));
      judge(v);
    }
  } else if (mode == "splits") {
    for (std::size_t n = 0; n <= amount; ++n) {
      std::unique_ptr<unsigned char[]> p(new unsigned char[n]); // exactly as long as the message
      for (std::size_t i = 0; i < n; ++i) p[i] = static_cast<unsigned char>(rng());
      oracle::md4 o;
      o.add(p.get(), n);
      const auto want = o.end();
      digest({}, p.get(), n, want);
      for (std::size_t c = 0; c <= n; ++c) digest({c}, p.get(), n, want);
      for (std::size_t c = 0; c < 40; ++c) {
        std::vector<std::size_t> cuts;
        for (std::size_t at = 0; at < n;) {
          at += (c % 3 == 0 ? 1 : c % 3 == 1 ? 1 + rng() % 70 : 60 + rng() % 10);
          if (at <= n) cuts.push_back(at);
          if (rng() % 9 == 0 && at <= n) cuts.push_back(at); // nothing
        }
        digest(cuts, p.get(), n, want);
      }
    }
    // two messages at the same time
    for (int k = 0; k < 500; ++k) {
      std::vector<unsigned char> a(rng() % 300), b(rng() % 300);
      a.reserve(1), b.reserve(1); // never a null pointer
      for (auto& x: a) x = static_cast<unsigned char>(rng());
      for (auto& x: b) x = static_cast<unsigned char>(rng());
      MD4_CTX ca, cb;
      MD4_Init(&ca);
      MD4_Init(&cb);
      std::size_t i = 0, j = 0;
      while (i < a.size() || j < b.size()) {
        std::size_t n = std::min<std::size_t>(rng() % 90, a.size() - i), m = std::min<std::size_t>(rng() % 90, b.size() - j);
        MD4_Update(&ca, a.data() + i, n);
        MD4_Update(&cb, b.data() + j, m);
        i += n;
        j += m;
      }
      oracle::md4 oa, ob;
      oa.add(a.data(), a.size());
      ob.add(b.data(), b.size());
      unsigned char ga[16], gb[16];
      MD4_Final(gb, &cb);
      MD4_Final(ga, &ca);
      evaluations += 2;
      auto wa = oa.end(), wb = ob.end();
      if (std::memcmp(ga, wa.data(), 16) != 0) fail("MD4 of one of two messages digested at once", hex(ga, 16), hex(wa.data(), 16));
      if (std::memcmp(gb, wb.data(), 16) != 0) fail("MD4 of one of two messages digested at once", hex(gb, 16), hex(wb.data(), 16));
    }
  } else if (mode == "large") { // around 2^29 bytes (2^32 bits) and, if asked for, 2^32 bytes
    const std::uint64_t top = amount > 1 ? (1ULL << 32) : (1ULL << 29);
    const std::size_t blk = 1 << 20;
    std::vector<unsigned char> buf(blk + 64);
    for (auto& x: buf) x = static_cast<unsigned char>(rng());
    for (int d: {-64, 0, 9}) {
      const std::uint64_t n = top + d;
      if (amount == 1 && d == 0) continue;
      MD4_CTX ctx;
      MD4_Init(&ctx);
      oracle::md4 o;
      for (std::uint64_t at = 0; at < n;) {
        const std::size_t k = std::min<std::uint64_t>(d < 0 ? blk : blk + at / blk % 8, n - at);
        MD4_Update(&ctx, buf.data() + (d < 0 ? 0 : at / blk % 8 * 4), k);
        o.add(buf.data() + (d < 0 ? 0 : at / blk % 8 * 4), k);
        at += k;
      }
      unsigned char got[16];
      MD4_Final(got, &ctx);
      const auto want = o.end();
      ++evaluations;
      if (std::memcmp(got, want.data(), 16) != 0) fail("MD4 of a message of " + std::to_string(n) + " bytes", hex(got, 16), hex(want.data(), 16));
    }
    const std::uint64_t n = top + 100; // at one go
    std::vector<unsigned char> big(n, 'q');
    for (std::size_t i = 0; i < n; i += 4097) big[i] = static_cast<unsigned char>(i / 4097);
    oracle::md4 o;
    o.add(big.data(), n);
    digest({}, big.data(), n, o.end());
  } else {
    return 77;
  }
  std::printf("evaluations=%llu\n", evaluations.load());
  return 0;
}
