// Compares array_compare() with memcmp() for every length up to a maximum, at every alignment, on
// exactly sized heap blocks (so that AddressSanitizer sees any access beyond the arrays).
#include "arrcmp.hpp"
#include "hibp.hpp"
#include <array>
#include <compare>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <random>
#include <set>
#include <utility>

namespace {
std::mt19937_64 rng;
unsigned long long evaluations = 0, equal_pairs = 0, distinct_pos = 0;
unsigned long long rounds = 1;

int sign(int v) { return (v > 0) - (v < 0); }
int sign(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }

[[gnu::noinline, gnu::cold]] void fail(const char* what, std::size_t n, const std::byte* a, const std::byte* b, int got, int want) {
  std::printf("MISMATCH %s length %zu: %d instead of %d\na=", what, n, got, want);
  for (std::size_t i = 0; i < n; ++i) std::printf("%02x", static_cast<unsigned>(a[i]));
  std::printf("\nb=");
  for (std::size_t i = 0; i < n; ++i) std::printf("%02x", static_cast<unsigned>(b[i]));
  std::printf("\naddresses mod 64: %zu %zu\n", reinterpret_cast<std::size_t>(a) % 64, reinterpret_cast<std::size_t>(b) % 64);
  std::exit(1);
}

template <std::size_t N>
void judge(const std::byte* a, const std::byte* b) {
  const int want = N == 0 ? 0 : sign(std::memcmp(a, b, N));
  if (int g = sign(arrcmp::array_compare<N>(a, b, arrcmp::three_way{})); g != want) fail("three_way", N, a, b, g, want);
  if (int g = sign(arrcmp::array_compare<N>(a, b, arrcmp::three_way_int{})); g != want) fail("three_way_int", N, a, b, g, want);
  if (bool g = arrcmp::array_compare<N>(a, b, arrcmp::equal{}); g != (want == 0)) fail("equal", N, a, b, g, want == 0);
  evaluations += 3;
  if (want == 0) ++equal_pairs;
}

template <std::size_t N>
void judge_array(const std::byte* a, const std::byte* b) { // the std::array interface
  auto x = std::make_unique<std::array<std::byte, N>>();
  auto y = std::make_unique<std::array<std::byte, N>>();
  if constexpr (N != 0) {
    std::memcpy(x->data(), a, N);
    std::memcpy(y->data(), b, N);
  }
  const int want = N == 0 ? 0 : sign(std::memcmp(a, b, N));
  if (int g = sign(arrcmp::array_compare(*x, *y, arrcmp::three_way{})); g != want) fail("three_way/array", N, a, b, g, want);
  if (int g = sign(arrcmp::array_compare(*x, *y, arrcmp::three_way_int{})); g != want) fail("three_way_int/array", N, a, b, g, want);
  if (bool g = arrcmp::array_compare(*x, *y, arrcmp::equal{}); g != (want == 0)) fail("equal/array", N, a, b, g, want == 0);
  evaluations += 3;
}

template <std::size_t N>
void length() {
  static const std::pair<int, int> values[] = {{0, 1}, {0x7f, 0x80}, {0, 0xff}, {0xfe, 0xff}, {0x80, 0xff}, {0x3f, 0x40}, {0, 0x80}, {1, 2}};
  for (std::size_t off = 0; off < 64; off += (N > 40 ? 7 : 3)) {
    const std::size_t oa = off, ob = (off * 5 + N + 1) % 64;
    std::unique_ptr<std::byte[]> ba(new std::byte[oa + N]), bb(new std::byte[ob + N]);
    std::byte *a = ba.get() + oa, *b = bb.get() + ob; // the arrays end where the blocks end
    for (unsigned long long k = 0; k < rounds; ++k) {
      for (std::size_t i = 0; i < N; ++i) a[i] = b[i] = static_cast<std::byte>(rng() & (k % 2 ? 0xff : 0x81));
      judge<N>(a, b);
      judge<N>(a, a);
      judge<N>(b, a);
      for (std::size_t pos = 0; pos < N; ++pos) {
        const std::byte sa = a[pos], sb = b[pos];
        auto [lo, hi] = values[rng() % std::size(values)];
        a[pos] = static_cast<std::byte>(lo);
        b[pos] = static_cast<std::byte>(hi);
        judge<N>(a, b); // one difference only
        judge<N>(b, a);
        if (pos + 1 < N) { // what follows says the opposite
          std::unique_ptr<std::byte[]> ta(new std::byte[N]), tb(new std::byte[N]);
          std::memcpy(ta.get(), a, N);
          std::memcpy(tb.get(), b, N);
          for (std::size_t j = pos + 1; j < N; ++j) {
            const unsigned m = rng() % 4;
            a[j] = static_cast<std::byte>(m == 0 ? 0 : 0x80 + rng() % 128);
            b[j] = static_cast<std::byte>(m == 0 ? 0 : rng() % 128);
          }
          judge<N>(a, b);
          judge<N>(b, a);
          const std::size_t j = pos + 1 + rng() % (N - pos - 1);
          std::memcpy(a, ta.get(), N);
          std::memcpy(b, tb.get(), N);
          a[j] = std::byte{0xff};
          b[j] = std::byte{0};
          judge<N>(a, b);
          if (k == 0 && off == 0) judge_array<N>(a, b);
          std::memcpy(a, ta.get(), N);
          std::memcpy(b, tb.get(), N);
        }
        a[pos] = sa;
        b[pos] = sb;
        ++distinct_pos;
      }
    }
    if (off == 0) {
      judge_array<N>(a, b);
      for (int k = 0; k < 20; ++k) {
        for (std::size_t i = 0; i < N; ++i) {
          a[i] = static_cast<std::byte>(rng() % 3 ? 7 : rng());
          b[i] = static_cast<std::byte>(rng() % 3 ? 7 : rng());
        }
        judge<N>(a, b);
        judge_array<N>(a, b);
      }
    }
  }
}

template <std::size_t... I>
void lengths(std::index_sequence<I...>) { (length<I>(), ...); }

template <std::size_t... I>
void lengths_list() { (length<I>(), ...); }

// all 65536 pairs of values of one byte, at the positions of a hash
void exhaustive_values() {
  std::array<std::byte, 20> x{}, y{};
  for (std::size_t pos = 0; pos < 20; ++pos) {
    for (int u = 0; u < 256; ++u) {
      for (int v = 0; v < 256; ++v) {
        x[pos] = static_cast<std::byte>(u);
        y[pos] = static_cast<std::byte>(v);
        const int want = (u > v) - (u < v);
        if (int g = sign(arrcmp::array_compare(x, y, arrcmp::three_way{})); g != want) fail("values", 20, x.data(), y.data(), g, want);
        if (int g = sign(arrcmp::array_compare(x, y, arrcmp::three_way_int{})); g != want) fail("values", 20, x.data(), y.data(), g, want);
        if (arrcmp::array_compare(x, y, arrcmp::equal{}) != (want == 0)) fail("values", 20, x.data(), y.data(), 9, want);
        evaluations += 3;
      }
    }
    x[pos] = y[pos] = std::byte{0};
  }
}

template <typename Pw>
void records() {
  for (int k = 0; k < 60000; ++k) {
    auto x = std::make_unique<Pw>(), y = std::make_unique<Pw>();
    const std::size_t n = x->hash.size();
    for (std::size_t i = 0; i < n; ++i) x->hash[i] = y->hash[i] = static_cast<std::byte>(rng());
    if (rng() % 4) {
      std::size_t i = rng() % n;
      x->hash[i] = static_cast<std::byte>(rng());
      for (++i; i < n; ++i) {
        if (rng() % 2) x->hash[i] = static_cast<std::byte>(rng());
      }
    }
    static const std::int32_t cs[] = {-1, 0, 1, 2147483647, -2147483647 - 1, 256, 65536};
    x->count = rng() % 2 ? cs[rng() % 7] : static_cast<std::int32_t>(rng());
    y->count = rng() % 2 ? cs[rng() % 7] : static_cast<std::int32_t>(rng());
    const Pw &a = *x, &b = *y;
    const int want = sign(std::memcmp(a.hash.data(), b.hash.data(), n));
    auto chk = [&](bool g, bool w, const char* what) {
      if (g != w) fail(what, n, a.hash.data(), b.hash.data(), g, w);
      ++evaluations;
    };
    chk(a < b, want < 0, "record <");
    chk(a > b, want > 0, "record >");
    chk(a <= b, want <= 0, "record <=");
    chk(a >= b, want >= 0, "record >=");
    chk(a == b, want == 0, "record ==");
    chk(a != b, want != 0, "record !=");
    chk(sign(a <=> b) == want, true, "record <=>");
  }
}
} // namespace

#ifndef MAXN
#define MAXN 70
#endif

int main(int argc, char** argv) {
  rng.seed(argc > 1 ? std::strtoull(argv[1], nullptr, 10) : 1);
  rounds = argc > 2 ? std::strtoull(argv[2], nullptr, 10) : 1;
#ifdef NEED_CPU
  if (!__builtin_cpu_supports(NEED_CPU)) {
    std::printf("unsupported\n");
    return 0;
  }
#endif
  lengths(std::make_index_sequence<MAXN + 1>{});
  lengths_list<79, 80, 81, 95, 96, 97, 111, 112, 127, 128, 129, 130, 136, 160>();
  length<191>();
  length<255>();
  length<256>();
  length<257>();
  exhaustive_values();
  records<hibp::pawned_pw_sha1>();
  records<hibp::pawned_pw_ntlm>();
  records<hibp::pawned_pw_sha1t64>();
  std::printf("evaluations=%llu equal=%llu positions=%llu\n", evaluations, equal_pairs, distinct_pos);
  return 0;
}
