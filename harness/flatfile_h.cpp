// flat_file::database and its writers against std::vector. argv: directory, seed, mode (read | fail | write | sort | huge), rounds
#include "flat_file.hpp"
#include "hibp.hpp"
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <filesystem>
#include <fstream>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <sstream>
#include <string>
#include <unistd.h>
#include <type_traits>
#include <utility>
#include <vector>

namespace {
std::mt19937_64    rng;
unsigned long long evaluations = 0, cases = 0, refills = 0;
std::string        dir, trail;

[[noreturn, gnu::noinline, gnu::cold]] void fail(const std::string& what) {
  std::printf("MISMATCH %s\nhistory: %s\n", what.c_str(), trail.size() > 1200 ? trail.substr(trail.size() - 1200).c_str() : trail.c_str());
  std::fflush(stdout);
  std::_Exit(1);
}
void note(const std::string& s) {
  trail += s;
  trail += ' ';
}

template <std::size_t N>
struct blob {
  std::array<unsigned char, N> b;
  auto operator<=>(const blob&) const = default;
};

template <typename T>
T any() {
  T t;
  unsigned char* p = reinterpret_cast<unsigned char*>(&t);
  for (std::size_t i = 0; i < sizeof(T); ++i) p[i] = static_cast<unsigned char>(rng());
  return t;
}
template <typename T>
bool same(const T& a, const T& b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }

template <typename T>
void save(const std::string& path, const std::vector<T>& v) {
  std::FILE* f = std::fopen(path.c_str(), "wb");
  if (f == nullptr || (!v.empty() && std::fwrite(v.data(), sizeof(T), v.size(), f) != v.size()) || std::fclose(f) != 0) std::_Exit(77);
}
template <typename T>
std::vector<T> load(const std::string& path) {
  std::FILE* f = std::fopen(path.c_str(), "rb");
  if (f == nullptr) fail("no file " + path);
  std::vector<unsigned char> d;
  unsigned char b[4096];
  for (std::size_t k; (k = std::fread(b, 1, sizeof b, f)) > 0;) d.insert(d.end(), b, b + k);
  std::fclose(f);
  if (d.size() % sizeof(T) != 0) fail("the file " + path + " is not a whole number of records: " + std::to_string(d.size()));
  std::vector<T> v(d.size() / sizeof(T));
  if (!d.empty()) std::memcpy(v.data(), d.data(), d.size());
  return v;
}
template <typename F>
bool throws(F f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}

// many iterators, in any order
template <typename T>
void iterators(std::size_t n, std::size_t buf, int ops) {
  trail.clear();
  note("records=" + std::to_string(n) + " size=" + std::to_string(sizeof(T)) + " buffer=" + std::to_string(buf));
  std::vector<T> v(n);
  for (auto& x: v) x = any<T>();
  const std::string path = dir + "/read";
  save(path, v);
  using db_t = flat_file::database<T>;
  db_t db(path, buf);
  if (db.number_records() != n) fail("number_records() is " + std::to_string(db.number_records()));
  if (db.filesize() != n * sizeof(T)) fail("filesize()");
  auto other = std::make_unique<db_t>(path, 1 + rng() % 5); // a second object on the same file
  using it = typename db_t::const_iterator;
  struct cur {
    it          i;
    std::size_t p;
  };
  std::vector<cur> its;
  auto add = [&](it i, std::size_t p) {
    if (its.size() > 12) its.erase(its.begin() + static_cast<long>(rng() % its.size()));
    its.push_back({i, p});
  };
  add(db.begin(), 0);
  add(db.end(), n);
  const T* pending = nullptr; // of no interest any more after the next access
  for (int k = 0; k < ops; ++k) {
    const std::size_t idx = rng() % its.size();
    auto&       c   = its[idx];
    const auto  to  = [&] { return n == 0 ? std::size_t{0} : rng() % 4 == 0 ? std::min<std::size_t>(n, (rng() % (n / buf + 1)) * buf) : rng() % (n + 1); };
    const auto  op  = rng() % 18;
    note(std::to_string(op) + "@" + std::to_string(idx) + ":" + std::to_string(c.p));
    switch (op) {
    case 0: if (c.p < n) { if (it r = ++c.i; !(r == c.i)) fail("++ returns another iterator"); ++c.p; } break;
    case 1: if (c.p < n) { it o = c.i++; if (o == c.i) fail("post ++"); if (!same<T>(*o, v[c.p])) fail("post ++ value"); ++c.p; } break;
    case 2: if (c.p > 0) { --c.i; --c.p; } break;
    case 3: if (c.p > 0) { it o = c.i--; if (o - c.i != 1) fail("post -- "); --c.p; } break;
    case 4: { const auto t = to(); if (t >= c.p) c.i += t - c.p; else c.i -= c.p - t; c.p = t; break; }
    case 5: { const auto t = to(); if (t >= c.p) add(c.i + (t - c.p), t); else add(c.i - (c.p - t), t); break; }
    case 6: { const auto t = to(); if (t >= c.p) add((t - c.p) + c.i, t); break; }
    case 7: add(c.i, c.p); break;
    case 8: { const auto& e = its[rng() % its.size()];
              if ((c.i == e.i) != (c.p == e.p) || (c.i != e.i) != (c.p != e.p)) fail("comparing positions " + std::to_string(c.p) + " and " + std::to_string(e.p));
              if (e.i - c.i != static_cast<std::ptrdiff_t>(e.p) - static_cast<std::ptrdiff_t>(c.p)) fail("difference of positions " + std::to_string(c.p) + " and " + std::to_string(e.p));
              break; }
    case 9: { const auto j = rng() % its.size(); its[j] = its[idx]; break; }
    case 10: { const auto t = to();
               if (t < n) { if (!same<T>(db.get_record(t), v[t])) fail("get_record(" + std::to_string(t) + ")"); }
               else if (!throws([&] { (void)db.get_record(t); })) fail("get_record(" + std::to_string(t) + ") did not throw");
               break; }
    case 11: { const std::size_t t = n + rng() % 3 * (1 + rng() % 50);
               if (!throws([&] { (void)db.get_record(t); })) fail("get_record(" + std::to_string(t) + ") did not throw");
               break; }
    case 12: if (!throws([&] { (void)*(db.begin() + n); })) fail("end() could be dereferenced"); break;
    case 13: { it b = db.begin(); std::advance(b, static_cast<std::ptrdiff_t>(to())); (void)b;
               if (n && !same<T>(db.back(), v[n - 1])) fail("back()");
               break; }
    case 14: { // algorithms that hold several references or iterators
               const auto t = to();
               if (t < n && rng() % 8 == 0) {
                 auto f = std::find_if(db.begin(), db.end(), [&](const T& x) { return same<T>(x, v[t]); });
                 const auto w = std::find_if(v.begin(), v.end(), [&](const T& x) { return same<T>(x, v[t]); }) - v.begin();
                 if (f - db.begin() != w) fail("find_if");
               }
               break; }
    case 15: { const auto t = to(); if (t < n && !same<T>(other->get_record(t), v[t])) fail("the second object's get_record"); break; }
    case 16: { // copied ranges
               auto a = to(), b = to();
               if (a > b) std::swap(a, b);
               if (b - a > 200) b = a + 200;
               std::vector<T> got;
               std::copy(db.begin() + a, db.begin() + b, std::back_inserter(got));
               for (std::size_t i = a; i < b; ++i) if (!same<T>(got[i - a], v[i])) fail("copy, record " + std::to_string(i));
               evaluations += b - a;
               break; }
    default: break;
    }
    for (int j = 0; j < 2; ++j) { // look at some of them
      auto& e = its[rng() % its.size()];
      if (e.p < n) {
        const T got = rng() % 2 ? *e.i : *(e.i.operator->());
        if (!same<T>(got, v[e.p])) fail("the record at position " + std::to_string(e.p));
      } else if (!throws([&] { (void)*e.i; })) {
        fail("access past the end did not throw");
      }
      if (e.i.pos() != e.p) fail("pos() is " + std::to_string(e.i.pos()) + ", not " + std::to_string(e.p));
      ++evaluations;
    }
    if (rng() % 100 == 0) { // the object moves; its iterators end
      db_t tmp(std::move(db));
      db = std::move(tmp);
      its.clear();
      add(db.begin(), 0);
      add(db.end(), n);
      note("moved");
    }
  }
  (void)pending;
  ++cases;
}

// algorithms on sorted records
template <typename T>
void algorithms(std::size_t n, std::size_t buf) {
  trail.clear();
  note("sorted records=" + std::to_string(n) + " buffer=" + std::to_string(buf));
  std::vector<T> v(n);
  for (auto& x: v) x = any<T>();
  std::sort(v.begin(), v.end());
  const std::string path = dir + "/alg";
  save(path, v);
  flat_file::database<T> db(path, buf), db2(path, 1 + rng() % 7);
  for (int k = 0; k < 30; ++k) {
    const T needle = n && rng() % 2 ? v[rng() % n] : any<T>();
    auto a = std::lower_bound(db.begin(), db.end(), needle);
    auto w = std::lower_bound(v.begin(), v.end(), needle) - v.begin();
    if (a - db.begin() != w) fail("lower_bound");
    auto u = std::upper_bound(db.begin(), db.end(), needle);
    if (u - db.begin() != std::upper_bound(v.begin(), v.end(), needle) - v.begin()) fail("upper_bound");
    ++evaluations;
  }
  if (!std::equal(db.begin(), db.end(), v.begin(), v.end(), [](const T& a, const T& b) { return same<T>(a, b); })) fail("equal");
  auto [x, y] = std::mismatch(db.begin(), db.end(), db2.begin(), db2.end(), [](const T& a, const T& b) { return same<T>(a, b); });
  if (!(x == db.end() && y == db2.end())) fail("mismatch");
  std::size_t i = 0;
  for (const auto& r: db) {
    if (!same<T>(r, v[i])) fail("range for, record " + std::to_string(i));
    ++i;
  }
  if (i != n) fail("range for saw " + std::to_string(i) + " records");
  evaluations += 3 * n;
  ++cases;
}

// reads that fail: the file is cut under the object, and perhaps comes back
template <typename T>
void failures(std::size_t n, std::size_t buf) {
  trail.clear();
  note("failing reads, records=" + std::to_string(n) + " buffer=" + std::to_string(buf));
  std::vector<T> v(n);
  for (auto& x: v) x = any<T>();
  const std::string path = dir + "/fail";
  save(path, v);
  flat_file::database<T> db(path, buf);
  std::size_t have = n * sizeof(T);
  for (int k = 0; k < 60; ++k) {
    if (rng() % 6 == 0) {
      const std::size_t cut = rng() % 3 ? rng() % (n * sizeof(T) + 1) : n * sizeof(T);
      if (cut > have) { // restored
        std::FILE* f = std::fopen(path.c_str(), "r+b");
        std::fwrite(v.data(), sizeof(T), n, f);
        std::fclose(f);
        if (truncate(path.c_str(), static_cast<off_t>(n * sizeof(T))) != 0) std::_Exit(77);
        have = n * sizeof(T);
      } else {
        if (truncate(path.c_str(), static_cast<off_t>(cut)) != 0) std::_Exit(77);
        have = cut;
      }
      note("file=" + std::to_string(have));
    }
    const std::size_t p = rng() % 5 ? rng() % n : n + rng() % 4;
    note(std::to_string(p));
    try {
      const T got = rng() % 2 ? db.get_record(p) : *(db.begin() + p);
      ++evaluations;
      if (p >= n) fail("record " + std::to_string(p) + " of " + std::to_string(n) + " could be read");
      if (!same<T>(got, v[p])) fail("record " + std::to_string(p) + " is wrong after a failed read");
    } catch (const std::exception&) {
      ++refills;
      // all that a read could need is there: it must not fail because of an earlier failure
      if (p < n && have == n * sizeof(T)) fail("record " + std::to_string(p) + " cannot be read, although the file is complete");
    }
  }
  ++cases;
}

template <typename W, typename T>
void handed_on(std::unique_ptr<W> w, const std::vector<T>& v) {
  std::vector<std::unique_ptr<W>> old;
  for (const auto& x: v) {
    if constexpr (std::is_move_constructible_v<W>) {
      if (rng() % 50 == 0) {
        auto next = std::make_unique<W>(std::move(*w));
        old.push_back(std::exchange(w, std::move(next)));
        note("m");
      }
    }
    if (rng() % 50 == 0) old.clear();
    w->write(x);
    if (rng() % 100 == 0) w->flush(rng() % 2);
  }
  if (rng() % 2) w->flush(true);
  if (rng() % 2) old.clear();
  w.reset();
}

template <typename T>
void writers(std::size_t n, std::size_t buf) {
  trail.clear();
  note("writing records=" + std::to_string(n) + " size=" + std::to_string(sizeof(T)) + " buffer=" + std::to_string(buf));
  std::vector<T> v(n);
  for (auto& x: v) x = any<T>();
  const int kind = static_cast<int>(rng() % 6);
  const unsigned density = 1 + rng() % 400;
  const std::string path = dir + "/write";
  auto fill = [&](auto& w) {
    for (const auto& x: v) {
      if (rng() % density == 0) { w.flush(); note("f"); }
      if (rng() % density == 0) { w.flush(true); note("F"); }
      w.write(x);
      if (rng() % density == 0) w.flush(rng() % 2);
    }
    if (rng() % 2) w.flush(rng() % 2);
  };
  std::filesystem::remove(path);
  if (kind == 0) {
    flat_file::file_writer<T> w(path);
    fill(w);
  } else if (kind == 1) {
    std::ofstream os(path, std::ios::binary);
    flat_file::stream_writer<T> w(os, buf);
    fill(w);
  } else if (kind == 2) { // several writers in turn on one stream
    std::ofstream os(path, std::ios::binary);
    std::size_t at = 0;
    while (at < n) {
      const std::size_t k = std::min<std::size_t>(n - at, 1 + rng() % 900);
      flat_file::stream_writer<T> w(os, 1 + rng() % 70);
      for (std::size_t i = 0; i < k; ++i) {
        w.write(v[at + i]);
        if (rng() % density == 0) w.flush();
      }
      at += k;
    }
  } else if (kind == 4) { // handed on from writer to writer, the old ones living on for a while or not
    handed_on(std::make_unique<flat_file::file_writer<T>>(path), v);
  } else if (kind == 5) {
    std::ofstream os(path, std::ios::binary);
    handed_on(std::make_unique<flat_file::stream_writer<T>>(os, buf), v);
  } else {
    std::ostringstream os;
    {
      flat_file::stream_writer<T> w(os, buf);
      fill(w);
    }
    const std::string s = os.str();
    std::FILE* f = std::fopen(path.c_str(), "wb");
    std::fwrite(s.data(), 1, s.size(), f);
    std::fclose(f);
  }
  const auto got = load<T>(path);
  if (got.size() != n) fail("kind " + std::to_string(kind) + ": " + std::to_string(got.size()) + " records in the file instead of " + std::to_string(n));
  for (std::size_t i = 0; i < n; ++i)
    if (!same<T>(got[i], v[i])) fail("kind " + std::to_string(kind) + ": record " + std::to_string(i) + " of the file is wrong");
  // and read it back by the class
  flat_file::database<T> db(path, buf);
  std::size_t i = 0;
  for (const auto& x: db) {
    if (!same<T>(x, v[i])) fail("record " + std::to_string(i) + " read back");
    ++i;
  }
  evaluations += 2 * n;
  ++cases;
}

template <typename T>
void sorts(std::size_t n, std::size_t chunk) {
  trail.clear();
  note("sorting records=" + std::to_string(n) + " chunk=" + std::to_string(chunk));
  std::vector<T> v(n);
  std::vector<T> few(1 + rng() % 50);
  for (auto& x: few) x = any<T>();
  for (auto& x: v) {
    x       = rng() % 3 ? any<T>() : few[rng() % few.size()];
    x.count = rng() % 2 ? static_cast<std::int32_t>(rng() % 20) : static_cast<std::int32_t>(rng());
  }
  const std::string path = dir + "/sort me";
  save(path, v);
  std::filesystem::remove(path + ".sorted");
  std::size_t files = 0;
  for (auto& e: std::filesystem::directory_iterator(dir)) (void)e, ++files;
  flat_file::database<T> db(path, 1 + rng() % 200);
  auto bytes = chunk * sizeof(T) + rng() % sizeof(T);
  std::string out;
  std::freopen((dir + "/err").c_str(), "w", stderr);
  auto lex = [](const T& a, const T& b) { return std::memcmp(a.hash.data(), b.hash.data(), a.hash.size()) < 0; };
  const int kind = static_cast<int>(rng() % 6);
  auto order = [&](const T& a, const T& b) {
    switch (kind) {
    case 0: return lex(a, b);
    case 1: return a.count != b.count ? a.count > b.count : lex(a, b);
    case 2: return lex(b, a);
    default: return a.count < b.count;
    }
  };
  if (kind == 0) out = db.disksort({}, {}, bytes);
  else if (kind == 1) out = db.disksort([](const auto& a, const auto& b) { return a.count != b.count ? a.count > b.count : a < b; }, {}, bytes);
  else if (kind == 2) out = db.disksort(std::greater<>{}, {}, bytes);
  else out = db.disksort({}, &T::count, bytes);
  auto got = load<T>(out);
  if (got.size() != n) fail("sorting gave " + std::to_string(got.size()) + " records");
  for (std::size_t i = 1; i < n; ++i)
    if (order(got[i], got[i - 1])) fail("sorted by " + std::to_string(kind) + ": record " + std::to_string(i) + " is out of order");
  auto key = [](const T& a, const T& b) { return std::memcmp(&a, &b, sizeof(T)) < 0; };
  auto s = v;
  std::sort(s.begin(), s.end(), key);
  std::sort(got.begin(), got.end(), key);
  for (std::size_t i = 0; i < n; ++i)
    if (!same<T>(got[i], s[i])) fail("sorting changed the records");
  auto now = load<T>(path);
  for (std::size_t i = 0; i < n; ++i)
    if (!same<T>(now[i], v[i])) fail("sorting changed its input");
  std::size_t after = 0;
  for (auto& e: std::filesystem::directory_iterator(dir)) (void)e, ++after;
  std::filesystem::remove(dir + "/err");
  if (after > files + 2) fail(std::to_string(after - files) + " files more than before sorting");
  std::filesystem::remove(out);
  evaluations += n;
  ++cases;
}
} // namespace

// a database of many gigabytes, most of it holes
template <typename T>
void huge(std::uint64_t bytes, std::size_t buf) {
  trail.clear();
  const std::uint64_t n = bytes / sizeof(T) + rng() % 1000;
  note("records=" + std::to_string(n) + " size=" + std::to_string(sizeof(T)) + " buffer=" + std::to_string(buf));
  const std::string path = dir + "/huge";
  std::FILE* f = std::fopen(path.c_str(), "wb");
  if (f == nullptr || ftruncate(fileno(f), static_cast<off_t>(n * sizeof(T))) != 0) {
    if (f != nullptr) std::fclose(f);
    unlink(path.c_str());
    ++refills; // no such files here
    return;
  }
  std::map<std::uint64_t, T> v;
  std::vector<std::uint64_t> at{0, n - 1, n / 2};
  for (int b = 28; b <= 36; ++b)      // around the powers of two, of bytes and of records
    for (std::uint64_t x: {(std::uint64_t{1} << b) / sizeof(T), std::uint64_t{1} << b})
      for (int k = -2; k <= 2; ++k) at.push_back(x + static_cast<std::uint64_t>(k));
  for (int k = 0; k < 20; ++k) at.push_back(rng() % n);
  for (auto p: at) {
    if (p >= n) continue;
    const T t = any<T>();
    v[p] = t;
    if (pwrite(fileno(f), &t, sizeof t, static_cast<off_t>(p * sizeof(T))) != static_cast<ssize_t>(sizeof t)) std::_Exit(77);
  }
  std::fclose(f);
  std::vector<std::uint64_t> known;
  for (auto& x: v) known.push_back(x.first);
  T zero;
  std::memset(&zero, 0, sizeof zero);
  const auto want = [&](std::uint64_t p) { auto i = v.find(p); return i == v.end() ? zero : i->second; };
  {
    flat_file::database<T> db(path, buf);
    if (db.number_records() != n) fail("number_records() is " + std::to_string(db.number_records()));
    if (db.filesize() != n * sizeof(T)) fail("filesize()");
    if (!same<T>(db.back(), v[n - 1])) fail("back()");
    auto          it = db.begin();
    std::uint64_t p  = 0;
    for (int k = 0; k < 400; ++k) {
      std::uint64_t t = known[rng() % known.size()];
      if (rng() % 3 == 0) t += rng() % 7;
      if (t >= n) t = n - 1;
      note(std::to_string(t));
      switch (rng() % 4) {
      case 0: it = db.begin() + t; break;
      case 1: it = db.end() - (n - t); break;
      case 2: if (t >= p) it += t - p; else it -= p - t; break;
      default: if (!same<T>(db.get_record(t), want(t))) fail("get_record(" + std::to_string(t) + ")"); it = db.begin() + t;
      }
      p = t;
      if (!same<T>(*it, want(p))) fail("record " + std::to_string(p));
      if (it - db.begin() != static_cast<std::ptrdiff_t>(p) || db.begin() - it != -static_cast<std::ptrdiff_t>(p)) fail("difference");
      if (it.pos() != p) fail("pos()");
      for (int s = static_cast<int>(rng() % 4); s > 0 && p + 1 < n; --s) {
        ++it, ++p;
        if (!same<T>(*it, want(p))) fail("record " + std::to_string(p) + " after ++");
      }
      ++evaluations;
    }
  }
  unlink(path.c_str());
  ++cases;
}

int main(int argc, char** argv) {
  if (argc < 5) return 77;
  dir = argv[1];
  rng.seed(std::strtoull(argv[2], nullptr, 10));
  const std::string mode = argv[3];
  const long rounds = std::atol(argv[4]);
  static const std::size_t sizes[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 199};
  static const std::size_t bufs[] = {1, 1, 2, 3, 4, 7, 8, 16, 17, 100, 204, 1000};
  try {
    for (long k = 0; k < rounds; ++k) {
      const std::size_t n = rng() % 4 ? sizes[rng() % (sizeof sizes / sizeof *sizes)] : rng() % 400, b = bufs[rng() % (sizeof bufs / sizeof *bufs)];
      if (mode == "read") {
        switch (rng() % 6) {
        case 0: iterators<hibp::pawned_pw_sha1>(n, b, 200); break;
        case 1: iterators<hibp::pawned_pw_ntlm>(n, b, 200); break;
        case 2: iterators<hibp::pawned_pw_sha1t64>(n, b, 200); break;
        case 3: iterators<blob<1>>(n, b, 200); break;
        case 4: iterators<blob<7>>(n, b, 200); break;
        default: iterators<blob<65>>(n, b, 200);
        }
        switch (rng() % 4) {
        case 0: algorithms<hibp::pawned_pw_sha1>(n, b); break;
        case 1: algorithms<hibp::pawned_pw_ntlm>(n, b); break;
        case 2: algorithms<hibp::pawned_pw_sha1t64>(n, b); break;
        default: algorithms<blob<3>>(n, b);
        }
      } else if (mode == "huge") {
        const std::uint64_t bytes = (std::uint64_t{1} << (31 + rng() % 6)) + rng() % 100000;
        switch (rng() % 4) {
        case 0: huge<hibp::pawned_pw_sha1>(bytes, b); break;
        case 1: huge<hibp::pawned_pw_ntlm>(bytes, b); break;
        case 2: huge<hibp::pawned_pw_sha1t64>(bytes, b); break;
        default: huge<blob<1>>(bytes, b);
        }
      } else if (mode == "fail") {
        if (rng() % 2) failures<hibp::pawned_pw_sha1>(n + 1, b);
        else failures<blob<7>>(n + 1, b);
      } else if (mode == "write") {
        const std::size_t m = rng() % 8 ? n : 990 + rng() % 20 + rng() % 3 * 1000;
        switch (rng() % 5) {
        case 0: writers<hibp::pawned_pw_sha1>(m, b); break;
        case 1: writers<hibp::pawned_pw_ntlm>(m, b); break;
        case 2: writers<hibp::pawned_pw_sha1t64>(m, b); break;
        case 3: writers<blob<1>>(m, b); break;
        default: writers<blob<61>>(m, b);
        }
      } else if (mode == "sort") {
        static const std::size_t cs[] = {1, 2, 3, 10, 50, 999, 1000, 1001, 2000, 5000};
        const std::size_t c = cs[rng() % 10];
        const std::size_t m = c >= 999 ? c * (rng() % 3) + rng() % 1500 : std::min<std::size_t>(c * (rng() % 5) + rng() % (3 * c), 200);
        switch (rng() % 3) {
        case 0: sorts<hibp::pawned_pw_sha1>(m, c); break;
        case 1: sorts<hibp::pawned_pw_ntlm>(m, c); break;
        default: sorts<hibp::pawned_pw_sha1t64>(m, c);
        }
      } else {
        return 77;
      }
    }
  } catch (const std::exception& e) {
    fail(std::string("exception: ") + e.what());
  }
  std::printf("evaluations=%llu cases=%llu refused=%llu\n", evaluations, cases, refills);
  return 0;
}
