From 9bf310e835d05e226d68ed1950c11b670cd00af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 01/36] fix: flat_file iterators must not cache pointers into
 the shared buffer

Another iterator of the same database may refill the buffer in between, after which the
cached pointer referred to a different record.
---
 include/flat_file.hpp | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index 72e12d6..77fc337 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -170,7 +170,7 @@ struct database<ValueType>::const_iterator {
 
   // clang-format off
   reference operator*() const { return current(); }
-  pointer   operator->() const { current(); return cur_; }
+  pointer   operator->() const { return &current(); }
 
   bool operator==(const const_iterator& other) const { return ffdb_ == other.ffdb_ && pos_ == other.pos_; }
   
@@ -196,22 +196,12 @@ struct database<ValueType>::const_iterator {
 private:
   database*   ffdb_ = nullptr;
   std::size_t pos_{};
-  // cur_ and cur_valid_ are mutable so that operator* can be const
-  mutable const value_type* cur_;
-  mutable bool              cur_valid_ = false;
 
-  void set_pos(std::size_t pos) {
-    pos_       = pos;
-    cur_valid_ = false;
-  }
+  void set_pos(std::size_t pos) { pos_ = pos; }
 
-  reference current() const {
-    if (!cur_valid_) {
-      cur_       = &ffdb_->get_record(pos_);
-      cur_valid_ = true;
-    }
-    return *cur_;
-  }
+  // The buffer is shared by all iterators of the database and may have been refilled since our last
+  // access, so don't cache a pointer into it here.
+  reference current() const { return ffdb_->get_record(pos_); }
 };
 
 template <typename ValueType, typename Comp = std::less<>, typename Proj = std::identity>
-- 
2.43.0


From 191f2f675566321f22c323369ebac5353bb975f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 02/36] fix: flat_file must not serve clobbered buffer contents
 after a failed read

---
 include/flat_file.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index 77fc337..b35988d 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -124,6 +124,8 @@ public:
         throw std::runtime_error(
             "flat_file:get_record cannot return data, are you dereferencing db.end()?");
       }
+      buf_start_ = buf_end_ = 0; // a failed read leaves no valid data in the buffer
+      db_.clear();               // a previous failure must not affect this read
       db_.seekg(static_cast<std::streamoff>(pos * sizeof(ValueType)));
 
       db_.read(reinterpret_cast<char*>(buf_.data()), // NOLINT reinterpret_cast
-- 
2.43.0


From 6052eb456c5116b7969f17c437827b8d65c4bf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 03/36] fix: hibp-diff must accept consecutive inserts and
 inserts before updates

Any growth other than a single isolated insert was reported as a deletion.
---
 src/diffutils.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/diffutils.cpp b/src/diffutils.cpp
index 4a6c34e..cfc7d3b 100644
--- a/src/diffutils.cpp
+++ b/src/diffutils.cpp
@@ -56,13 +56,8 @@ void run_diff(const std::filesystem::path& old_path, const std::filesystem::path
     }
     // fine to dereference both
 
-    if (std::next(diff_iter_old) != db_old.end() &&
-        deep_equals(*std::next(diff_iter_old), *diff_iter_new)) {
-      throw std::runtime_error("Deletion from OLD");
-    }
-    // fine to dereference std::next(new)
-    if (std::next(diff_iter_new) != db_new.end() &&
-        deep_equals(*diff_iter_old, *std::next(diff_iter_new))) {
+    // both are sorted by hash, so the order tells us what happened
+    if (*diff_iter_new < *diff_iter_old) { // comparing hash only
       const hunk h{hunk_type::insert, static_cast<unsigned>(diff_iter_old - db_old.begin()),
              *diff_iter_new};
       diff << h << '\n';
@@ -70,8 +65,8 @@ void run_diff(const std::filesystem::path& old_path, const std::filesystem::path
       new_begin = diff_iter_new + 1;
       continue;
     }
-    if (*diff_iter_old != *diff_iter_new) { // comparing hash only
-      throw std::runtime_error("Replacement implies deletion");
+    if (*diff_iter_old < *diff_iter_new) { // comparing hash only
+      throw std::runtime_error("Deletion from OLD");
     }
     const hunk h{hunk_type::update, static_cast<unsigned>(diff_iter_old - db_old.begin()),
            *diff_iter_new};
-- 
2.43.0


From 915c4106bb948d6439063fc48b27c2d0883f39ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 04/36] fix: hibp-sort crashed on an empty database and on
 --max-memory 0 (division by zero)

---
 include/flat_file.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index b35988d..042bccc 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -213,7 +213,8 @@ std::vector<std::string> sort_into_chunks(typename database<ValueType>::const_it
                                           std::size_t max_memory_usage = 1'000'000'000) {
 
   auto        records_to_sort = static_cast<std::size_t>(last - first);
-  std::size_t chunk_size      = std::min(records_to_sort, max_memory_usage / sizeof(ValueType));
+  std::size_t chunk_size      = std::max( // at least one, or we would divide by zero
+      std::min(records_to_sort, max_memory_usage / sizeof(ValueType)), std::size_t{1});
   std::size_t number_of_chunks =
       (records_to_sort / chunk_size) + static_cast<std::size_t>(records_to_sort % chunk_size != 0);
 
-- 
2.43.0


From e8ecbc81c3ba039ae7d09efddebaa9159c8897b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 05/36] fix: hibp-topn --stdout mixed progress messages into
 the binary output

---
 app/hibp_topn.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/app/hibp_topn.cpp b/app/hibp_topn.cpp
index fef4656..eb055b9 100644
--- a/app/hibp_topn.cpp
+++ b/app/hibp_topn.cpp
@@ -72,6 +72,9 @@ std::ofstream get_output_stream(const std::string& output_filename, bool force)
 
 template <hibp::pw_type PwType>
 void build_topn(const cli_config_t& cli) {
+  // standard_output must contain nothing but the records
+  std::ostream& progress = cli.standard_output ? std::cerr : std::cout;
+
   std::ostream* output_stream      = &std::cout;
   std::string   output_stream_name = "standard_output";
   std::ofstream ofs;
@@ -90,7 +93,7 @@ void build_topn(const cli_config_t& cli) {
   }
   std::vector<PwType> memdb(cli.topn);
 
-  std::cout << fmt::format("{:50}", "Read db from disk and topN sort by count desc ...");
+  progress << fmt::format("{:50}", "Read db from disk and topN sort by count desc ...");
 
   using clk   = std::chrono::high_resolution_clock;
   using fsecs = std::chrono::duration<double>;
@@ -105,9 +108,9 @@ void build_topn(const cli_config_t& cli) {
                            return a.count > b.count;
                          });
 
-  std::cout << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
+  progress << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
 
-  std::cout << fmt::format("{:50}", "Sort by hash ascending ...");
+  progress << fmt::format("{:50}", "Sort by hash ascending ...");
   start = clk::now();
   // default sort by hash ascending
   std::sort(
@@ -115,15 +118,15 @@ void build_topn(const cli_config_t& cli) {
       std::execution::par_unseq,
 #endif
       memdb.begin(), memdb.end());
-  std::cout << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
+  progress << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
 
   start = clk::now();
-  std::cout << fmt::format("{:50}", "Write TopN db to disk ...");
+  progress << fmt::format("{:50}", "Write TopN db to disk ...");
   auto output_db = flat_file::stream_writer<PwType>(*output_stream);
   for (const auto& pw: memdb) {
     output_db.write(pw);
   }
-  std::cout << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
+  progress << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
 }
 
 int main(int argc, char* argv[]) {
-- 
2.43.0


From 8b50cc45b1ceb6f13b4b596ca56ee55c0b260ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 06/36] fix: hibp-topn truncated the output file before finding
 the input unusable

---
 app/hibp_topn.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/app/hibp_topn.cpp b/app/hibp_topn.cpp
index eb055b9..71ab4ec 100644
--- a/app/hibp_topn.cpp
+++ b/app/hibp_topn.cpp
@@ -75,6 +75,15 @@ void build_topn(const cli_config_t& cli) {
   // standard_output must contain nothing but the records
   std::ostream& progress = cli.standard_output ? std::cerr : std::cout;
 
+  flat_file::database<PwType> input_db(cli.input_filename, (1U << 16U) / sizeof(PwType));
+
+  if (input_db.number_records() <= cli.topn) {
+    throw std::runtime_error(
+        fmt::format("size of input db ({}) <= topn ({}). Output would be identical. Aborting.",
+                    input_db.number_records(), cli.topn));
+  }
+
+  // only now that the input is known to be usable, so that a failing run never truncates a file
   std::ostream* output_stream      = &std::cout;
   std::string   output_stream_name = "standard_output";
   std::ofstream ofs;
@@ -84,13 +93,6 @@ void build_topn(const cli_config_t& cli) {
     output_stream_name = cli.output_filename;
   }
 
-  flat_file::database<PwType> input_db(cli.input_filename, (1U << 16U) / sizeof(PwType));
-
-  if (input_db.number_records() <= cli.topn) {
-    throw std::runtime_error(
-        fmt::format("size of input db ({}) <= topn ({}). Output would be identical. Aborting.",
-                    input_db.number_records(), cli.topn));
-  }
   std::vector<PwType> memdb(cli.topn);
 
   progress << fmt::format("{:50}", "Read db from disk and topN sort by count desc ...");
-- 
2.43.0


From 3c1d5b885adc9c0bc5e559f34adc584b755f5e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 07/36] fix: hibp-topn and hibp-convert --force destroyed their
 input when it was also the output

---
 app/hibp_convert.cpp | 5 +++++
 app/hibp_topn.cpp    | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/app/hibp_convert.cpp b/app/hibp_convert.cpp
index 0ea2dfb..147df6f 100644
--- a/app/hibp_convert.cpp
+++ b/app/hibp_convert.cpp
@@ -13,6 +13,7 @@
 #include <ostream>
 #include <stdexcept>
 #include <string>
+#include <system_error>
 
 struct cli_config_t {
   std::string output_filename;
@@ -125,6 +126,10 @@ void check_options(const cli_config_t& cli) {
     throw std::runtime_error("Please use exactly one of -o|--output and --stdout, not "
                              "both, and not neither.");
   }
+
+  if (std::error_code ec; std::filesystem::equivalent(cli.input_filename, cli.output_filename, ec)) {
+    throw std::runtime_error("Input and output are the same file.");
+  }
 }
 
 void convert(const cli_config_t& cli) {
diff --git a/app/hibp_topn.cpp b/app/hibp_topn.cpp
index 71ab4ec..0c02b9d 100644
--- a/app/hibp_topn.cpp
+++ b/app/hibp_topn.cpp
@@ -21,6 +21,7 @@
 #include <ostream>
 #include <stdexcept>
 #include <string>
+#include <system_error>
 #include <vector>
 
 struct cli_config_t {
@@ -146,6 +147,10 @@ int main(int argc, char* argv[]) {
                                "both, and not neither.");
     }
 
+    if (std::error_code ec; std::filesystem::equivalent(cli.input_filename, cli.output_filename, ec)) {
+      throw std::runtime_error("Input and output are the same file.");
+    }
+
     if (cli.ntlm && cli.sha1t64) {
       throw std::runtime_error("Please don't use --ntlm and --sha1t64 together.");
     }
-- 
2.43.0


From 57510b1f43d7705e3e35eff1bea6bf329bc96c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 08/36] fix: hibp-convert --bin-to-txt --limit 0 converted
 everything

---
 app/hibp_convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/hibp_convert.cpp b/app/hibp_convert.cpp
index 147df6f..c0339f5 100644
--- a/app/hibp_convert.cpp
+++ b/app/hibp_convert.cpp
@@ -98,9 +98,9 @@ void bin_to_txt(const std::string& input_filename, std::ostream& output_stream,
 
   std::size_t count = 0;
   for (const auto& record: db) {
+    if (count == limit) break;
     output_stream << record << '\n';
     count++;
-    if (count == limit) break;
   }
 }
 
-- 
2.43.0


From 88ba60bdaefb05153f3877151693ff8e5cfc907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 09/36] fix: hibp-dupes reported a first record with prefix
 FFFFFFFFFFFFFFFF as a dupe

---
 app/hibp_dupes.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/hibp_dupes.cpp b/app/hibp_dupes.cpp
index 950ba70..421e791 100644
--- a/app/hibp_dupes.cpp
+++ b/app/hibp_dupes.cpp
@@ -8,6 +8,7 @@
 #include <fmt/chrono.h> // IWYU pragma: keep
 #include <fmt/format.h>
 #include <iostream>
+#include <optional>
 #include <string>
 // #include <unordered_set>
 
@@ -37,7 +38,7 @@ void run_search(const cli_config_t& cli) {
   flat_file::database<PwType> db(cli.db_filename, (1U << 16U) / sizeof(PwType));
 
   std::cout << fmt::format("Looking for duplicates in the first {} bits of the hash...\n", cli.bits);
-  std::uint64_t last = -1;
+  std::optional<std::uint64_t> last;
   for (auto& pw: db) {
     auto prefix = arrcmp::impl::bytearray_cast<std::uint64_t>(pw.hash.data()) >> (64 - cli.bits);
     if (prefix == last) {
-- 
2.43.0


From 5321ff655de1e1813bfe3af537bc4cd6156b8701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 10/36] fix: misaligned load (undefined behaviour) when
 comparing or indexing record hashes

---
 include/arrcmp.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/arrcmp.hpp b/include/arrcmp.hpp
index 1790192..f631ab2 100644
--- a/include/arrcmp.hpp
+++ b/include/arrcmp.hpp
@@ -6,6 +6,7 @@
 #include <concepts>
 #include <cstddef>
 #include <cstdint>
+#include <cstring>
 #include <emmintrin.h>
 #include <immintrin.h>
 #include <type_traits>
@@ -67,7 +68,8 @@ constexpr T bytearray_cast(const std::byte* source) noexcept
                     std::endian::native == std::endian::little,
                 "mixed-endianess architectures are not supported");
 
-  T value = *reinterpret_cast<const T*>(source); // NOLINT reincast
+  T value;
+  std::memcpy(&value, source, sizeof(T)); // source is not necessarily aligned
 
   if constexpr (swap_if_required && sizeof(T) > 1 && std::endian::native == std::endian::little) {
     return byteswap<T>(value);
-- 
2.43.0


From 774e736f1292fc2dc68dbb2e50320034dd4409c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 11/36] fix: malformed text records were read out of bounds or
 silently stored as garbage

---
 include/hibp.hpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/hibp.hpp b/include/hibp.hpp
index c9b9e31..b79132a 100644
--- a/include/hibp.hpp
+++ b/include/hibp.hpp
@@ -9,8 +9,10 @@
 #include <cstdint>
 #include <fmt/format.h>
 #include <ostream>
+#include <stdexcept>
 #include <string>
 #include <string_view>
+#include <system_error>
 
 namespace hibp {
 
@@ -20,7 +22,9 @@ struct pawned_pw;
 namespace detail {
 
 constexpr std::byte make_nibble(char c) {
-  assert((c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'));
+  if (!((c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'))) {
+    throw std::invalid_argument("invalid hash: not a hex digit");
+  }
   auto nibble = c - '0';
   if (nibble > 9) nibble = (nibble & ~('a' - 'A')) - ('A' - '0') + 10; // NOLINT signed
   assert(nibble >= 0 && nibble <= 15);
@@ -52,7 +56,9 @@ struct pawned_pw {
   pawned_pw() = default;
 
   explicit pawned_pw(const std::string& text) {
-    assert(text.length() >= hash_str_size);
+    if (text.length() < hash_str_size) {
+      throw std::invalid_argument("invalid hash: too short");
+    }
     std::size_t i = 0;
     for (auto& b: hash) {
       b = detail::make_byte(&text[2 * i]);
@@ -64,11 +70,20 @@ struct pawned_pw {
     if constexpr (HashSize == 8) { // special case for sha1t64
       // is this a sha1 hash? 
       if (text.size() > hash_str_size && text[hash_str_size] != ':' && text.size() >= 20UL * 2) {
+        for (; i != 20UL; ++i) detail::make_byte(&text[2 * i]); // discarded, but must be valid
         count_idx = 20UL * 2 + 1; // skip foward to the count at end of sha1 hash
       }
     }
     if (text.size() > count_idx) {
-      std::from_chars(text.c_str() + count_idx, text.c_str() + text.size(), count);
+      if (text[count_idx - 1] != ':') {
+        throw std::invalid_argument("invalid record: no ':' after the hash");
+      }
+      const char* const end = text.c_str() + text.size();
+      auto [ptr, ec]        = std::from_chars(text.c_str() + count_idx, end, count);
+      if (ptr != end && *ptr == '\r') ++ptr; // tolerate CRLF line endings
+      if (ec != std::errc{} || ptr != end) {
+        throw std::invalid_argument("invalid record: count is not a 32bit number");
+      }
     }
   }
 
-- 
2.43.0


From 72572db9aff6802d33f8054fa61217a89e150e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 12/36] fix: failed writes and reads were reported as success
 (or ended in std::terminate)

Errors that only show when the last buffer is flushed were ignored by hibp-convert, hibp-topn,
hibp-sort, hibp-diff and hibp-download, and ~stream_writer threw.
---
 app/hibp_convert.cpp  |  8 ++++++++
 app/hibp_diff.cpp     |  5 +++++
 app/hibp_download.cpp |  4 +++-
 app/hibp_topn.cpp     |  1 +
 include/flat_file.hpp | 26 +++++++++++++++++++++-----
 5 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/app/hibp_convert.cpp b/app/hibp_convert.cpp
index c0339f5..b2469f8 100644
--- a/app/hibp_convert.cpp
+++ b/app/hibp_convert.cpp
@@ -89,6 +89,10 @@ void txt_to_bin(std::istream& input_stream, std::ostream& output_stream, std::si
   for (std::string line; std::getline(input_stream, line) && count != limit; count++) {
     writer.write(PwType{line});
   }
+  if (input_stream.bad()) {
+    throw std::runtime_error("Error reading the input.");
+  }
+  writer.flush(true);
 }
 
 template <hibp::pw_type PwType>
@@ -102,6 +106,10 @@ void bin_to_txt(const std::string& input_filename, std::ostream& output_stream,
     output_stream << record << '\n';
     count++;
   }
+  output_stream.flush();
+  if (!output_stream) {
+    throw std::runtime_error("Error writing the output.");
+  }
 }
 
 void check_options(const cli_config_t& cli) {
diff --git a/app/hibp_diff.cpp b/app/hibp_diff.cpp
index cdf59d9..218ee81 100644
--- a/app/hibp_diff.cpp
+++ b/app/hibp_diff.cpp
@@ -4,6 +4,7 @@
 #include <cstdlib>
 #include <exception>
 #include <iostream>
+#include <stdexcept>
 #include <string>
 
 struct cli_config_t {
@@ -38,6 +39,10 @@ int main(int argc, char* argv[]) {
     } else {
       hibp::diffutils::run_diff<hibp::pawned_pw_sha1>(cli.db_file_old, cli.db_file_new, std::cout);
     }
+    std::cout.flush();
+    if (!std::cout) {
+      throw std::runtime_error("Error writing the output.");
+    }
   } catch (const std::exception& e) {
     std::cerr << "something went wrong: " << e.what() << "\n";
     return EXIT_FAILURE;
diff --git a/app/hibp_download.cpp b/app/hibp_download.cpp
index 8bbc98e..929fc55 100644
--- a/app/hibp_download.cpp
+++ b/app/hibp_download.cpp
@@ -65,6 +65,7 @@ void launch(std::ofstream& output_db_stream, const hibp::dnl::cli_config_t& cli,
   auto ffsw = flat_file::stream_writer<PwType>(output_db_stream, 10'000);
   hibp::dnl::run([&](const std::string& line) { ffsw.write(PwType{line}); }, start_index,
                  cli.testing);
+  ffsw.flush(true);
 }
 
 template <hibp::pw_type PwType>
@@ -134,9 +135,10 @@ int main(int argc, char* argv[]) {
                                            std::strerror(errno))); // NOLINT errno
     }
     if (cli.txt_out) {
+      output_db_stream.exceptions(std::ios::badbit | std::ios::failbit);
       auto tw = hibp::dnl::text_writer(output_db_stream);
       hibp::dnl::run([&](const std::string& line) { tw.write(line); }, start_index, cli.testing);
-
+      output_db_stream.flush();
     } else {
       if (cli.ntlm) {
         launch<hibp::pawned_pw_ntlm>(output_db_stream, cli, start_index);
diff --git a/app/hibp_topn.cpp b/app/hibp_topn.cpp
index 0c02b9d..048511c 100644
--- a/app/hibp_topn.cpp
+++ b/app/hibp_topn.cpp
@@ -129,6 +129,7 @@ void build_topn(const cli_config_t& cli) {
   for (const auto& pw: memdb) {
     output_db.write(pw);
   }
+  output_db.flush(true);
   progress << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
 }
 
diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index 042bccc..f6a63b2 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -7,6 +7,7 @@
 #if HIBP_USE_PSTL && __cpp_lib_parallel_algorithm
 #include <execution>
 #endif
+#include <exception>
 #include <filesystem>
 #include <fmt/format.h>
 #include <fmt/std.h>  // IWYU pragma: keep
@@ -40,7 +41,8 @@ template <typename ValueType>
 class stream_writer {
 
 public:
-  explicit stream_writer(std::ostream& os, std::size_t buf_size = 1000) : db_(os), buf_(buf_size) {
+  explicit stream_writer(std::ostream& os, std::size_t buf_size = 1000)
+      : db_(os), prev_exceptions_(os.exceptions()), buf_(buf_size) {
     db_.exceptions(std::ios::badbit | std::ios::failbit);
   }
 
@@ -57,9 +59,9 @@ public:
       db_.write(reinterpret_cast<char*>(buf_.data()), // NOLINT reincast
                 static_cast<std::streamsize>(sizeof(ValueType) * buf_pos_));
       buf_pos_ = 0;
-      if (flush_stream) {
-        db_.flush();
-      }
+    }
+    if (flush_stream) {
+      db_.flush();
     }
   }
 
@@ -70,10 +72,22 @@ public:
   stream_writer(stream_writer&& other) noexcept            = default;
   stream_writer& operator=(stream_writer&& other) noexcept = default;
 
-  ~stream_writer() { flush(); }
+  // call flush(true) before destruction to be told about write errors
+  ~stream_writer() {
+    try {
+      flush();
+    } catch (const std::exception& e) {
+      std::cerr << fmt::format("Error: could not write all records: {}\n", e.what());
+    }
+    try {
+      db_.exceptions(prev_exceptions_); // a failed std::cout must not throw at exit
+    } catch (const std::exception&) {   // NOLINT already failed, and reported
+    }
+  }
 
 private:
   std::ostream&          db_; // NOLINT ref
+  std::ios::iostate      prev_exceptions_;
   std::size_t            buf_pos_ = 0;
   std::vector<ValueType> buf_;
 };
@@ -246,6 +260,7 @@ std::vector<std::string> sort_into_chunks(typename database<ValueType>::const_it
         });
     auto part = file_writer<ValueType>(chunk_filename);
     for (const auto& obj: objs) part.write(obj);
+    part.flush(true);
   }
   return chunk_filenames;
 }
@@ -299,6 +314,7 @@ void merge_sorted_chunks(const std::vector<std::string>& chunk_filenames,
       ++(chunk.current);
     }
   }
+  sorted.flush(true); // before removing any chunks
 
   for (const auto& filename: chunk_filenames) std::filesystem::remove(filename);
 }
-- 
2.43.0


From a281ab51e178201b0571000d3b0d6a44a462d349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 13/36] fix: data race on the thread names with hibp-download
 --debug

---
 src/dnl/queuemgt.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/dnl/queuemgt.cpp b/src/dnl/queuemgt.cpp
index 0a1df6a..a32dd8d 100644
--- a/src/dnl/queuemgt.cpp
+++ b/src/dnl/queuemgt.cpp
@@ -234,8 +234,11 @@ void run(write_fn_t write_fn, std::size_t start_index_, bool testing_) {
       }
     });
 
-    req_thr_id           = requests_thread.get_id();
-    thrnames[req_thr_id] = "requests";
+    req_thr_id = requests_thread.get_id();
+    {
+      const std::lock_guard lk(cerr_mutex); // the logger reads thrnames concurrently
+      thrnames[req_thr_id] = "requests";
+    }
 
     std::jthread queuemgt_thread([&]() {
       try {
@@ -246,9 +249,11 @@ void run(write_fn_t write_fn, std::size_t start_index_, bool testing_) {
         req_stop_source.request_stop();
       }
     });
-    que_thr_id           = queuemgt_thread.get_id();
-    thrnames[que_thr_id] = "queuemgt";
-
+    que_thr_id = queuemgt_thread.get_id();
+    {
+      const std::lock_guard lk(cerr_mutex);
+      thrnames[que_thr_id] = "queuemgt";
+    }
   } // wait here until threads join
 
   // use temps to avoid short cct eval
-- 
2.43.0


From b7ce38dbf0028d17cd8c08ec5c57f24c9ac024b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 14/36] fix: building a second table of contents in one process
 appended to the first

---
 src/toc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/toc.cpp b/src/toc.cpp
index d7d5b2b..2ffa1a4 100644
--- a/src/toc.cpp
+++ b/src/toc.cpp
@@ -63,6 +63,7 @@ void build(const std::filesystem::path& db_path, unsigned bits) {
                            toc_entry_size);
   std::cout << fmt::format("{:30s} {:15.0f} per query\n", "Max disk reads with ToC",
                            std::ceil(std::log2(toc_entry_size)));
+  toc<PwType>.clear(); // may hold the toc of another db
   toc<PwType>.reserve(toc_entries);
 
   toc_entry last_pos = 0;
-- 
2.43.0


From 6cd6b6ee9ef01000f98769ae2073d887abaf67c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 15/36] fix: an incompletely saved table of contents was
 trusted and hid records

---
 src/toc.cpp | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/toc.cpp b/src/toc.cpp
index 2ffa1a4..c5509f1 100644
--- a/src/toc.cpp
+++ b/src/toc.cpp
@@ -17,6 +17,7 @@
 #include <ostream>
 #include <stdexcept>
 #include <string>
+#include <system_error>
 #include <vector>
 
 namespace hibp {
@@ -35,6 +36,12 @@ std::uint32_t pw_to_prefix(const PwType& pw, unsigned bits) {
          (sizeof(toc_entry) * 8 - bits);
 }
 
+// the toc of a partial db ends with the prefix of its last record
+template <pw_type PwType>
+std::size_t expected_entries(flat_file::database<PwType>& db, unsigned bits) {
+  return std::size_t{pw_to_prefix(db.back(), bits)} + 1;
+}
+
 template <pw_type PwType>
 void build(const std::filesystem::path& db_path, unsigned bits) {
   // big buffer for sequential read
@@ -90,19 +97,39 @@ void build(const std::filesystem::path& db_path, unsigned bits) {
 template <pw_type PwType>
 void save(const std::filesystem::path& toc_filename) {
   std::cout << fmt::format("saving table of contents: {}\n", toc_filename);
-  auto toc_stream = std::ofstream(toc_filename, std::ios_base::binary);
+  // write to a temporary file first, so that an incomplete toc never carries the final name
+  const std::filesystem::path tmp_filename = toc_filename.string() + ".tmp";
+
+  auto toc_stream = std::ofstream(tmp_filename, std::ios_base::binary);
   toc_stream.write(reinterpret_cast<char*>(toc<PwType>.data()), // NOLINT reincast
                    static_cast<std::streamsize>(sizeof(toc_entry) * toc<PwType>.size()));
+  toc_stream.close();
+
+  std::error_code ec;
+  if (toc_stream) {
+    std::filesystem::rename(tmp_filename, toc_filename, ec);
+  }
+  if (!toc_stream || ec) { // not fatal, we have it in memory
+    std::cerr << fmt::format("Warning: could not save table of contents: {}\n", toc_filename);
+    std::filesystem::remove(tmp_filename, ec);
+  }
 }
 
+// returns false if the toc file does not belong to this db, eg because it is incomplete
 template <pw_type PwType>
-void load(const std::filesystem::path& toc_filename) {
+bool load(const std::filesystem::path& toc_filename, const std::filesystem::path& db_path,
+          unsigned bits) {
   std::cout << fmt::format("loading table of contents: {}\n", toc_filename);
   const auto toc_file_size = std::filesystem::file_size(toc_filename);
+
+  flat_file::database<PwType> db(db_path);
+  if (toc_file_size != expected_entries(db, bits) * sizeof(toc_entry)) return false;
+
   auto       toc_stream    = std::ifstream(toc_filename, std::ios_base::binary);
   toc<PwType>              = std::vector<toc_entry>(toc_file_size / sizeof(toc_entry));
   toc_stream.read(reinterpret_cast<char*>(toc<PwType>.data()), // NOLINT reincast
                   static_cast<std::streamsize>(toc_file_size));
+  return static_cast<bool>(toc_stream);
 }
 
 template <pw_type PwType>
@@ -136,13 +163,13 @@ void toc_build(const std::filesystem::path& db_filename, unsigned bits) {
 
   const std::string toc_filename = fmt::format("{}.{}.toc", db_filename.string(), bits);
 
-  if (!std::filesystem::exists(toc_filename) || (std::filesystem::last_write_time(toc_filename) <=
-                                                 std::filesystem::last_write_time(db_filename))) {
+  if (!std::filesystem::exists(toc_filename) ||
+      (std::filesystem::last_write_time(toc_filename) <=
+       std::filesystem::last_write_time(db_filename)) ||
+      !details::load<PwType>(toc_filename, db_filename, bits)) {
 
     details::build<PwType>(db_filename, bits);
     details::save<PwType>(toc_filename);
-  } else {
-    details::load<PwType>(toc_filename);
   }
 }
 
-- 
2.43.0


From 9414dfa5bb0323483ecf36aee708bb60f0522633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 16/36] fix: hibp-server did not decode percent-encoded
 passwords and reported them as absent

---
 src/srv/server.cpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/srv/server.cpp b/src/srv/server.cpp
index 41e932b..61d405e 100644
--- a/src/srv/server.cpp
+++ b/src/srv/server.cpp
@@ -5,6 +5,8 @@
 #include "toc.hpp"
 #include <algorithm>
 #include <atomic>
+#include <charconv>
+#include <cstddef>
 #include <cstdlib>
 #include <exception>
 #include <fmt/format.h>
@@ -17,6 +19,8 @@
 #include <restinio/traits.hpp>
 #include <sha1.h>
 #include <string>
+#include <string_view>
+#include <system_error>
 #include <type_traits>
 #include <utility>
 
@@ -49,6 +53,25 @@ auto search_and_respond(flat_file::database<PwType>& db, const PwType& needle, a
   return response.done();
 }
 
+// undo the percent-encoding of the url; anything that is not an escape sequence stands for itself
+std::string percent_decode(std::string_view str) {
+  std::string decoded;
+  decoded.reserve(str.size());
+  for (std::size_t i = 0; i != str.size(); ++i) {
+    unsigned char c = 0;
+    if (str[i] == '%' && str.size() - i > 2) {
+      const char* const end = str.data() + i + 3;
+      if (auto [ptr, ec] = std::from_chars(end - 2, end, c, 16); ec == std::errc{} && ptr == end) {
+        decoded.push_back(static_cast<char>(c));
+        i += 2;
+        continue;
+      }
+    }
+    decoded.push_back(str[i]);
+  }
+  return decoded;
+}
+
 auto bad_request(const std::string& msg, auto req) {
   return req->create_response(restinio::status_bad_request())
       .set_body(msg + "\n")
@@ -114,7 +137,7 @@ auto get_router(const std::string& sha1_db_filename, const std::string& ntlm_db_
               : std::make_unique<sha1t64_db_t>(sha1t64_db_filename,
                                                4096 / sizeof(hibp::pawned_pw_sha1t64));
 
-      const std::string password{params["password"]};
+      const std::string password = percent_decode(params["password"]);
 
       if (params["format"] == "plain") {
         if (sha1_db) {
-- 
2.43.0


From 24f19fd5ad3953ebd4d4c597c85d7d707c98e0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 17/36] fix: hibp-download --resume failed on a file without a
 complete record

---
 src/dnl/resume.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dnl/resume.cpp b/src/dnl/resume.cpp
index d31a6be..e30cc41 100644
--- a/src/dnl/resume.cpp
+++ b/src/dnl/resume.cpp
@@ -27,6 +27,10 @@ std::size_t get_last_prefix(const std::string& filename, bool testing) {
 
   flat_file::database<PwType> db(filename);
 
+  if (db.number_records() == 0) {
+    return static_cast<std::size_t>(-1); // nothing was written yet, caller will start at 0
+  }
+
   const auto& last_db_ppw = db.back();
 
   std::stringstream ss;
-- 
2.43.0


From a9f6642734765f32cdf9473e03760daac27a2d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 18/36] fix: hibp-download --parallel-max 0 reported success
 without downloading anything

---
 app/hibp_download.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app/hibp_download.cpp b/app/hibp_download.cpp
index 929fc55..e1cdf76 100644
--- a/app/hibp_download.cpp
+++ b/app/hibp_download.cpp
@@ -86,6 +86,10 @@ void check_options(const hibp::dnl::cli_config_t& cli) {
     throw std::runtime_error("can't use `--ntlm` and `--sha1t64` together");
   }
 
+  if (cli.parallel_max == 0) {
+    throw std::runtime_error("`--parallel-max` must be at least 1");
+  }
+
   if (!cli.resume && !cli.force && std::filesystem::exists(cli.output_db_filename)) {
     throw std::runtime_error(fmt::format("File '{}' exists. Use `--force` to overwrite, or "
                                          "`--resume` to resume a previous download.",
-- 
2.43.0


From 400d40e33025877c9d8f5fe36ecd1f25a2421869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 19/36] fix: hibp-server announced the wrong database for plain
 requests

---
 src/srv/server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/srv/server.cpp b/src/srv/server.cpp
index 61d405e..648208f 100644
--- a/src/srv/server.cpp
+++ b/src/srv/server.cpp
@@ -196,7 +196,7 @@ void run_server() {
                            cli.bind_address, cli.port,
                            !cli.sha1_db_filename.empty()
                                ? "sha1"
-                               : (!cli.sha1t64_db_filename.empty() ? "sha1t64" : "ntlm"));
+                               : (!cli.ntlm_db_filename.empty() ? "ntlm" : "sha1t64"));
 
   if (!cli.sha1_db_filename.empty()) {
     std::cout << fmt::format("http://{0}:{1}/check/sha1/CBFDAC6008F9CAB4083784CBD1874F76618D2A97\n",
-- 
2.43.0


From 0f0dc206b66ec93deb8ef590a30300d0045ad8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 20/36] fix: hibp-download --resume waited forever for a
 stalled server

---
 src/dnl/requests.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dnl/requests.cpp b/src/dnl/requests.cpp
index 76f281d..7db3779 100644
--- a/src/dnl/requests.cpp
+++ b/src/dnl/requests.cpp
@@ -266,6 +266,9 @@ std::string curl_sync_get(const std::string& url) {
   curl_easy_setopt(curl, CURLOPT_WRITEFUNCTION, +write_cb); // convert to func ptr
   std::string result_body;
   curl_easy_setopt(curl, CURLOPT_WRITEDATA, &result_body);
+  // as for the other downloads: abort if slower than 1000 bytes/sec for 5 seconds
+  curl_easy_setopt(curl, CURLOPT_LOW_SPEED_TIME, 5L);
+  curl_easy_setopt(curl, CURLOPT_LOW_SPEED_LIMIT, 1000L);
   if (auto res = curl_easy_perform(curl); res != CURLE_OK) {
     curl_easy_cleanup(curl);
     throw std::runtime_error(fmt::format("curl_sync_get: Couldn't retrieve '{}'. Error: {}", url,
-- 
2.43.0


From 36f1a8d7b8737dbf5809f8c9f7a28409a759ba88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 21/36] fix: hibp-sort put the file name in quotes and so
 failed for any path with a directory

---
 include/flat_file.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index f6a63b2..daa36c5 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -240,7 +240,7 @@ std::vector<std::string> sort_into_chunks(typename database<ValueType>::const_it
   std::vector<std::string> chunk_filenames;
   chunk_filenames.reserve(number_of_chunks);
   for (std::size_t chunk = 0; chunk != number_of_chunks; ++chunk) {
-    std::string chunk_filename = fmt::format("{}.partial.{:04d}", first.filename(), chunk);
+    std::string chunk_filename = fmt::format("{}.partial.{:04d}", first.filename().string(), chunk);
     chunk_filenames.push_back(chunk_filename);
 
     std::size_t start = chunk * chunk_size;
@@ -327,7 +327,7 @@ std::string disksort_range(typename database<ValueType>::const_iterator first,
   std::vector<std::string> chunk_filenames =
       sort_into_chunks<ValueType>(first, last, comp, proj, max_memory_usage);
 
-  std::string sorted_filename = fmt::format("{}.sorted", first.filename());
+  std::string sorted_filename = fmt::format("{}.sorted", first.filename().string());
 
   if (chunk_filenames.size() == 1) {
     std::filesystem::rename(chunk_filenames[0], sorted_filename);
-- 
2.43.0


From f606f809ecef6027b89604e0a8802149dc3402c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 22/36] fix: hibp-server overflowed its stack on long urls

---
 src/srv/server.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/srv/server.cpp b/src/srv/server.cpp
index 648208f..fa71ee4 100644
--- a/src/srv/server.cpp
+++ b/src/srv/server.cpp
@@ -184,6 +184,8 @@ auto get_router(const std::string& sha1_db_filename, const std::string& ntlm_db_
   return router;
 }
 
+constexpr std::size_t max_url_size = 4096;
+
 void run_server() {
   // Launching a server with custom traits.
   struct my_server_traits : public restinio::default_traits_t {
@@ -214,6 +216,9 @@ void run_server() {
   auto settings = restinio::on_thread_pool<my_server_traits>(cli.threads)
                       .address(cli.bind_address)
                       .port(cli.port)
+                      // the router matches the url with a recursive std::regex: limit its stack use
+                      .incoming_http_msg_limits(
+                          restinio::incoming_http_msg_limits_t{}.max_url_size(max_url_size))
                       .request_handler(get_router(cli.sha1_db_filename, cli.ntlm_db_filename,
                                                   cli.sha1t64_db_filename));
 
-- 
2.43.0


From 87f8ce73d6dbc1fa6836f773693c91d79f327f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 23/36] fix: hibp-dupes reported success although its output
 could not be written

---
 app/hibp_dupes.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/app/hibp_dupes.cpp b/app/hibp_dupes.cpp
index 421e791..8b86447 100644
--- a/app/hibp_dupes.cpp
+++ b/app/hibp_dupes.cpp
@@ -9,6 +9,7 @@
 #include <fmt/format.h>
 #include <iostream>
 #include <optional>
+#include <stdexcept>
 #include <string>
 // #include <unordered_set>
 
@@ -61,6 +62,10 @@ int main(int argc, char* argv[]) {
     } else {
       run_search<hibp::pawned_pw_sha1>(cli);
     }
+    std::cout.flush();
+    if (!std::cout) {
+      throw std::runtime_error("Error writing the output.");
+    }
   } catch (const std::exception& e) {
     std::cerr << "something went wrong: " << e.what() << "\n";
     return EXIT_FAILURE;
-- 
2.43.0


From 5e1ddff903eead7f128452261294205b5f683814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 24/36] fix: hibp-search reported success although its answer
 could not be written

---
 app/hibp_search.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app/hibp_search.cpp b/app/hibp_search.cpp
index 39fcf90..e9f0bb9 100644
--- a/app/hibp_search.cpp
+++ b/app/hibp_search.cpp
@@ -120,6 +120,10 @@ int main(int argc, char* argv[]) {
     } else {
       run_search<hibp::pawned_pw_sha1>(cli);
     }
+    std::cout.flush();
+    if (!std::cout) {
+      throw std::runtime_error("Error writing the output.");
+    }
   } catch (const std::exception& e) {
     std::cerr << "something went wrong: " << e.what() << "\n";
     return EXIT_FAILURE;
-- 
2.43.0


From 425060ad244360789752c201e15e62be3495923a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 25/36] fix: a failed write to standard output terminated the
 program in the writer's destructor

---
 include/flat_file.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index daa36c5..af544c6 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -74,15 +74,20 @@ public:
 
   // call flush(true) before destruction to be told about write errors
   ~stream_writer() {
+    std::string error;
     try {
       flush();
     } catch (const std::exception& e) {
-      std::cerr << fmt::format("Error: could not write all records: {}\n", e.what());
+      error = e.what();
     }
     try {
       db_.exceptions(prev_exceptions_); // a failed std::cout must not throw at exit
     } catch (const std::exception&) {   // NOLINT already failed, and reported
     }
+    // only now: std::cerr flushes std::cout first, which would throw
+    if (!error.empty()) {
+      std::cerr << fmt::format("Error: could not write all records: {}\n", error);
+    }
   }
 
 private:
-- 
2.43.0


From eb86cbdb59ad338402efa6ff35e1605fffa7d75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:09 +0000
Subject: [PATCH 26/36] fix: hibp-sort truncated its input when the name of its
 output was a link to it

---
 include/flat_file.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index af544c6..ca96439 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -19,6 +19,7 @@
 #include <queue>
 #include <stdexcept>
 #include <string>
+#include <system_error>
 #include <type_traits>
 #include <utility>
 #include <vector>
@@ -329,11 +330,15 @@ std::string disksort_range(typename database<ValueType>::const_iterator first,
                            typename database<ValueType>::const_iterator last, Comp comp = {},
                            Proj proj = {}, std::size_t max_memory_usage = 1'000'000'000) {
 
+  std::string sorted_filename = fmt::format("{}.sorted", first.filename().string());
+
+  if (std::error_code ec; std::filesystem::equivalent(first.filename(), sorted_filename, ec)) {
+    throw std::runtime_error(fmt::format("'{}' is the input itself.", sorted_filename));
+  }
+
   std::vector<std::string> chunk_filenames =
       sort_into_chunks<ValueType>(first, last, comp, proj, max_memory_usage);
 
-  std::string sorted_filename = fmt::format("{}.sorted", first.filename().string());
-
   if (chunk_filenames.size() == 1) {
     std::filesystem::rename(chunk_filenames[0], sorted_filename);
     std::cerr << fmt::format("\nrenaming {} => {}\n", chunk_filenames[0], sorted_filename);
-- 
2.43.0


From 72d6f32101dd4da6669dad9c52df61bfa7c4ffa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 27/36] fix: hibp-convert took a read error on standard input
 for the end of the text

---
 app/hibp_convert.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/app/hibp_convert.cpp b/app/hibp_convert.cpp
index b2469f8..e182f0f 100644
--- a/app/hibp_convert.cpp
+++ b/app/hibp_convert.cpp
@@ -2,6 +2,7 @@
 #include "hibp.hpp"
 #include <CLI/CLI.hpp>
 #include <cstddef>
+#include <cstdio>
 #include <cstdlib>
 #include <exception>
 #include <filesystem>
@@ -89,7 +90,8 @@ void txt_to_bin(std::istream& input_stream, std::ostream& output_stream, std::si
   for (std::string line; std::getline(input_stream, line) && count != limit; count++) {
     writer.write(PwType{line});
   }
-  if (input_stream.bad()) {
+  // a failed read of standard_input is not reflected in the state of std::cin
+  if (input_stream.bad() || (&input_stream == &std::cin && std::ferror(stdin) != 0)) {
     throw std::runtime_error("Error reading the input.");
   }
   writer.flush(true);
-- 
2.43.0


From 250cc5ffd044354309981f6b1f44d60f73cc2d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:38 +0000
Subject: [PATCH 28/36] fix: hibp-diff printed positions beyond 2^32 records
 modulo 2^32

---
 src/diffutils.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/diffutils.cpp b/src/diffutils.cpp
index cfc7d3b..aae1704 100644
--- a/src/diffutils.cpp
+++ b/src/diffutils.cpp
@@ -2,6 +2,7 @@
 #include "flat_file.hpp"
 #include "hibp.hpp"
 #include <algorithm>
+#include <cstddef>
 #include <cstdlib>
 #include <filesystem>
 #include <fmt/chrono.h> // IWYU pragma: keep
@@ -16,9 +17,9 @@ enum class hunk_type : char { update = 'U', insert = 'I' };
 
 template <hibp::pw_type PwType>
 struct hunk {
-  hunk_type type;
-  unsigned  pos;
-  PwType    pw;
+  hunk_type   type;
+  std::size_t pos;
+  PwType      pw;
 
   friend std::ostream& operator<<(std::ostream& os, const hunk& h) {
     return os << fmt::format("{}:{:08X}:{}", static_cast<std::underlying_type_t<hunk_type>>(h.type),
@@ -43,7 +44,7 @@ void run_diff(const std::filesystem::path& old_path, const std::filesystem::path
       // OLD was shorter..
       // copy rest of new into diff as inserts
       while (diff_iter_new != db_new.end()) {
-        const hunk h{hunk_type::insert, static_cast<unsigned>(diff_iter_old - db_old.begin()),
+        const hunk h{hunk_type::insert, static_cast<std::size_t>(diff_iter_old - db_old.begin()),
                *diff_iter_new};
         diff << h << '\n';
 
@@ -58,7 +59,7 @@ void run_diff(const std::filesystem::path& old_path, const std::filesystem::path
 
     // both are sorted by hash, so the order tells us what happened
     if (*diff_iter_new < *diff_iter_old) { // comparing hash only
-      const hunk h{hunk_type::insert, static_cast<unsigned>(diff_iter_old - db_old.begin()),
+      const hunk h{hunk_type::insert, static_cast<std::size_t>(diff_iter_old - db_old.begin()),
              *diff_iter_new};
       diff << h << '\n';
       old_begin = diff_iter_old;
@@ -68,7 +69,7 @@ void run_diff(const std::filesystem::path& old_path, const std::filesystem::path
     if (*diff_iter_old < *diff_iter_new) { // comparing hash only
       throw std::runtime_error("Deletion from OLD");
     }
-    const hunk h{hunk_type::update, static_cast<unsigned>(diff_iter_old - db_old.begin()),
+    const hunk h{hunk_type::update, static_cast<std::size_t>(diff_iter_old - db_old.begin()),
            *diff_iter_new};
     diff << h << '\n';
     old_begin = diff_iter_old + 1;
-- 
2.43.0


From 03e20183d5ad506410c2b4c94dfb627b1523b295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:34 +0000
Subject: [PATCH 29/36] fix: hibp-sort failed when it had more chunks than
 files can be open

---
 include/flat_file.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index ca96439..4dfd2dc 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -343,6 +343,16 @@ std::string disksort_range(typename database<ValueType>::const_iterator first,
     std::filesystem::rename(chunk_filenames[0], sorted_filename);
     std::cerr << fmt::format("\nrenaming {} => {}\n", chunk_filenames[0], sorted_filename);
   } else {
+    // all chunks of a merge are open at once: merge some of them first, if there are very many
+    constexpr std::size_t max_chunks_per_merge = 500;
+    for (std::size_t i = 0; chunk_filenames.size() > max_chunks_per_merge; ++i) {
+      const auto group_end = chunk_filenames.begin() + max_chunks_per_merge;
+      auto merged_filename = fmt::format("{}.partial.m{:04d}", first.filename().string(), i);
+      merge_sorted_chunks<ValueType>({chunk_filenames.begin(), group_end}, merged_filename, comp,
+                                     proj);
+      chunk_filenames.erase(chunk_filenames.begin(), group_end);
+      chunk_filenames.push_back(std::move(merged_filename));
+    }
     std::cerr << fmt::format("\nmerging [{:12d},{:12d}) => {:s}\n", first.pos(), last.pos(),
                              sorted_filename);
     merge_sorted_chunks<ValueType>(chunk_filenames, sorted_filename, comp, proj);
-- 
2.43.0


From 7d6dd1716cd13fefd70c3950e5548fcfac1cf7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:36 +0000
Subject: [PATCH 30/36] fix: moving a stream_writer or file_writer made it
 write from a null or dangling pointer

---
 include/flat_file.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index 4dfd2dc..50761f9 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -16,6 +16,7 @@
 #include <ios>
 #include <iostream>
 #include <iterator>
+#include <memory>
 #include <queue>
 #include <stdexcept>
 #include <string>
@@ -30,10 +31,11 @@ namespace impl {
 
 struct ofstream_holder {
   explicit ofstream_holder(std::string dbfilename)
-      : filename_(std::move(dbfilename)), ofstream_(filename_, std::ios::binary) {}
+      : filename_(std::move(dbfilename)),
+        ofstream_(std::make_unique<std::ofstream>(filename_, std::ios::binary)) {}
 
-  std::string   filename_;
-  std::ofstream ofstream_;
+  std::string                    filename_;
+  std::unique_ptr<std::ofstream> ofstream_; // stable address when moved, stream_writer refers to it
 };
 
 } // namespace impl
@@ -70,11 +72,14 @@ public:
   stream_writer(const stream_writer& other)            = delete;
   stream_writer& operator=(const stream_writer& other) = delete;
 
-  stream_writer(stream_writer&& other) noexcept            = default;
-  stream_writer& operator=(stream_writer&& other) noexcept = default;
+  stream_writer(stream_writer&& other) noexcept
+      : db_(other.db_), prev_exceptions_(other.prev_exceptions_),
+        buf_pos_(std::exchange(other.buf_pos_, 0)), buf_(std::move(other.buf_)) {}
+  stream_writer& operator=(stream_writer&& other) = delete;
 
   // call flush(true) before destruction to be told about write errors
   ~stream_writer() {
+    if (buf_.empty()) return; // moved from
     std::string error;
     try {
       flush();
@@ -102,8 +107,8 @@ template <typename ValueType>
 class file_writer : private impl::ofstream_holder, public stream_writer<ValueType> {
 public:
   explicit file_writer(std::string dbfilename)
-      : ofstream_holder(std::move(dbfilename)), stream_writer<ValueType>(ofstream_) {
-    if (!ofstream_.is_open()) throw std::domain_error("cannot open db: " + filename_);
+      : ofstream_holder(std::move(dbfilename)), stream_writer<ValueType>(*ofstream_) {
+    if (!ofstream_->is_open()) throw std::domain_error("cannot open db: " + filename_);
   }
 };
 
-- 
2.43.0


From 4026a62a1ce019fcfa5c6f6a6cf67e1fb22e5546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:58 +0000
Subject: [PATCH 31/36] fix: --resume believed an answer with an error status
 and could skip the rest of a prefix

---
 src/dnl/requests.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dnl/requests.cpp b/src/dnl/requests.cpp
index 7db3779..2e341d4 100644
--- a/src/dnl/requests.cpp
+++ b/src/dnl/requests.cpp
@@ -275,7 +275,13 @@ std::string curl_sync_get(const std::string& url) {
                                          curl_easy_strerror(res)));
   }
 
+  long response_code = 0;
+  curl_easy_getinfo(curl, CURLINFO_RESPONSE_CODE, &response_code);
   curl_easy_cleanup(curl);
+  if (response_code != 200) {
+    throw std::runtime_error(fmt::format("curl_sync_get: Couldn't retrieve '{}'. http resp code: {}",
+                                         url, response_code));
+  }
   return result_body;
 }
 
-- 
2.43.0


From e810b458e0b6619b1859cb42d5c1cda9cc6c228b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:08 +0000
Subject: [PATCH 32/36] fix: a table of contents built while the database was
 replaced was saved as newer than it, and trusted

---
 src/toc.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/toc.cpp b/src/toc.cpp
index c5509f1..35699a9 100644
--- a/src/toc.cpp
+++ b/src/toc.cpp
@@ -95,7 +95,8 @@ void build(const std::filesystem::path& db_path, unsigned bits) {
 }
 
 template <pw_type PwType>
-void save(const std::filesystem::path& toc_filename) {
+void save(const std::filesystem::path& toc_filename, const std::filesystem::path& db_path,
+          std::filesystem::file_time_type db_time) {
   std::cout << fmt::format("saving table of contents: {}\n", toc_filename);
   // write to a temporary file first, so that an incomplete toc never carries the final name
   const std::filesystem::path tmp_filename = toc_filename.string() + ".tmp";
@@ -105,11 +106,14 @@ void save(const std::filesystem::path& toc_filename) {
                    static_cast<std::streamsize>(sizeof(toc_entry) * toc<PwType>.size()));
   toc_stream.close();
 
+  // when the db was replaced while we read it, this would be the toc of the old one, but newer
+  // than the new one
   std::error_code ec;
-  if (toc_stream) {
+  const bool      db_unchanged = std::filesystem::last_write_time(db_path, ec) == db_time;
+  if (toc_stream && db_unchanged) {
     std::filesystem::rename(tmp_filename, toc_filename, ec);
   }
-  if (!toc_stream || ec) { // not fatal, we have it in memory
+  if (!toc_stream || !db_unchanged || ec) { // not fatal, we have it in memory
     std::cerr << fmt::format("Warning: could not save table of contents: {}\n", toc_filename);
     std::filesystem::remove(tmp_filename, ec);
   }
@@ -168,8 +172,9 @@ void toc_build(const std::filesystem::path& db_filename, unsigned bits) {
        std::filesystem::last_write_time(db_filename)) ||
       !details::load<PwType>(toc_filename, db_filename, bits)) {
 
+    const auto db_time = std::filesystem::last_write_time(db_filename);
     details::build<PwType>(db_filename, bits);
-    details::save<PwType>(toc_filename);
+    details::save<PwType>(toc_filename, db_filename, db_time);
   }
 }
 
-- 
2.43.0


From 612648714f9743cd26f56e231a694a995c7edda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:39 +0000
Subject: [PATCH 33/36] fix: programs saving the same table of contents at once
 shared one temporary file

---
 src/toc.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/toc.cpp b/src/toc.cpp
index 35699a9..ffbc6ef 100644
--- a/src/toc.cpp
+++ b/src/toc.cpp
@@ -15,6 +15,7 @@
 #include <limits>
 #include <optional>
 #include <ostream>
+#include <random>
 #include <stdexcept>
 #include <string>
 #include <system_error>
@@ -98,8 +99,10 @@ template <pw_type PwType>
 void save(const std::filesystem::path& toc_filename, const std::filesystem::path& db_path,
           std::filesystem::file_time_type db_time) {
   std::cout << fmt::format("saving table of contents: {}\n", toc_filename);
-  // write to a temporary file first, so that an incomplete toc never carries the final name
-  const std::filesystem::path tmp_filename = toc_filename.string() + ".tmp";
+  // write to a temporary file first, so that an incomplete toc never carries the final name. One of
+  // our own, because another process may be saving the same toc right now.
+  const std::filesystem::path tmp_filename =
+      fmt::format("{}.{:08x}.tmp", toc_filename.string(), std::random_device{}());
 
   auto toc_stream = std::ofstream(tmp_filename, std::ios_base::binary);
   toc_stream.write(reinterpret_cast<char*>(toc<PwType>.data()), // NOLINT reincast
-- 
2.43.0


From d45792342a499ce8dcd38889a43713f0787ee7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:50 +0000
Subject: [PATCH 34/36] fix: resume kept a record of the trimmed file when its
 first truncated hashes were equal

---
 src/dnl/resume.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dnl/resume.cpp b/src/dnl/resume.cpp
index e30cc41..dda4029 100644
--- a/src/dnl/resume.cpp
+++ b/src/dnl/resume.cpp
@@ -71,6 +71,8 @@ std::size_t get_last_prefix(const std::string& filename, bool testing) {
     throw std::runtime_error(
         "Not found at all, sorry you will need to start afresh without `--resume`.\n");
   }
+  // truncated hashes are not always unique: the file starts with the first of several equal ones
+  while (std::next(found_iter) != rend && *std::next(found_iter) == needle) ++found_iter;
 
   auto trimmed_file_size = static_cast<std::size_t>(rend - found_iter - 1) * sizeof(PwType);
   std::cerr << fmt::format("found: trimming file to {}.\n", trimmed_file_size);
-- 
2.43.0


From c9d24e188bb1d859d3c9a738a682a4a731b68b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:33 +0000
Subject: [PATCH 35/36] fix: hibp-server could hang instead of failing when it
 could not listen

restinio::run() opens the server in a thread of its pool; when that fails while
the other threads are still being started, stopping the pool has no effect and
the program neither listens nor ends. Open the server before starting the threads.
---
 src/srv/server.cpp | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/srv/server.cpp b/src/srv/server.cpp
index fa71ee4..a826816 100644
--- a/src/srv/server.cpp
+++ b/src/srv/server.cpp
@@ -6,6 +6,7 @@
 #include <algorithm>
 #include <atomic>
 #include <charconv>
+#include <csignal>
 #include <cstddef>
 #include <cstdlib>
 #include <exception>
@@ -14,15 +15,17 @@
 #include <memory>
 #include <optional>
 #include <restinio/http_headers.hpp>
-#include <restinio/http_server_run.hpp>
+#include <restinio/http_server.hpp>
 #include <restinio/router/express.hpp>
 #include <restinio/traits.hpp>
 #include <sha1.h>
 #include <string>
 #include <string_view>
 #include <system_error>
+#include <thread>
 #include <type_traits>
 #include <utility>
+#include <vector>
 
 namespace hibp::srv {
 
@@ -213,7 +216,7 @@ void run_server() {
                              cli.port);
   }
 
-  auto settings = restinio::on_thread_pool<my_server_traits>(cli.threads)
+  auto settings = restinio::server_settings_t<my_server_traits>{}
                       .address(cli.bind_address)
                       .port(cli.port)
                       // the router matches the url with a recursive std::regex: limit its stack use
@@ -222,7 +225,31 @@ void run_server() {
                       .request_handler(get_router(cli.sha1_db_filename, cli.ntlm_db_filename,
                                                   cli.sha1t64_db_filename));
 
-  restinio::run(std::move(settings));
+  restinio::asio_ns::io_context           io_context;
+  restinio::http_server_t<my_server_traits> server{restinio::external_io_context(io_context),
+                                                   std::move(settings)};
+
+  restinio::asio_ns::signal_set break_signals{io_context, SIGINT};
+  break_signals.async_wait([&](const auto& error, int /* signal */) {
+    if (!error) {
+      server.close_async([&] { io_context.stop(); }, [&](auto /* ex */) { io_context.stop(); });
+    }
+  });
+
+  // before the threads are started: restinio::run() opens the server in one of them and may never
+  // return if that fails while it is still starting the others
+  server.open_sync();
+
+  std::vector<std::jthread> threads;
+  try {
+    while (threads.size() != cli.threads) {
+      threads.emplace_back([&] { io_context.run(); });
+    }
+  } catch (...) {
+    io_context.stop();
+    throw;
+  }
+  threads.clear(); // join
 }
 
 } // namespace hibp::srv
-- 
2.43.0


From bbd57a3febcd999a347eec6d7416efeaaf05db48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:33 +0000
Subject: [PATCH 36/36] fix: interrupting hibp-server raced with a connection
 being accepted

---
 src/srv/server.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/srv/server.cpp b/src/srv/server.cpp
index a826816..1315e25 100644
--- a/src/srv/server.cpp
+++ b/src/srv/server.cpp
@@ -231,9 +231,9 @@ void run_server() {
 
   restinio::asio_ns::signal_set break_signals{io_context, SIGINT};
   break_signals.async_wait([&](const auto& error, int /* signal */) {
-    if (!error) {
-      server.close_async([&] { io_context.stop(); }, [&](auto /* ex */) { io_context.stop(); });
-    }
+    // the server is closed when all threads have ended: closing it in one of them, while another may
+    // be accepting a connection, is a data race on the listening socket
+    if (!error) io_context.stop();
   });
 
   // before the threads are started: restinio::run() opens the server in one of them and may never
-- 
2.43.0

