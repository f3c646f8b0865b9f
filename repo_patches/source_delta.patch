From f928026e557ff1c22f5d965352b4eace6398a1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:50 +0000
Subject: [PATCH 01/11] fix: fast_getline repeats a last line that has no
 newline

When fgets returned NULL after part of a line had been read, the stale
buffer was appended a second time.
---
 util.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/util.hpp b/util.hpp
index c8c079f..c44ff99 100644
--- a/util.hpp
+++ b/util.hpp
@@ -33,9 +33,8 @@ namespace succinct { namespace util {
             if (!fgets(buffer, max_buffer, input)) {
                 if (!line.size()) {
                     return false;
-                } else {
-                    done = true;
                 }
+                break;
             }
             line += buffer;
             if (*line.rbegin() == '\n') {
-- 
2.43.0


From 9acc36027d42175874fedf8cf47c9e9f570eb87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:50 +0000
Subject: [PATCH 02/11] fix: lines() starts with a spurious empty line

The iterator was never positioned on the first line, so the range began
with an empty line, also for an empty stream.
---
 util.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util.hpp b/util.hpp
index c44ff99..d5bb641 100644
--- a/util.hpp
+++ b/util.hpp
@@ -56,12 +56,15 @@ namespace succinct { namespace util {
     public:
         line_iterator()
             : m_file(0)
+            , m_trim_newline(false)
         {}
 
         explicit line_iterator(FILE* input, bool trim_newline = false)
             : m_file(input)
             , m_trim_newline(trim_newline)
-        {}
+        {
+            increment();
+        }
 
     private:
         friend class boost::iterator_core_access;
-- 
2.43.0


From 68dbea3483dfa95362193f753ac0303aeab75ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:50 +0000
Subject: [PATCH 03/11] fix: bit_vector enumerator keeps consumed bits after
 take(64)

skip_zeros() looks at the buffer without checking how many bits are
left, and after take(64) it found the word just taken.
---
 bit_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bit_vector.hpp b/bit_vector.hpp
index 452ea79..cb98b2b 100644
--- a/bit_vector.hpp
+++ b/bit_vector.hpp
@@ -383,6 +383,7 @@ namespace succinct {
                     m_buf >>= l;
                 } else {
                     val = m_buf;
+                    m_buf = 0;
                 }
                 m_avail -= l;
                 m_pos += l;
-- 
2.43.0


From d5484f8bebc3a9e925ba779c4532f9da6b3feb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:50 +0000
Subject: [PATCH 04/11] fix: bit_vector_builder::reserve leaves the current
 word dangling

---
 bit_vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bit_vector.hpp b/bit_vector.hpp
index cb98b2b..0268cf1 100644
--- a/bit_vector.hpp
+++ b/bit_vector.hpp
@@ -39,6 +39,9 @@ namespace succinct {
 
         void reserve(uint64_t size) {
             m_bits.reserve(detail::words_for(size));
+            if (m_bits.size()) {
+                m_cur_word = &m_bits.back();
+            }
         }
 
         inline void push_back(bool b) {
-- 
2.43.0


From 9fb0db380fd4013908000ab73fa36053fc8ea50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:50 +0000
Subject: [PATCH 05/11] fix: freeze to a file reports success when the file
 cannot be written

---
 mapper.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mapper.hpp b/mapper.hpp
index 381e199..157b5e8 100644
--- a/mapper.hpp
+++ b/mapper.hpp
@@ -2,6 +2,8 @@
 
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
+#include <string>
 
 #include <boost/make_shared.hpp>
 #include <boost/utility/enable_if.hpp>
@@ -243,7 +245,12 @@ namespace succinct { namespace mapper {
     size_t freeze(T& val, const char* filename, uint64_t flags = 0, const char* friendly_name = "<TOP>")
     {
         std::ofstream fout(filename, std::ios::binary);
-        return freeze(val, fout, flags, friendly_name);
+        size_t written = freeze(val, fout, flags, friendly_name);
+        fout.close();
+        if (!fout) {
+            throw std::runtime_error(std::string("Unable to write file '") + filename + "'.");
+        }
+        return written;
     }
 
     template <typename T>
-- 
2.43.0


From 42b3456b4b5995397d97afca682ab2f058201831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:50 +0000
Subject: [PATCH 06/11] fix: default-constructed elias_fano freezes an
 uninitialised field

---
 elias_fano.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elias_fano.hpp b/elias_fano.hpp
index 4991fcc..6c0ef69 100644
--- a/elias_fano.hpp
+++ b/elias_fano.hpp
@@ -9,6 +9,7 @@ namespace succinct {
     public:
         elias_fano()
             : m_size(0)
+            , m_l(0)
         {}
 
         struct elias_fano_builder {
-- 
2.43.0


From cf9c0ec55589634dba7d51e3263028bf2f801438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:50 +0000
Subject: [PATCH 07/11] fix: an empty bp_vector freezes an uninitialised field

---
 bp_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bp_vector.hpp b/bp_vector.hpp
index 55e35fb..9a76ff6 100644
--- a/bp_vector.hpp
+++ b/bp_vector.hpp
@@ -14,6 +14,7 @@ namespace succinct {
     public:
         bp_vector()
             : rs_bit_vector()
+            , m_internal_nodes(0)
         {}
 
         template <class Range>
@@ -21,6 +22,7 @@ namespace succinct {
                   bool with_select_hints = false,
                   bool with_select0_hints = false)
             : rs_bit_vector(from, with_select_hints, with_select0_hints)
+            , m_internal_nodes(0)
         {
             build_min_tree();
         }
-- 
2.43.0


From f1b009e477549ac16d4e5b899878ee39f583617f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:50 +0000
Subject: [PATCH 08/11] fix: bit_vector_builder is inconsistent after a failed
 allocation

Sizes and padding bits were changed before the word array had grown.
---
 bit_vector.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bit_vector.hpp b/bit_vector.hpp
index 0268cf1..631768a 100644
--- a/bit_vector.hpp
+++ b/bit_vector.hpp
@@ -88,25 +88,25 @@ namespace succinct {
             assert(len == 64 || (bits >> len) == 0);
             if (!len) return;
             uint64_t pos_in_word = m_size % 64;
-            m_size += len;
             if (pos_in_word == 0) {
                 m_bits.push_back(bits);
             } else {
-                *m_cur_word |= bits << pos_in_word;
                 if (len > 64 - pos_in_word) {
                     m_bits.push_back(bits >> (64 - pos_in_word));
                 }
+                m_bits[m_size / 64] |= bits << pos_in_word;
             }
+            m_size += len;
             m_cur_word = &m_bits.back();
         }
 
         inline void zero_extend(uint64_t n) {
-            m_size += n;
-            uint64_t needed = detail::words_for(m_size) - m_bits.size();
+            uint64_t needed = detail::words_for(m_size + n) - m_bits.size();
             if (needed) {
                 m_bits.insert(m_bits.end(), needed, 0);
                 m_cur_word = &m_bits.back();
             }
+            m_size += n;
         }
 
         inline void one_extend(uint64_t n)
@@ -126,8 +126,8 @@ namespace succinct {
 
             uint64_t pos = m_bits.size();
             uint64_t shift = size() % 64;
+            m_bits.resize(detail::words_for(size() + rhs.size()));
             m_size = size() + rhs.size();
-            m_bits.resize(detail::words_for(m_size));
 
             if (shift == 0) { // word-aligned, easy case
                 std::copy(rhs.m_bits.begin(), rhs.m_bits.end(),
-- 
2.43.0


From b64013e7ee7cd993c9e01586f9bb707769f5e82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:50 +0000
Subject: [PATCH 09/11] fix: mappable_vector leaks or claims elements it does
 not have on failure

The range constructor leaked its memory when the input threw, and steal()
set the size before an allocation that may fail.
---
 mappable_vector.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/mappable_vector.hpp b/mappable_vector.hpp
index 0c1c9a7..5902df5 100644
--- a/mappable_vector.hpp
+++ b/mappable_vector.hpp
@@ -45,9 +45,14 @@ namespace succinct { namespace mapper {
             T* data = new T[size];
             m_deleter = boost::lambda::bind(boost::lambda::delete_array(), data);
 
-            std::copy(boost::begin(from),
-                      boost::end(from),
-                      data);
+            try {
+                std::copy(boost::begin(from),
+                          boost::end(from),
+                          data);
+            } catch (...) {
+                m_deleter();
+                throw;
+            }
             m_data = data;
             m_size = size;
         }
@@ -71,12 +76,12 @@ namespace succinct { namespace mapper {
 
         void steal(std::vector<T>& vec) {
             clear();
-            m_size = vec.size();
-            if (m_size) {
+            if (vec.size()) {
                 std::vector<T>* new_vec = new std::vector<T>;
                 new_vec->swap(vec);
                 m_deleter = boost::lambda::bind(boost::lambda::delete_ptr(), new_vec);
                 m_data = &(*new_vec)[0];
+                m_size = new_vec->size();
             }
         }
 
-- 
2.43.0


From 81e288055ddb4f321489a82ead6c0ce719e5fabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:50 +0000
Subject: [PATCH 10/11] fix: mmap_lines throws on an empty file

---
 util.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/util.hpp b/util.hpp
index d5bb641..e57c37d 100644
--- a/util.hpp
+++ b/util.hpp
@@ -216,11 +216,19 @@ namespace succinct { namespace util {
         typedef buffer_line_iterator const_iterator;
 
         mmap_lines(std::string filename)
-            : m_map(filename)
-        {}
+        {
+            // an empty file has no lines, and cannot be mapped
+            auto_file file(filename.c_str());
+            if (fgetc(file.get()) != EOF || ferror(file.get())) {
+                m_map.open(filename);
+            }
+        }
 
         const_iterator begin() const
         {
+            if (!m_map.is_open()) {
+                return end();
+            }
             return const_iterator(m_map.data(), m_map.size());
         }
 
-- 
2.43.0


From a57349f8c35a918efcc42c32b977f6380390f885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:53 +0000
Subject: [PATCH 11/11] fix: bp_vector of 2^31 parentheses and more

The sentinel of the superblock minima was size() converted to the 32-bit
excess_t, negative or small for long sequences: find_close and find_open
then left the structure. Only the depth is limited to 2^31.
---
 bp_vector.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/bp_vector.cpp b/bp_vector.cpp
index 79df0f4..8287f01 100644
--- a/bp_vector.cpp
+++ b/bp_vector.cpp
@@ -143,6 +143,14 @@ namespace succinct {
                 min_exc_idx = word_start + shift + tables.m_fwd_min_idx[(word >> shift) & 0xFF];
             }
         }
+
+        // An excess that no block minimum reaches; size() itself may not
+        // fit in excess_t
+        inline bp_vector::excess_t past_the_end_excess(uint64_t size)
+        {
+            const uint64_t max_excess = uint64_t(std::numeric_limits<bp_vector::excess_t>::max());
+            return static_cast<bp_vector::excess_t>(std::min(size, max_excess));
+        }
     }
 
     inline bool bp_vector::find_close_in_block(uint64_t block_offset, bp_vector::excess_t excess, uint64_t start, uint64_t& ret) const {
@@ -305,7 +313,7 @@ namespace succinct {
     }
 
     inline bool bp_vector::in_node_range(uint64_t node, excess_t excess) const {
-        assert(m_superblock_excess_min[node] != excess_t(size()));
+        assert(m_superblock_excess_min[node] != past_the_end_excess(size()));
         return excess >= m_superblock_excess_min[node];
     }
 
@@ -677,7 +685,7 @@ namespace succinct {
 
         // Fill in the leaves of the tree
         for (size_t superblock = 0; superblock < n_superblocks; ++superblock) {
-            excess_t cur_super_min = static_cast<excess_t>(size());
+            excess_t cur_super_min = past_the_end_excess(size());
             excess_t superblock_excess = get_block_excess(superblock * superblock_size);
 
             for (size_t block = superblock * superblock_size;
@@ -685,7 +693,7 @@ namespace succinct {
                  ++block) {
                 cur_super_min = std::min(cur_super_min, superblock_excess + block_excess_min[block]);
             }
-            assert(cur_super_min >= 0 && cur_super_min < excess_t(size()));
+            assert(cur_super_min >= 0 && cur_super_min < past_the_end_excess(size()));
 
             superblock_excess_min[m_internal_nodes + superblock] = cur_super_min;
         }
@@ -693,7 +701,7 @@ namespace succinct {
         // fill in the internal nodes with past-the-boundary values
         // (they will also serve as sentinels in debug)
         for (size_t node = 0; node < m_internal_nodes; ++node) {
-            superblock_excess_min[node] = static_cast<excess_t>(size());
+            superblock_excess_min[node] = past_the_end_excess(size());
         }
 
         // Fill bottom-up the other layers: each node updates the parent
-- 
2.43.0

