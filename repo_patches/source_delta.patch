From 77cd38e7fe4a46ff261052ff3cceb152ee026bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 01/34] fix: do not read past the end of the file in FileReader

Several cursor functions tested the current character before checking that
the reader is not already at its end, touching the byte after the mapping
(a fault when the file size is a multiple of the page size).
---
 include/pigo.hpp                |  6 +++---
 include/pigo/impl/pigo.impl.hpp | 30 +++++++++++++++---------------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index 2e330c9..3a9e01f 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -93,7 +93,7 @@ namespace pigo {
              */
             template<typename T>
             T read_sign() {
-                if (*d == '-') return (T)(-1);
+                if (d < end && *d == '-') return (T)(-1);
                 return (T)1;
             }
 
@@ -234,9 +234,9 @@ namespace pigo {
              * @return true if the reader is at a '0' integer
              */
             bool at_zero() {
-                if (d >= end+1) return false;
+                if (d >= end) return false;
                 if (*d != '0') return false;
-                if (*(d+1) >= '0' && *(d+1) <= '9') return false;
+                if (d+1 < end && *(d+1) >= '0' && *(d+1) <= '9') return false;
                 return true;
             }
 
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 0a722df..a2dba8a 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -331,10 +331,10 @@ namespace pigo {
                     *d == 'E' || *d == '-' || *d == '+' || *d == '.')) ++d;
         // Read the size
         bool positive = true;
-        if (*d == '-') {
+        if (d < end && *d == '-') {
             positive = false;
             ++d;
-        } else if (*d == '+') ++d;
+        } else if (d < end && *d == '+') ++d;
 
         // Support a simple form of floating point integers
         // Note: this is not the most accurate or fastest strategy
@@ -344,7 +344,7 @@ namespace pigo {
             res = res*10. + (T)(*d-'0');
             ++d;
         }
-        if (*d == '.') {
+        if (d < end && *d == '.') {
             ++d;
             T fraction = 0.;
             size_t fraction_count = 0;
@@ -356,7 +356,7 @@ namespace pigo {
             }
             res += fraction / std::pow(10., fraction_count);
         }
-        if (*d == 'e' || *d == 'E') {
+        if (d < end && (*d == 'e' || *d == 'E')) {
             ++d;
             T exp = read_fp<T>();
             res *= std::pow(10., exp);
@@ -397,10 +397,10 @@ namespace pigo {
     inline
     void FileReader::move_to_first_int() {
         // Move through the non-ints and comments
-        if (*d == '%' || *d == '#') skip_comments();
+        if (d < end && (*d == '%' || *d == '#')) skip_comments();
         while (d < end && (*d < '0' || *d > '9')) {
             ++d;
-            if (*d == '%' || *d == '#') skip_comments();
+            if (d < end && (*d == '%' || *d == '#')) skip_comments();
         }
     }
 
@@ -415,14 +415,14 @@ namespace pigo {
 
     inline
     void FileReader::move_to_next_signed_int() {
-        if (*d == '+' || *d == '-') ++d;
+        if (d < end && (*d == '+' || *d == '-')) ++d;
         move_to_non_int();
 
         // Move to the next integer or signed integral value
-        if (*d == '%' || *d == '#') skip_comments();
+        if (d < end && (*d == '%' || *d == '#')) skip_comments();
         while (d < end && (*d < '0' || *d > '9') && *d != '+' && *d != '-') {
             ++d;
-            if (*d == '%' || *d == '#') skip_comments();
+            if (d < end && (*d == '%' || *d == '#')) skip_comments();
         }
     }
 
@@ -436,7 +436,7 @@ namespace pigo {
             while (d < end && *d != '\n' && *d != '%' && *d != '#' && (*d < '0' || *d > '9')) { ++d; }
 
             // Make sure this is an integer
-            if (*d < '0' || *d > '9') {
+            if (d >= end || *d < '0' || *d > '9') {
                 move_to_eol();
                 break;
             }
@@ -444,7 +444,7 @@ namespace pigo {
             // Read through the integer
             while (d < end && ((*d >= '0' && *d <= '9') || *d == '.')) { ++d; }
 
-            if (*d == '\n') break;
+            if (d >= end || *d == '\n') break;
             if (*d == '%' || *d == '#') {
                 move_to_eol();
                 break;
@@ -454,11 +454,11 @@ namespace pigo {
             ++space_ct;
 
             // Move passed the space
-            while (*d == ' ') { ++d; };
+            while (d < end && *d == ' ') { ++d; };
 
             // Check if we just counted whitespace at the end; if so,
             // un-do the count
-            if (*d == '\n') {
+            if (d >= end || *d == '\n') {
                 --space_ct;
                 break;
             }
@@ -482,14 +482,14 @@ namespace pigo {
             ++d; // Move through a newline
         }
 
-        if (*d == '%' || *d == '#') {
+        if (d < end && (*d == '%' || *d == '#')) {
             skip_comments();
             --d;        // This will end at a newline
             return;
         }
         while (d < end && (*d < '0' || *d > '9') && *d != '\n') {
             ++d;
-            if (*d == '%' || *d == '#') {
+            if (d < end && (*d == '%' || *d == '#')) {
                 skip_comments();
                 --d;
                 return;
-- 
2.43.0


From 98539b55a009f6ea4cbd56465e78ef2c82f0ca06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 02/34] fix: read the last line of coordinate files and skipped
 entries correctly

An entry on a last line without a newline was counted but never stored
(leaving an uninitialised entry, or losing it with load options), because
the reader is at its end after reading it. The weight of an entry skipped by
the triangle or self-loop options was stored before the entry was found to
be skipped, past the end of the array or over a neighbouring thread's first
weight.
---
 include/pigo/impl/coo.impl.hpp | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 66206e7..3a31911 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -229,20 +229,15 @@ namespace pigo {
         /** Count-only implementation of reading a coord entry */
         template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true> {
-            static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
+            static inline void op_(S&, S&, WS&, size_t &coord_pos, FileReader &r, L&, L&) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
-                L y = r.read_int<L>();
-                read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
                 if (!r.good()) return;
+                L y = r.read_int<L>();
                 r.move_to_eol();
                 r.move_to_next_int();
-                if (if_true_<sl>() && x == y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
-                if (!if_true_<sym>() && if_true_<ut>() && x > y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
+                if (if_true_<sl>() && x == y) return;
+                if (!if_true_<sym>() && if_true_<ut>() && x > y) return;
                 if (if_true_<sym>() && !if_true_<ut>() && x != y) ++coord_pos;
                 ++coord_pos;
             }
@@ -254,17 +249,16 @@ namespace pigo {
             static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
-                L y = r.read_int<L>();
-                read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
                 if (!r.good()) return;
+                L y = r.read_int<L>();
+                bool skip = (if_true_<sl>() && x == y) ||
+                        (!if_true_<sym>() && if_true_<ut>() && x > y);
+                // There is no room reserved for skipped entries, so their
+                // weight must not be stored
+                if (!skip) read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
                 r.move_to_eol();
                 r.move_to_next_int();
-                if (if_true_<sl>() && x == y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,false>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
-                if (!if_true_<sym>() && if_true_<ut>() && x > y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,false>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
+                if (skip) return;
                 if (if_true_<sym>() && if_true_<ut>() && x > y) std::swap(x, y);
                 set_value_(x_, coord_pos, x);
                 set_value_(y_, coord_pos, y);
@@ -302,9 +296,9 @@ namespace pigo {
             static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
+                if (!r.good()) return;
                 L y = r.read_int<L>();
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
-                if (!r.good()) return;
                 r.move_to_eol();
                 r.move_to_next_int();
                 set_value_(x_, coord_pos, x);
-- 
2.43.0


From 1fc60cd7ea33751cb5075c6afc1be8325cb920fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 03/34] fix: make the CSR to COO conversion complete and safe

The row and column counts were never set, weights held in a vector or shared
pointer were read through a pointer into a destroyed copy, self loops were
duplicated when symmetrizing, the last row of a one-based CSR was dropped
(leaving uninitialised entries), and reading a CSR into a COO with different
label and ordinal types interpreted the CSR's offsets with the label type.
---
 include/pigo/impl/coo.impl.hpp | 52 ++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 3a31911..90ec08f 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -47,7 +47,7 @@ namespace pigo {
         } else if (ft_used == PIGO_CSR_BIN ||
                 ft_used == GRAPH) {
             // First build a CSR, then convert to a COO
-            CSR<L,O,S,S,wgt,W,WS> csr {f, ft_used};
+            CSR<L,O,L*,O*,wgt,W,WS> csr {f, ft_used};
             convert_csr_(csr);
             csr.free();
         } else {
@@ -67,36 +67,63 @@ namespace pigo {
     void COO<L,O,S,sym,ut,sl,wgt,W,WS>::convert_csr_(CSR<CL,CO,LS,OS,wgt,CW,CWS>& csr) {
         // First, set our sizes and allocate space
         n_ = csr.n();
+        nrows_ = csr.nrows();
+        ncols_ = csr.ncols();
         m_ = csr.m();
+        if (detail::if_true_<sym>()) {
+            // Every endpoint can become both a row and a column
+            if (nrows_ > ncols_) ncols_ = nrows_;
+            else nrows_ = ncols_;
+        }
 
-        if (detail::if_true_<sym>() && !detail::if_true_<ut>())
-            m_ *= 2;
-        else if (!detail::if_true_<sym>() && detail::if_true_<ut>())
+        if (!detail::if_true_<sym>() && detail::if_true_<ut>())
             throw NotYetImplemented("Keeping triangle only from CSR not yet implemented");
         if (detail::if_true_<sl>())
             throw NotYetImplemented("Removing self loops from CSR not yet implemented");
 
-        allocate_();
-
-        auto storage_offsets = csr.offsets();
-        auto storage_endpoints = csr.endpoints();
+        auto& storage_offsets = csr.offsets();
+        auto& storage_endpoints = csr.endpoints();
         CO* offsets = (CO*)detail::get_raw_data_(storage_offsets);
         CL* endpoints = (CL*)detail::get_raw_data_(storage_endpoints);
 
         CW* weights = nullptr;
         if (detail::if_true_<wgt>()) {
-            auto storage_weights = csr.weights();
+            auto& storage_weights = csr.weights();
             weights = (CW*)detail::get_raw_data_(storage_weights);
         }
 
+        // The rows can exceed the labels with one-based inputs
+        CL csr_n = csr.n();
+        if (csr.nrows() > csr_n) csr_n = csr.nrows();
+
+        // When symmetrizing, every entry is duplicated except for the ones
+        // on the diagonal
+        std::vector<size_t> diagonals;
+        if (detail::if_true_<sym>() && !detail::if_true_<ut>()) {
+            // Find how many diagonal entries there are before each row
+            diagonals.resize((size_t)csr_n+1);
+            #pragma omp parallel for schedule(dynamic, 10240)
+            for (CL v = 0; v < csr_n; ++v) {
+                size_t row_diagonals = 0;
+                for (CO e = offsets[v]; e < offsets[v+1]; ++e)
+                    if (endpoints[e] == v) ++row_diagonals;
+                diagonals[v+1] = row_diagonals;
+            }
+            for (CL v = 0; v < csr_n; ++v)
+                diagonals[v+1] += diagonals[v];
+            m_ = 2*(size_t)m_-diagonals[csr_n];
+        }
+
+        allocate_();
+
         #pragma omp parallel for schedule(dynamic, 10240)
-        for (L v = 0; v < n_; ++v) {
+        for (CL v = 0; v < csr_n; ++v) {
             auto start = endpoints + offsets[v];
             auto end = endpoints + offsets[v+1];
             size_t coo_cur = offsets[v];
 
             if (detail::if_true_<sym>() && !detail::if_true_<ut>())
-                coo_cur *= 2;
+                coo_cur = 2*coo_cur-diagonals[v];
 
             CW* cur_weight = nullptr;
             if (detail::if_true_<wgt>()) {
@@ -109,7 +136,8 @@ namespace pigo {
                     // Only the upper triangle should be saved
                     if (new_x > new_y)
                         std::swap(new_x, new_y);
-                } else if (detail::if_true_<sym>() && !detail::if_true_<ut>()) {
+                } else if (detail::if_true_<sym>() && !detail::if_true_<ut>() &&
+                        new_x != new_y) {
                     // We need to duplicate each edge, to point both ways
                     detail::set_value_(x_, coo_cur, new_y);
                     detail::set_value_(y_, coo_cur, new_x);
-- 
2.43.0


From 90b084a876c84478ef31d98ad7956343ead758d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 04/34] fix: read adjacency (.graph) files line by line

Rows without neighbours at the start of the file were skipped, an
unterminated last line was rejected, comment lines and lines with a comment
directly after a number were counted as rows, numbers in an unterminated
comment were counted as entries, the threads raced on a std::vector<bool>,
and one-based files lost the offset of their last row. The CSR functions now
cover all rows that have offsets, and building a CSR has a label for every
row and column.
---
 include/pigo.hpp               |  43 ++++++
 include/pigo/csr.hpp           |   7 +
 include/pigo/impl/csr.impl.hpp | 249 +++++++++++++++++----------------
 3 files changed, 176 insertions(+), 123 deletions(-)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index 3a9e01f..d689769 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -155,6 +155,49 @@ namespace pigo {
              */
             void move_to_eol();
 
+            /** @brief Move to the first line start at or after here
+             *
+             * If the reader is already at the start of a line it will not
+             * move.
+             *
+             * @param begin the start of the data, which starts a line
+             */
+            void move_to_line_start(FilePos begin) {
+                if (d == begin || *(d-1) == '\n') return;
+                move_to_eol();
+                if (d < end) ++d;
+            }
+
+            /** @brief Return whether the line only contains a comment
+             *
+             * Note that this does not increment the current position.
+             *
+             * @return true if the first non-space is a comment character
+             */
+            bool at_comment_line() {
+                FilePos td = d;
+                while (td < end && (*td == ' ' || *td == '\t' || *td == '\r')) ++td;
+                return td < end && (*td == '%' || *td == '#');
+            }
+
+            /** @brief Move to the next integer within the current line
+             *
+             * If there is none, the reader is moved to the end of the line.
+             * If it is already on an integer, it will not move.
+             *
+             * @return true if the reader is at an integer, false otherwise
+             */
+            bool move_to_int_in_line() {
+                while (d < end && *d != '\n' && (*d < '0' || *d > '9')) {
+                    if (*d == '%' || *d == '#') {
+                        move_to_eol();
+                        return false;
+                    }
+                    ++d;
+                }
+                return d < end && *d != '\n';
+            }
+
             /** @brief Move to the next instance of the given character
              *
              * If this is on the starting character, it will move off first,
diff --git a/include/pigo/csr.hpp b/include/pigo/csr.hpp
index c5e4412..9c7b3b1 100644
--- a/include/pigo/csr.hpp
+++ b/include/pigo/csr.hpp
@@ -106,6 +106,13 @@ namespace pigo {
             /** @brief Allocate the storage for the CSR */
             void allocate_();
 
+            /** @brief Return the number of rows that have offsets
+             *
+             * This is typically the number of labels, however one-based
+             * inputs can have an additional row.
+             */
+            Label offset_rows_() const { return nrows_ > n_ ? nrows_ : n_; }
+
             /** @brief Convert a COO into this CSR
              *
              * @tparam COOLabel the label for the COO format
diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index cde824d..d5b6d92 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -70,7 +70,7 @@ namespace pigo {
     void CSR<L,O,LS,OS,wgt,W,WS>::allocate_() {
         detail::allocate_mem_<LS>(endpoints_, m_);
         detail::allocate_mem_<WS,wgt>(weights_, m_);
-        detail::allocate_mem_<OS>(offsets_, n_+1);
+        detail::allocate_mem_<OS>(offsets_, (size_t)offset_rows_()+1);
     }
     namespace detail {
         template<bool wgt, class W, class WS, class COOW, class COOWS, class O>
@@ -115,6 +115,9 @@ namespace pigo {
         m_ = coo.m();
         nrows_ = coo.nrows();
         ncols_ = coo.ncols();
+        // Every row and column needs to have a label
+        if (nrows_ > n_) n_ = nrows_;
+        if (ncols_ > n_) n_ = ncols_;
 
         // Allocate the offsets and endpoints
         allocate_();
@@ -252,6 +255,28 @@ namespace pigo {
 
     }
 
+    namespace detail {
+        /** @brief Return a reader over the lines starting in a thread's
+         * part of the file
+         *
+         * @param r the reader with the full file
+         * @param tid the thread id
+         * @param num_threads the number of threads
+         * @return a reader covering only complete lines
+         */
+        inline
+        FileReader line_range_(FileReader r, size_t tid, size_t num_threads) {
+            size_t size = r.size();
+            FileReader rs = r + (tid*size)/num_threads;
+            FileReader re = r + ((tid+1)*size)/num_threads;
+            // Move off of any line starting before
+            if (tid > 0) rs.move_to_line_start(r.d);
+            if (tid+1 < num_threads) re.move_to_line_start(r.d);
+            rs.smaller_end(re);
+            return rs;
+        }
+    }
+
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
     void CSR<L,O,LS,OS,wgt,W,WS>::read_graph_(FileReader &r) {
         // Get the number of threads
@@ -274,19 +299,19 @@ namespace pigo {
         r.move_to_next_int();
         O read_m = r.read_int<O>();
         r.move_to_eol();
-        r.move_to_next_int();
+        if (r.good()) r += 1;
 
-        // This takes two passes:
-        // first, count the number of newlines and integers to allocate
-        // storage
+        // This takes two passes over the lines, where each thread handles
+        // the lines that start in its part of the file:
+        // first, count the number of rows and integers to allocate storage
         // second, copy over the values appropriately
 
-        std::vector<size_t> nl_offsets(num_threads);
+        std::vector<size_t> row_offsets(num_threads);
         std::vector<size_t> int_offsets(num_threads);
         std::vector<L> max_labels(num_threads);
-        std::vector<bool> have_zeros(num_threads, false);
-        bool have_zero;
-        #pragma omp parallel shared(have_zero) shared(have_zeros)
+        std::vector<char> have_zeros(num_threads, 0);
+        std::vector<char> have_extras(num_threads, 0);
+        #pragma omp parallel
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -294,133 +319,109 @@ namespace pigo {
             size_t tid = 0;
             #endif
 
-            // Find our offsets in the file
-            size_t size = r.size();
-            size_t tid_start_i = (tid*size)/num_threads;
-            size_t tid_end_i = ((tid+1)*size)/num_threads;
-            FileReader rs = r + tid_start_i;
-            FileReader re = r + tid_end_i;
-
-            // Now, move to the appropriate starting point
-            re.move_to_next_int();
-            if (tid != 0) {
-                rs.move_to_next_int();
-            } else
-                rs.move_to_first_int();
-
-            // Set our file reader to end either at the full end or at
-            // the thread id local end
-            rs.smaller_end(re);
+            FileReader rs = detail::line_range_(r, tid, num_threads);
 
-            // Now, perform the first pass and count
-            FileReader rs_p1 = rs;
-            size_t tid_nls = 0;
+            // Perform the first pass and count
+            size_t tid_rows = 0;
             size_t tid_ints = 0;
-            bool my_have_zero = false;
-            while (rs_p1.good()) {
-                if (rs_p1.at_nl_or_eol())
-                    ++tid_nls;
-                else
+            while (rs.good()) {
+                if (rs.at_comment_line()) {
+                    rs.move_to_eol();
+                    rs += 1;
+                    continue;
+                }
+                ++tid_rows;
+                while (rs.move_to_int_in_line()) {
                     ++tid_ints;
-                // Determine if this is a 0
-                if (rs_p1.at_zero() && !my_have_zero)
-                    my_have_zero = true;
-
-                rs_p1.move_to_next_int_or_nl();
-            }
-            if (my_have_zero) {
-                have_zeros[tid] = true;
-            }
-
-            #pragma omp barrier
-            #pragma omp single
-            {
-                bool found_zero = false;
-                for (size_t tid = 0; tid < num_threads; ++tid) {
-                    if (have_zeros[tid]) {
-                        found_zero = true;
-                        break;
-                    }
+                    if (rs.at_zero()) have_zeros[tid] = 1;
+                    rs.move_to_non_int();
                 }
-                if (found_zero) have_zero = true;
-                else have_zero = false;
+                rs += 1;
             }
-            #pragma omp barrier
 
-            nl_offsets[tid] = tid_nls;
+            row_offsets[tid] = tid_rows;
             int_offsets[tid] = tid_ints;
+        }
 
-            // Compute a prefix sum on the offsets
-            #pragma omp barrier
-            #pragma omp single
-            {
-                size_t sum_nl = (have_zero) ? 0 : 1;
-                size_t sum_ints = 0;
-                for (size_t tid = 0; tid < num_threads; ++tid) {
-                    sum_nl += nl_offsets[tid];
-                    nl_offsets[tid] = sum_nl;
-
-                    sum_ints += int_offsets[tid];
-                    int_offsets[tid] = sum_ints;
-                }
+        // Without any zero, the labels start at one and so there is an
+        // additional, empty row zero that is not counted as a label
+        size_t first_row = 1;
+        size_t sum_rows = 0;
+        size_t sum_ints = 0;
+        for (size_t tid = 0; tid < num_threads; ++tid) {
+            if (have_zeros[tid]) first_row = 0;
 
-                // Now, allocate the space appropriately
-                m_ = int_offsets[num_threads-1];
-                n_ = nl_offsets[num_threads-1];
-                nrows_ = n_;
-                allocate_();
-                detail::set_value_(offsets_, 0, 0);
-                if (!have_zero)
-                    detail::set_value_(offsets_, 1, 0);
-                detail::set_value_(offsets_, n_, m_);
-            }
-            #pragma omp barrier
+            sum_rows += row_offsets[tid];
+            row_offsets[tid] = sum_rows-row_offsets[tid];
+
+            sum_ints += int_offsets[tid];
+            int_offsets[tid] = sum_ints-int_offsets[tid];
+        }
+
+        if (sum_ints != (size_t)read_m && sum_ints != 2*(size_t)read_m)
+            throw Error("Mismatch in CSR nonzeros and header");
+        if (sum_rows < (size_t)read_n)
+            throw Error("Mismatch in CSR newlines and header");
+
+        // Now, allocate the space appropriately
+        m_ = sum_ints;
+        n_ = read_n;
+        nrows_ = read_n+first_row;
+        allocate_();
+        detail::set_value_(offsets_, 0, 0);
+        detail::set_value_(offsets_, nrows_, m_);
+
+        #pragma omp parallel
+        {
+            #ifdef _OPENMP
+            size_t tid = omp_get_thread_num();
+            #else
+            size_t tid = 0;
+            #endif
+
+            FileReader rs = detail::line_range_(r, tid, num_threads);
 
             // Pass 2: iterate through again, but now copy out the values
             // to the appropriate position in the endpoints / offsets
             L my_max = 0;
-            FileReader rs_p2 = rs;
-            O endpoint_pos = 0;
-            L offset_pos = 0;
-            if (tid > 0) {
-                offset_pos = nl_offsets[tid-1];
-                endpoint_pos = int_offsets[tid-1];
-            } else if (!have_zero)
-                offset_pos = 1;
-
-            while (rs_p2.good()) {
-                // Ignore any trailing data in the file
-                if (offset_pos >= n_) break;
-
-                // Copy and set the endpoint
-                if (rs_p2.at_nl_or_eol()) {
-                    // Set the offset to the current endpoint position
-                    detail::set_value_(offsets_, ++offset_pos, endpoint_pos);
-                    rs_p2.move_to_next_int_or_nl();
-                } else {
-                    // Set the actual value
-                    L endpoint = rs_p2.read_int<L>();
+            size_t row = row_offsets[tid];
+            size_t endpoint_pos = int_offsets[tid];
+            while (rs.good()) {
+                if (rs.at_comment_line()) {
+                    rs.move_to_eol();
+                    rs += 1;
+                    continue;
+                }
+                // Any lines after the final row can not have integers
+                bool extra = row >= (size_t)read_n;
+                if (!extra)
+                    detail::set_value_(offsets_, row+first_row, (O)endpoint_pos);
+                while (rs.move_to_int_in_line()) {
+                    if (extra) have_extras[tid] = 1;
+                    L endpoint = rs.read_int<L>();
                     if (endpoint > my_max)
                         my_max = endpoint;
                     detail::set_value_(endpoints_, endpoint_pos++, endpoint);
-                    if (!rs_p2.at_nl_or_eol())
-                        rs_p2.move_to_next_int_or_nl();
                 }
+                ++row;
+                rs += 1;
             }
             max_labels[tid] = my_max;
         }
 
-        if (m_ == 2*read_m) {}
-        else if (m_ != read_m) throw Error("Mismatch in CSR nonzeros and header");
-        if (n_ < read_n) throw Error("Mismatch in CSR newlines and header");
-        else n_ = read_n;
-
-        L col_max = max_labels[0];
-        for (size_t thread = 1; thread < num_threads; ++thread) {
-            if (max_labels[thread] > col_max)
-                col_max = max_labels[thread];
+        L col_max = 0;
+        bool have_extra = false;
+        for (size_t tid = 0; tid < num_threads; ++tid) {
+            if (max_labels[tid] > col_max)
+                col_max = max_labels[tid];
+            if (have_extras[tid]) have_extra = true;
         }
         ncols_ = col_max+1;
+
+        if (have_extra) {
+            free();
+            throw Error("Mismatch in CSR newlines and header");
+        }
     }
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
@@ -433,7 +434,7 @@ namespace pigo {
         // Find the size of the size of the CSR
         out_size += sizeof(L)*3+sizeof(O);
         // Finally, find the actual CSR size
-        size_t voff_size = sizeof(O)*(n_+1);
+        size_t voff_size = sizeof(O)*((size_t)offset_rows_()+1);
         size_t vend_size = sizeof(L)*m_;
         size_t w_size = detail::weight_size_<wgt, W, O>(m_);
         out_size += voff_size + vend_size + w_size;
@@ -471,7 +472,7 @@ namespace pigo {
         w.write(nrows_);
         w.write(ncols_);
 
-        size_t voff_size = sizeof(O)*(n_+1);
+        size_t voff_size = sizeof(O)*((size_t)offset_rows_()+1);
         size_t vend_size = sizeof(L)*m_;
         size_t w_size = detail::weight_size_<wgt, W, O>(m_);
 
@@ -510,7 +511,7 @@ namespace pigo {
         // Allocate space
         allocate_();
 
-        size_t voff_size = sizeof(O)*(n_+1);
+        size_t voff_size = sizeof(O)*((size_t)offset_rows_()+1);
         size_t vend_size = sizeof(L)*m_;
 
         // Read out the vectors
@@ -529,8 +530,9 @@ namespace pigo {
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
     void CSR<L,O,LS,OS,wgt,W,WS>::sort() {
+        L rows = offset_rows_();
         #pragma omp parallel for schedule(dynamic, 10240)
-        for (L v = 0; v < n_; ++v) {
+        for (L v = 0; v < rows; ++v) {
             // Get the start and end range
             O start = detail::get_value_<OS, O>(offsets_, v);
             O end = detail::get_value_<OS, O>(offsets_, v+1);
@@ -575,14 +577,15 @@ namespace pigo {
         sort();
 
         // Next, count the degrees for each vertex, excluding duplicates
+        L rows = offset_rows_();
         std::shared_ptr<L> degs_storage;
-        detail::allocate_mem_(degs_storage, n_);
+        detail::allocate_mem_(degs_storage, rows);
         L* degs = degs_storage.get();
 
         nO new_m = 0;
 
         #pragma omp parallel for schedule(dynamic, 10240) shared(degs) reduction(+ : new_m)
-        for (L v = 0; v < n_; ++v) {
+        for (L v = 0; v < rows; ++v) {
             O start = detail::get_value_<OS, O>(offsets_, v);
             O end = detail::get_value_<OS, O>(offsets_, v+1);
             if (end-start == 0) {
@@ -640,8 +643,8 @@ namespace pigo {
             size_t tid = 0;
             #endif
 
-            L v_start = (tid*n_)/num_threads;
-            L v_end = ((tid+1)*n_)/num_threads;
+            L v_start = (tid*rows)/num_threads;
+            L v_end = ((tid+1)*rows)/num_threads;
 
             O my_degs = 0;
             for (L c = v_start; c < v_end; ++c) {
@@ -679,7 +682,7 @@ namespace pigo {
             {
                 // Patch the last offset to the end, making for easier
                 // degree computation and iteration
-                detail::set_value_(new_offsets, (nL)n_, new_m);
+                detail::set_value_(new_offsets, (nL)rows, new_m);
             }
 
             // Now, all new offsets have been assigned
@@ -687,7 +690,7 @@ namespace pigo {
 
         // Repeat going through the edges, copying out the endpoints
         #pragma omp parallel for schedule(dynamic, 10240)
-        for (L v = 0; v < n_; ++v) {
+        for (L v = 0; v < rows; ++v) {
             O o_start = detail::get_value_<OS, O>(offsets_, v);
             O o_end = detail::get_value_<OS, O>(offsets_, v+1);
             if (o_end-o_start == 0) continue;
-- 
2.43.0


From 0ccd82f13aecff40487629a83fd9527b8072106b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 05/34] fix: swap the row and column counts when transposing a
 COO

The counts of CSC and in-edge views of rectangular inputs were wrong as well.
---
 include/pigo/coo.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pigo/coo.hpp b/include/pigo/coo.hpp
index 649a665..cb20d99 100644
--- a/include/pigo/coo.hpp
+++ b/include/pigo/coo.hpp
@@ -336,6 +336,7 @@ namespace pigo {
             /** @brief Transpose the COO, swapping x and y */
             COO& transpose() {
                 std::swap(x_, y_);
+                std::swap(nrows_, ncols_);
                 return *this;
             }
 
-- 
2.43.0


From e4d917779f5ab0891bd9520b62d425c5f0c98840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 06/34] fix: count mirrored labels in the dimensions of
 symmetrised loads

---
 include/pigo/impl/coo.impl.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 90ec08f..fe2c011 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -299,6 +299,8 @@ namespace pigo {
                     set_value_(y_, coord_pos, x);
                     set_value_(x_, coord_pos, y);
                     ++coord_pos;
+                    if (y > max_row) max_row = y;
+                    if (x > max_col) max_col = x;
                 }
                 if (x > max_row) max_row = x;
                 if (y > max_col) max_col = y;
@@ -368,6 +370,11 @@ namespace pigo {
         read_el_(r);
 
         // Finally, sanity check the file
+        if (detail::if_true_<sym>()) {
+            // Every label can become both a row and a column
+            if (nrows > ncols) ncols = nrows;
+            else nrows = ncols;
+        }
         if (nrows >= nrows_)
             nrows_ = nrows;
         else {
-- 
2.43.0


From 9d658bbfbfbaf0d6f52a0d44e821cc494236d3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 07/34] fix: check the Matrix Market entry count under every
 load option

---
 include/pigo/coo.hpp           |  7 ++--
 include/pigo/impl/coo.impl.hpp | 61 ++++++++++++++++------------------
 2 files changed, 34 insertions(+), 34 deletions(-)

diff --git a/include/pigo/coo.hpp b/include/pigo/coo.hpp
index cb20d99..a0febf8 100644
--- a/include/pigo/coo.hpp
+++ b/include/pigo/coo.hpp
@@ -108,8 +108,10 @@ namespace pigo {
              * specific file to load the COO.
              *
              * @param r the FileReader to read with
+             * @return the number of entries found in the file, including
+             *         any that the COO does not keep
              */
-            void read_el_(FileReader& r);
+            size_t read_el_(FileReader& r);
 
             /** @brief Reads a matrix market file into the COO
              *
@@ -165,9 +167,10 @@ namespace pigo {
              * @tparam count_only if true, will not set values and will
              *                only assist in counting by moving through
              *                what would have been read.
+             * @return whether there was an entry, even if it is not kept
              */
             template <bool count_only>
-            void read_coord_entry_(size_t &coord_pos, FileReader &r,
+            bool read_coord_entry_(size_t &coord_pos, FileReader &r,
                     Label &max_row, Label &max_col);
 
             /** @brief Copies the COO values from the other COO */
diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index fe2c011..01942e0 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -257,27 +257,28 @@ namespace pigo {
         /** Count-only implementation of reading a coord entry */
         template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true> {
-            static inline void op_(S&, S&, WS&, size_t &coord_pos, FileReader &r, L&, L&) {
+            static inline bool op_(S&, S&, WS&, size_t &coord_pos, FileReader &r, L&, L&) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
-                if (!r.good()) return;
+                if (!r.good()) return false;
                 L y = r.read_int<L>();
                 r.move_to_eol();
                 r.move_to_next_int();
-                if (if_true_<sl>() && x == y) return;
-                if (!if_true_<sym>() && if_true_<ut>() && x > y) return;
+                if (if_true_<sl>() && x == y) return true;
+                if (!if_true_<sym>() && if_true_<ut>() && x > y) return true;
                 if (if_true_<sym>() && !if_true_<ut>() && x != y) ++coord_pos;
                 ++coord_pos;
+                return true;
             }
         };
 
         /** Setting implementation of reading a coord entry */
         template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,false> {
-            static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
+            static inline bool op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
-                if (!r.good()) return;
+                if (!r.good()) return false;
                 L y = r.read_int<L>();
                 bool skip = (if_true_<sl>() && x == y) ||
                         (!if_true_<sym>() && if_true_<ut>() && x > y);
@@ -286,7 +287,7 @@ namespace pigo {
                 if (!skip) read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
                 r.move_to_eol();
                 r.move_to_next_int();
-                if (skip) return;
+                if (skip) return true;
                 if (if_true_<sym>() && if_true_<ut>() && x > y) std::swap(x, y);
                 set_value_(x_, coord_pos, x);
                 set_value_(y_, coord_pos, y);
@@ -304,6 +305,7 @@ namespace pigo {
                 }
                 if (x > max_row) max_row = x;
                 if (y > max_col) max_col = y;
+                return true;
             }
         };
 
@@ -311,22 +313,23 @@ namespace pigo {
          * flags */
         template<class L, class O, class S, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,false,false,false,wgt,W,WS,true> {
-            static inline void op_(S&, S&, WS&, size_t &coord_pos, FileReader &r, L&, L&) {
+            static inline bool op_(S&, S&, WS&, size_t &coord_pos, FileReader &r, L&, L&) {
                 r.move_to_next_int();
-                if (!r.good()) return;
+                if (!r.good()) return false;
                 r.move_to_eol();
                 r.move_to_next_int();
                 ++coord_pos;
+                return true;
             }
         };
 
         /** Setting implementation of reading a coord entry without flags */
         template<class L, class O, class S, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,false,false,false,wgt,W,WS,false> {
-            static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
+            static inline bool op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
-                if (!r.good()) return;
+                if (!r.good()) return false;
                 L y = r.read_int<L>();
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
                 r.move_to_eol();
@@ -336,15 +339,16 @@ namespace pigo {
                 ++coord_pos;
                 if (x > max_row) max_row = x;
                 if (y > max_col) max_col = y;
+                return true;
             }
         };
     }
 
     template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
     template<bool count_only>
-    void COO<L,O,S,sym,ut,sl,wgt,W,WS>::read_coord_entry_(size_t &coord_pos, FileReader &r,
+    bool COO<L,O,S,sym,ut,sl,wgt,W,WS>::read_coord_entry_(size_t &coord_pos, FileReader &r,
             L& max_row, L& max_col) {
-        detail::read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,count_only>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
+        return detail::read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,count_only>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
     }
 
     template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
@@ -367,7 +371,7 @@ namespace pigo {
         r.move_to_next_int();
 
         // Now, read out the actual contents
-        read_el_(r);
+        size_t num_read = read_el_(r);
 
         // Finally, sanity check the file
         if (detail::if_true_<sym>()) {
@@ -388,21 +392,9 @@ namespace pigo {
             free();
             throw Error("Too many col labels in file contradicting header");
         }
-        if (detail::if_true_<sym>()) {
-            if (nnz > 2*m_) {
-                free();
-                throw Error("Header wants more non-zeros than found");
-            }
-        } else if (detail::if_true_<sl>()) {
-            if (nnz > m_) {
-                free();
-                throw Error("Header wants more non-zeros than read");
-            }
-        } else {
-            if (nnz != m_) {
-                free();
-                throw Error("Header contradicts number of read non-zeros");
-            }
+        if ((size_t)nnz != num_read) {
+            free();
+            throw Error("Header contradicts number of read non-zeros");
         }
 
         if (nrows_ > ncols_) n_ = nrows_;
@@ -410,7 +402,7 @@ namespace pigo {
     }
 
     template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
-    void COO<L,O,S,sym,ut,sl,wgt,W,WS>::read_el_(FileReader& r) {
+    size_t COO<L,O,S,sym,ut,sl,wgt,W,WS>::read_el_(FileReader& r) {
         // Get the number of threads
         size_t num_threads = 1;
         #ifdef _OPENMP
@@ -433,8 +425,10 @@ namespace pigo {
 
         L max_row = 0;
         L max_col = 0;
+        // The number of entries in the file, including any not kept
+        size_t num_read = 0;
         #pragma omp parallel reduction(max : max_row) \
-                reduction(max : max_col)
+                reduction(max : max_col) reduction(+ : num_read)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -469,7 +463,8 @@ namespace pigo {
             L max_unused;
             size_t tid_nls = 0;
             while (rs_p1.good()) {
-                read_coord_entry_<true>(tid_nls, rs_p1, max_unused, max_unused);
+                if (read_coord_entry_<true>(tid_nls, rs_p1, max_unused, max_unused))
+                    ++num_read;
             }
 
             nl_offsets[tid] = tid_nls;
@@ -507,6 +502,8 @@ namespace pigo {
         ncols_ = max_col + 1;
         if (nrows_ > ncols_) n_ = nrows_;
         else n_ = ncols_;
+
+        return num_read;
     }
 
     template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
-- 
2.43.0


From 7a1dae729e7bf85ac3ce334dbdfe4c892ccbb613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 08/34] fix: carry the full state over when moving a File

---
 include/pigo.hpp                | 9 ++++++---
 include/pigo/impl/pigo.impl.hpp | 4 ++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index d689769..c057e07 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -13,6 +13,7 @@
 #include <memory>
 #include <vector>
 #include <string>
+#include <utility>
 
 namespace pigo {
 
@@ -357,9 +358,11 @@ namespace pigo {
             File& operator=(const File&) = delete;
 
             /** @brief Move constructor */
-            File(File &&o) {
-                data_ = o.data_;
-                size_ = o.size_;
+            File(File &&o) : data_(o.data_), size_(o.size_), fp_(o.fp_),
+                    fn_(std::move(o.fn_)) {
+                o.data_ = nullptr;
+                o.size_ = 0;
+                o.fp_ = nullptr;
             }
 
             /** @brief Move operator */
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index a2dba8a..7b991da 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -91,7 +91,11 @@ namespace pigo {
                 munmap(data_, size_);
             data_ = o.data_;
             size_ = o.size_;
+            fp_ = o.fp_;
+            fn_ = std::move(o.fn_);
             o.data_ = nullptr;
+            o.size_ = 0;
+            o.fp_ = nullptr;
         }
         return *this;
     }
-- 
2.43.0


From f29cdc86405c2e9812ebc8c7ef1b73210a33b71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 09/34] fix: release the file and its mapping when opening
 fails

---
 include/pigo/impl/pigo.impl.hpp | 44 ++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 7b991da..7de7845 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -37,8 +37,14 @@ namespace pigo {
             // Set the file to the given size
             FILE *w_f = fopen(fn.c_str(), "w");
             if (w_f == NULL) throw Error("PIGO: Unable to open file for writing");
-            if (fseeko(w_f, max_size-1, SEEK_SET) != 0) throw Error("PIGO: Seek to set size");
-            if (fputc(1, w_f) != 1) throw Error("PIGO: Unable to set size");
+            if (fseeko(w_f, max_size-1, SEEK_SET) != 0) {
+                fclose(w_f);
+                throw Error("PIGO: Seek to set size");
+            }
+            if (fputc(1, w_f) != 1) {
+                fclose(w_f);
+                throw Error("PIGO: Unable to set size");
+            }
             if (fclose(w_f) != 0) throw Error("PIGO: Unable to close new file");
         }
 
@@ -53,24 +59,44 @@ namespace pigo {
         #endif
         if (fd < 0) throw Error("Unable to open file");
         FILE *f = fdopen(fd, fopen_mode);
-        if (f == NULL) throw Error("PIGO: fdopen file");
+        if (f == NULL) {
+            close(fd);
+            throw Error("PIGO: fdopen file");
+        }
 
         // Find the file size
-        if (fseeko(f, 0 , SEEK_END) != 0)  throw Error("PIGO: Unable to seek to end");
+        if (fseeko(f, 0 , SEEK_END) != 0) {
+            fclose(f);
+            throw Error("PIGO: Unable to seek to end");
+        }
         size_ = ftello(f);
-        if (size_ == (size_t)(-1)) throw Error("PIGO: Invalid size");
+        if (size_ == (size_t)(-1)) {
+            fclose(f);
+            throw Error("PIGO: Invalid size");
+        }
 
-        if (mode == WRITE && size_ != max_size)
+        if (mode == WRITE && size_ != max_size) {
+            fclose(f);
             throw Error("PIGO: Wrong file size of new file");
+        }
 
         // MMAP the space
         data_ = (char*)mmap(NULL, size_*sizeof(char), prot,
                 MAP_SHARED | MAP_NORESERVE, fd, 0);
-        if (data_ == MAP_FAILED) throw Error("PIGO: MMAP");
-        if (fclose(f) != 0) throw Error("PIGO: Fclose");
+        if (data_ == MAP_FAILED) {
+            fclose(f);
+            throw Error("PIGO: MMAP");
+        }
+        if (fclose(f) != 0) {
+            munmap(data_, size_);
+            throw Error("PIGO: Fclose");
+        }
 
         // Advise the mmap for performance
-        if (madvise(data_, size_, MADV_WILLNEED) != 0) throw Error("PIGO: madvise");
+        if (madvise(data_, size_, MADV_WILLNEED) != 0) {
+            munmap(data_, size_);
+            throw Error("PIGO: madvise");
+        }
 
         // Finally, set the file position
         seek(0);
-- 
2.43.0


From 716f44df7ab01ed5f72f4ac94b02383ee2f81cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 10/34] fix: raise an error when file accesses go beyond the
 end

---
 include/pigo.hpp                |  3 +++
 include/pigo/impl/pigo.impl.hpp | 30 +++++++++++++++++++++++++++++-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index c057e07..aaea7ba 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -422,6 +422,9 @@ namespace pigo {
             /** @brief Return the size of the file */
             size_t size() { return size_; }
 
+            /** @brief Return the bytes left after the current position */
+            size_t remaining() { return (data_+size_)-fp_; }
+
             /** @brief Auto-detect the file type
              *
              * This will determine the file type based on a mixture of the
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 7de7845..da0918d 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -126,9 +126,34 @@ namespace pigo {
         return *this;
     }
 
+    namespace detail {
+        /** @brief Return the number of bytes a written object uses */
+        template<class T>
+        inline
+        size_t written_size_(const T&) { return sizeof(T); }
+
+        inline
+        size_t written_size_(const std::string& s) { return s.size(); }
+
+        /** @brief Ensure there is space and return what remains after
+         *
+         * @param remaining the number of bytes available
+         * @param nmemb the number of members needed
+         * @param size the size of each member
+         * @return the number of bytes available after the members
+         */
+        inline
+        size_t take_remaining_(size_t remaining, size_t nmemb, size_t size) {
+            if (size > 0 && nmemb > remaining/size)
+                throw Error("Beyond the end of the file");
+            return remaining - nmemb*size;
+        }
+    }
+
     template<class T>
     inline
     T File::read() {
+        detail::take_remaining_(remaining(), 1, sizeof(T));
         return ::pigo::read<T>(fp_);
     }
 
@@ -143,16 +168,19 @@ namespace pigo {
     template<class T>
     inline
     void File::write(T val) {
+        detail::take_remaining_(remaining(), 1, detail::written_size_(val));
         return ::pigo::write(fp_, val);
     }
 
     inline
     void File::parallel_write(char* v, size_t v_size) {
+        detail::take_remaining_(remaining(), v_size, 1);
         ::pigo::parallel_write(fp_, v, v_size);
     }
 
     inline
     void File::parallel_read(char* v, size_t v_size) {
+        detail::take_remaining_(remaining(), v_size, 1);
         ::pigo::parallel_read(fp_, v, v_size);
     }
 
@@ -535,7 +563,7 @@ namespace pigo {
     inline
     bool FileReader::at_str(std::string s) {
         // Ensure the size is suitable for comparison
-        if (d + s.size() >= end) return false;
+        if (s.size() > size()) return false;
         std::string d_str { d, d+s.size() };
         return s.compare(d_str) == 0;
     }
-- 
2.43.0


From 1d9df25096d854f791b9349898627a0635ffbeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 11/34] fix: reject binary files that are shorter than their
 header announces

---
 include/pigo/impl/coo.impl.hpp    | 5 +++++
 include/pigo/impl/csr.impl.hpp    | 6 ++++++
 include/pigo/impl/graph.impl.hpp  | 4 ++--
 include/pigo/impl/tensor.impl.hpp | 6 ++++++
 4 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 01942e0..8b74ab6 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -573,6 +573,11 @@ namespace pigo {
         n_ = f.read<L>();
         m_ = f.read<O>();
 
+        // Ensure that the file contains all of the data
+        size_t left = f.remaining();
+        left = detail::take_remaining_(left, m_, sizeof(L)*2);
+        detail::take_remaining_(left, m_, detail::weight_size_<wgt, W, size_t>(1));
+
         // Allocate space
         allocate_();
 
diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index d5b6d92..ed2be49 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -508,6 +508,12 @@ namespace pigo {
         nrows_ = f.read<L>();
         ncols_ = f.read<L>();
 
+        // Ensure that the file contains all of the data
+        size_t left = f.remaining();
+        left = detail::take_remaining_(left, (size_t)offset_rows_()+1, sizeof(O));
+        left = detail::take_remaining_(left, m_, sizeof(L));
+        detail::take_remaining_(left, m_, detail::weight_size_<wgt, W, size_t>(1));
+
         // Allocate space
         allocate_();
 
diff --git a/include/pigo/impl/graph.impl.hpp b/include/pigo/impl/graph.impl.hpp
index 48355d8..1787990 100644
--- a/include/pigo/impl/graph.impl.hpp
+++ b/include/pigo/impl/graph.impl.hpp
@@ -38,7 +38,7 @@ namespace pigo {
                         weighted,
                         Weight,
                         WeightStorage
-                    > { f, AUTO };
+                    > { f, PIGO_CSR_BIN };
             out_ = BaseGraph<
                         vertex_t,
                         edge_ctr_t,
@@ -47,7 +47,7 @@ namespace pigo {
                         weighted,
                         Weight,
                         WeightStorage
-                    > { f, AUTO };
+                    > { f, PIGO_CSR_BIN };
         } else {
             // Build a COO, then load ourselves from it
             COO<
diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 187320b..e56e46a 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -268,6 +268,12 @@ namespace pigo {
         order_ = f.read<O>();
         m_ = f.read<O>();
 
+        // Ensure that the file contains all of the data
+        size_t left = f.remaining();
+        if (m_ != 0) detail::take_remaining_(left, order_, sizeof(L));
+        left = detail::take_remaining_(left, m_, sizeof(L)*order_);
+        detail::take_remaining_(left, m_, detail::weight_size_<wgt, W, size_t>(1));
+
         // Allocate space
         allocate_();
 
-- 
2.43.0


From 588c0fe3e75501bc1b16bb7a2ebf460e2d0cdb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 12/34] fix: let errors opening the output of write() reach the
 caller

---
 include/pigo/impl/coo.impl.hpp    | 20 ++++++++++++++++----
 include/pigo/impl/tensor.impl.hpp | 20 ++++++++++++++++----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 8b74ab6..e19cc43 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -7,6 +7,7 @@
 #include <omp.h>
 #endif
 #include <atomic>
+#include <exception>
 #include <vector>
 #include <type_traits>
 
@@ -620,7 +621,9 @@ namespace pigo {
 
         std::vector<size_t> pos_offsets(num_threads+1);
         std::shared_ptr<File> f;
-        #pragma omp parallel shared(f) shared(pos_offsets)
+        // Exceptions can not leave the parallel region
+        std::exception_ptr f_error;
+        #pragma omp parallel shared(f) shared(pos_offsets) shared(f_error)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -662,16 +665,23 @@ namespace pigo {
                     pos_offsets[thread] = pos_offsets[thread-1] + pos_offsets[thread];
 
                 // Allocate the file
-                f = std::make_shared<File>(fn, WRITE, pos_offsets[num_threads]);
+                try {
+                    f = std::make_shared<File>(fn, WRITE, pos_offsets[num_threads]);
+                } catch (...) {
+                    f_error = std::current_exception();
+                }
             }
 
             #pragma omp barrier
 
-            FilePos my_fp = f->fp()+pos_offsets[tid];
+            FilePos my_fp = nullptr;
+            if (f) my_fp = f->fp()+pos_offsets[tid];
+            // Without a file there is nothing to write
+            O write_m = f ? m_ : 0;
 
             // Perform the second pass, actually writing out to the file
             #pragma omp for
-            for (O e = 0; e < m_; ++e) {
+            for (O e = 0; e < write_m; ++e) {
                 auto x = detail::get_value_<S, L>(x_, e);
                 write_ascii(my_fp, x);
                 pigo::write(my_fp, ' ');
@@ -685,6 +695,8 @@ namespace pigo {
                 pigo::write(my_fp, '\n');
             }
         }
+
+        if (f_error) std::rethrow_exception(f_error);
     }
 
 }
diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index e56e46a..5e54619 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -8,6 +8,7 @@
 #include <omp.h>
 #endif
 #include <atomic>
+#include <exception>
 #include <vector>
 #include <type_traits>
 
@@ -312,7 +313,9 @@ namespace pigo {
 
         std::vector<size_t> pos_offsets(num_threads+1);
         std::shared_ptr<File> f;
-        #pragma omp parallel shared(f) shared(pos_offsets)
+        // Exceptions can not leave the parallel region
+        std::exception_ptr f_error;
+        #pragma omp parallel shared(f) shared(pos_offsets) shared(f_error)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -350,16 +353,23 @@ namespace pigo {
                     pos_offsets[thread] = pos_offsets[thread-1] + pos_offsets[thread];
 
                 // Allocate the file
-                f = std::make_shared<File>(fn, WRITE, pos_offsets[num_threads]);
+                try {
+                    f = std::make_shared<File>(fn, WRITE, pos_offsets[num_threads]);
+                } catch (...) {
+                    f_error = std::current_exception();
+                }
             }
 
             #pragma omp barrier
 
-            FilePos my_fp = f->fp()+pos_offsets[tid];
+            FilePos my_fp = nullptr;
+            if (f) my_fp = f->fp()+pos_offsets[tid];
+            // Without a file there is nothing to write
+            O write_m = f ? m_ : 0;
 
             // Perform the second pass, actually writing out to the file
             #pragma omp for
-            for (O e = 0; e < m_; ++e) {
+            for (O e = 0; e < write_m; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
                     auto x = detail::get_value_<S, L>(c_, e*order_+idx);
                     write_ascii(my_fp, x);
@@ -374,6 +384,8 @@ namespace pigo {
                 pigo::write(my_fp, '\n');
             }
         }
+
+        if (f_error) std::rethrow_exception(f_error);
     }
 
     template<class L, class O, class S, class W, class WS, bool wgt>
-- 
2.43.0


From abd887ab6a3d313ad994a5f399a3d897a265a0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 13/34] fix: read and write the smallest value of signed
 integers

---
 include/pigo/impl/coo.impl.hpp  |  7 +++++--
 include/pigo/impl/pigo.impl.hpp | 18 ++++++++++--------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index e19cc43..2cccf92 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -190,9 +190,12 @@ namespace pigo {
             static inline void op_(size_t& coord_pos, WS& ws, FileReader& r) {
                 r.move_to_next_signed_int();
 
+                // Negate as unsigned, the smallest value has no signed inverse
+                typedef typename std::make_unsigned<W>::type U;
                 W sign = r.read_sign<W>();
-                W val = r.read_int<W>()*sign;
-                set_value_(ws, coord_pos, val);
+                U val = r.read_int<U>();
+                if (sign < 0) val = (U)((U)0-val);
+                set_value_(ws, coord_pos, (W)val);
             }
         };
 
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index da0918d..750c1db 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -278,9 +278,11 @@ namespace pigo {
         }
         template<typename T, typename std::enable_if<std::is_signed<T>::value, bool>::type = true>
         inline
-        T get_positive(T obj) {
-            if (obj < 0) return -obj;
-            return obj;
+        typename std::make_unsigned<T>::type get_positive(T obj) {
+            // Negate as unsigned, the smallest value has no signed inverse
+            typedef typename std::make_unsigned<T>::type U;
+            if (obj < 0) return (U)((U)0-(U)obj);
+            return (U)obj;
         }
     }
 
@@ -338,15 +340,15 @@ namespace pigo {
     inline
     void write_ascii(FilePos &fp, T obj) {
         detail::write_neg_ascii(fp, obj);
-        obj = detail::get_positive(obj);
+        auto val = detail::get_positive(obj);
 
-        size_t num_size = write_size(obj);
+        size_t num_size = write_size(val);
         size_t pos = num_size-1;
         // Write out each digit
         do {
-            *((char*)fp+pos--) = (obj%10)+'0';
-            obj /= 10;
-        } while (obj != 0);
+            *((char*)fp+pos--) = (val%10)+'0';
+            val /= 10;
+        } while (val != 0);
         fp += num_size;
     }
 
-- 
2.43.0


From 936cb555f44e377f83c8ad3b301afd9be80f2a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 14/34] fix: find every instance of a character in find_offsets

---
 include/pigo/impl/pigo.impl.hpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 750c1db..1bcb2a3 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -607,10 +607,7 @@ namespace pigo {
             FileReader rs = r + tid_start_i;
             FileReader re = r + tid_end_i;
 
-            // Next, move to the 'real' starting point
-            re.move_to(c);
-            if (tid != 0)
-                rs.move_to(c);
+            // Only consider the part of this thread
             rs.smaller_end(re);
 
             FileReader rs_p1 = rs;
@@ -618,9 +615,9 @@ namespace pigo {
             // Now, for pass 1, count the number of characters found
             size_t tid_c = 0;
             while (rs_p1.good()) {
-                rs_p1.move_to(c);
                 if (*rs_p1.d == c)
                     ++tid_c;
+                ++rs_p1.d;
             }
 
             c_offsets[tid] = tid_c;
@@ -660,10 +657,7 @@ namespace pigo {
             FileReader rs = r + tid_start_i;
             FileReader re = r + tid_end_i;
 
-            // Next, move to the 'real' starting point
-            re.move_to(c);
-            if (tid != 0)
-                rs.move_to(c);
+            // Only consider the part of this thread
             rs.smaller_end(re);
 
             FileReader rs_p1 = rs;
@@ -673,11 +667,11 @@ namespace pigo {
             if (tid > 0)
                 tid_c = c_offsets[tid-1];
             while (rs_p1.good()) {
-                rs_p1.move_to(c);
                 if (*rs_p1.d == c) {
                     detail::set_value_(t_c, tid_c, rs_p1.d-r.d);
                     ++tid_c;
                 }
+                ++rs_p1.d;
             }
         }
 
-- 
2.43.0


From e1babf12d932898c18d540acf4b4cb6227fa8823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 15/34] fix: find the order of tensors and their last line for
 any spelling

---
 include/pigo/impl/pigo.impl.hpp   | 52 +++++++------------------------
 include/pigo/impl/tensor.impl.hpp | 11 ++-----
 2 files changed, 14 insertions(+), 49 deletions(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 1bcb2a3..852e08a 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -488,47 +488,19 @@ namespace pigo {
 
     inline
     size_t FileReader::count_spaces_to_eol() {
-        size_t space_ct = 0;
+        // There is one space less than there are numbers
+        size_t number_ct = 0;
         // Loop until a newline
-        while (d < end && *d != '\n') {
-            // Read up to an integer, stopping once it is within an
-            // integer
-            while (d < end && *d != '\n' && *d != '%' && *d != '#' && (*d < '0' || *d > '9')) { ++d; }
-
-            // Make sure this is an integer
-            if (d >= end || *d < '0' || *d > '9') {
-                move_to_eol();
-                break;
-            }
-
-            // Read through the integer
-            while (d < end && ((*d >= '0' && *d <= '9') || *d == '.')) { ++d; }
-
-            if (d >= end || *d == '\n') break;
-            if (*d == '%' || *d == '#') {
-                move_to_eol();
-                break;
-            }
-
-            // Count this as a space
-            ++space_ct;
-
-            // Move passed the space
-            while (d < end && *d == ' ') { ++d; };
-
-            // Check if we just counted whitespace at the end; if so,
-            // un-do the count
-            if (d >= end || *d == '\n') {
-                --space_ct;
-                break;
-            }
-            if (*d == '%' || *d == '#') {
-                --space_ct;
-                move_to_eol();
-                break;
-            }
-        }
-        return space_ct;
+        while (d < end && *d != '\n' && *d != '%' && *d != '#') {
+            if ((*d >= '0' && *d <= '9') || *d == '-' || *d == '+' || *d == '.') {
+                // Read through the number
+                ++number_ct;
+                move_to_non_fp();
+            } else ++d;
+        }
+        move_to_eol();
+        if (number_ct == 0) return 0;
+        return number_ct-1;
     }
 
     inline
diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 5e54619..b457669 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -63,14 +63,8 @@ namespace pigo {
         template<class L, class O, class S, class W, class WS, bool wgt>
         struct read_tensor_entry_i_<L,O,S,W,WS,wgt,true> {
             static inline void op_(O order_, S&, WS&, size_t &coord_pos, FileReader &r) {
-                for (O idx = 0; idx < order_; ++idx) {
-                    if (detail::if_true_<wgt>()) {
-                        r.move_to_next_int();
-                    } else {
-                        r.read_int<L>();
-                    }
-                    if (!r.good()) return;
-                }
+                for (O idx = 0; idx < order_; ++idx)
+                    r.read_int<L>();
                 r.move_to_eol();
                 r.move_to_next_int();
                 ++coord_pos;
@@ -83,7 +77,6 @@ namespace pigo {
             static inline void op_(O order_, S& c_, WS& w_, size_t &coord_pos, FileReader &r) {
                 for (O idx = 0; idx < order_; ++idx) {
                     L v = r.read_int<L>();
-                    if (!r.good()) return;
                     set_value_(c_, coord_pos*order_+idx, v);
                 }
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
-- 
2.43.0


From d475168fdc0b9057e1d21f421555f924904503b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 16/34] fix: compute tensor coordinate positions with size_t

---
 include/pigo/impl/tensor.impl.hpp | 8 ++++----
 include/pigo/tensor.hpp           | 4 +++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index b457669..f60d6e3 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -50,7 +50,7 @@ namespace pigo {
 
     template<class L, class O, class S, class W, class WS, bool wgt>
     void Tensor<L,O,S,W,WS,wgt>::allocate_() {
-        detail::allocate_mem_<S>(c_, order_*m_);
+        detail::allocate_mem_<S>(c_, (size_t)order_*m_);
         detail::allocate_mem_<WS,wgt>(w_, m_);
     }
 
@@ -320,7 +320,7 @@ namespace pigo {
             #pragma omp for
             for (O e = 0; e < m_; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    auto x = detail::get_value_<S, L>(c_, e*order_+idx);
+                    auto x = detail::get_value_<S, L>(c_, (size_t)e*order_+idx);
                     my_size += write_size(x);
                     // Account for the separating space or newline
                     my_size += 1;
@@ -364,7 +364,7 @@ namespace pigo {
             #pragma omp for
             for (O e = 0; e < write_m; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    auto x = detail::get_value_<S, L>(c_, e*order_+idx);
+                    auto x = detail::get_value_<S, L>(c_, (size_t)e*order_+idx);
                     write_ascii(my_fp, x);
                     if (idx < order_-1)
                         pigo::write(my_fp, ' ');
@@ -411,7 +411,7 @@ namespace pigo {
             #pragma omp for
             for (O e = 0; e < m_; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    L val = c[e*order_+idx];
+                    L val = c[(size_t)e*order_+idx];
                     if (val > my_maxes[idx]) my_maxes[idx] = val;
                 }
             }
diff --git a/include/pigo/tensor.hpp b/include/pigo/tensor.hpp
index 43a1aef..c7c69aa 100644
--- a/include/pigo/tensor.hpp
+++ b/include/pigo/tensor.hpp
@@ -105,8 +105,10 @@ namespace pigo {
 
             /** @brief Copies values from the other tensor */
             void copy_(const Tensor& other) {
+                // The number of coordinates can exceed the ordinal type
+                size_t total = (size_t)order_*m_;
                 #pragma omp parallel for
-                for (Ordinal pos = 0; pos < order_*m_; ++pos) {
+                for (size_t pos = 0; pos < total; ++pos) {
                     Label val = detail::get_value_<
                                 Storage,
                                 Label
-- 
2.43.0


From af6c18f35982eae261a4f929e6f10ed37c1e431d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 17/34] fix: access unaligned and empty regions without
 undefined behaviour

---
 include/pigo/impl/pigo.impl.hpp | 11 +++++++++--
 include/pigo/impl/stb.impl.hpp  |  4 +++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 852e08a..c509e25 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -223,7 +223,9 @@ namespace pigo {
     template<class T>
     inline
     T read(FilePos &fp) {
-        T res = *(T*)fp;
+        // The position can be unaligned
+        T res;
+        memcpy(&res, fp, sizeof(T));
         fp += sizeof(T);
         return res;
     }
@@ -231,7 +233,8 @@ namespace pigo {
     template<class T>
     inline
     void write(FilePos &fp, T val) {
-        *(T*)fp = val;
+        // The position can be unaligned
+        memcpy((WFilePos)fp, &val, sizeof(T));
         fp += sizeof(T);
     }
 
@@ -652,6 +655,8 @@ namespace pigo {
 
     inline
     void parallel_write(FilePos &fp, char* v, size_t v_size) {
+        // The region can be NULL when it is empty
+        if (v_size == 0) return;
         WFilePos wfp = (WFilePos)(fp);
         #pragma omp parallel
         {
@@ -681,6 +686,8 @@ namespace pigo {
 
     inline
     void parallel_read(FilePos &fp, char* v, size_t v_size) {
+        // The region can be NULL when it is empty
+        if (v_size == 0) return;
         #pragma omp parallel
         {
             #ifdef _OPENMP
diff --git a/include/pigo/impl/stb.impl.hpp b/include/pigo/impl/stb.impl.hpp
index 81c3425..d735c38 100644
--- a/include/pigo/impl/stb.impl.hpp
+++ b/include/pigo/impl/stb.impl.hpp
@@ -1,6 +1,8 @@
 #ifndef PIGO_STB_HPP
 #define PIGO_STB_HPP
 
+#include <cstring>
+
 namespace pigo {
 
     //-=-=-=-=-=-=-=-=-=-=*-=-=-=-=-=-=-=-=-=-=*-=-=-=-=-=-=-=-=-=-=*-=-=-=-=-=-=
@@ -258,7 +260,7 @@ namespace pigo {
                 stbsp__cb_buf_clamp(i, n);
                 n -= i;
                 STBSP__UNALIGNED(while (i >= 4) {
-                   *(stbsp__uint32 volatile *)bf = *(stbsp__uint32 volatile *)s;
+                   memcpy(bf, s, 4);
                    bf += 4;
                    s += 4;
                    i -= 4;
-- 
2.43.0


From d69215c2af2aba0a1701702b19dd29a8f4633207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 18/34] fix: release empty, default and already released
 objects safely

---
 include/pigo.hpp        |  1 +
 include/pigo/coo.hpp    | 17 ++++++++---------
 include/pigo/csr.hpp    |  6 +++---
 include/pigo/tensor.hpp | 15 +++++++--------
 4 files changed, 19 insertions(+), 20 deletions(-)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index aaea7ba..46560ff 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -602,6 +602,7 @@ namespace pigo {
         struct free_impl_<true, T, true, false, false> {
             static void op_(T& it) {
                 free(it);
+                it = nullptr;
             }
         };
 
diff --git a/include/pigo/coo.hpp b/include/pigo/coo.hpp
index a0febf8..3f377ef 100644
--- a/include/pigo/coo.hpp
+++ b/include/pigo/coo.hpp
@@ -74,13 +74,13 @@ namespace pigo {
     class COO {
         private:
             /** The X value of the coordinate */
-            Storage x_;
+            Storage x_ {};
 
             /** The Y value of the coordinate */
-            Storage y_;
+            Storage y_ {};
 
             /** The weight values */
-            WeightStorage w_;
+            WeightStorage w_ {};
 
             /** The number of labels in the matrix represented */
             Label n_;
@@ -306,12 +306,11 @@ namespace pigo {
              * cleanup directly and then this can be used.
              */
             void free() {
-                if (m_ > 0) {
-                    detail::free_mem_(x_);
-                    detail::free_mem_(y_);
-                    detail::free_mem_<WeightStorage, weighted>(w_);
-                    m_ = 0;
-                }
+                // There can be an allocation without any entries
+                detail::free_mem_(x_);
+                detail::free_mem_(y_);
+                detail::free_mem_<WeightStorage, weighted>(w_);
+                m_ = 0;
             }
 
             /** @brief The copy constructor for creating a new COO */
diff --git a/include/pigo/csr.hpp b/include/pigo/csr.hpp
index 9c7b3b1..6a29f0e 100644
--- a/include/pigo/csr.hpp
+++ b/include/pigo/csr.hpp
@@ -57,13 +57,13 @@ namespace pigo {
     class CSR {
         protected:
             /** The endpoints hold the labels (e.g., representing edges) */
-            LabelStorage endpoints_;
+            LabelStorage endpoints_ {};
 
             /** The offsets into the endpoints */
-            OrdinalStorage offsets_;
+            OrdinalStorage offsets_ {};
 
             /** The weight values */
-            WeightStorage weights_;
+            WeightStorage weights_ {};
 
         private:
             /** The number of labels */
diff --git a/include/pigo/tensor.hpp b/include/pigo/tensor.hpp
index c7c69aa..a0dc684 100644
--- a/include/pigo/tensor.hpp
+++ b/include/pigo/tensor.hpp
@@ -45,10 +45,10 @@ namespace pigo {
     class Tensor {
         private:
             /** The coordinate values */
-            Storage c_;
+            Storage c_ {};
 
             /** The weight values */
-            WeightStorage w_;
+            WeightStorage w_ {};
 
             /** The order of the tensor */
             Ordinal order_;
@@ -193,12 +193,11 @@ namespace pigo {
 
             /** @brief Free consumed memory */
             void free() {
-                if (m_ > 0) {
-                    detail::free_mem_(c_);
-                    detail::free_mem_<WeightStorage, weighted>(w_);
-                    order_ = 0;
-                    m_ = 0;
-                }
+                // There can be an allocation without any entries
+                detail::free_mem_(c_);
+                detail::free_mem_<WeightStorage, weighted>(w_);
+                order_ = 0;
+                m_ = 0;
             }
 
             /** @brief The copy constructor for creating a new Tensor */
-- 
2.43.0


From 6d71a09597c208850b934de384ed593665048b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 19/34] fix: regenerate the single-header release from the
 repaired sources

---
 release/pigo.hpp | 783 ++++++++++++++++++++++++++++-------------------
 1 file changed, 471 insertions(+), 312 deletions(-)

diff --git a/release/pigo.hpp b/release/pigo.hpp
index a5a106f..dc52bec 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -41,6 +41,7 @@
 #include <atomic>
 #include <cmath>
 #include <cstring>
+#include <exception>
 #include <fcntl.h>
 #include <memory>
 #include <omp.h>
@@ -52,6 +53,7 @@
 #include <sys/types.h>
 #include <type_traits>
 #include <unistd.h>
+#include <utility>
 #include <vector>
 
 namespace pigo {
@@ -133,7 +135,7 @@ namespace pigo {
              */
             template<typename T>
             T read_sign() {
-                if (*d == '-') return (T)(-1);
+                if (d < end && *d == '-') return (T)(-1);
                 return (T)1;
             }
 
@@ -195,6 +197,49 @@ namespace pigo {
              */
             void move_to_eol();
 
+            /** @brief Move to the first line start at or after here
+             *
+             * If the reader is already at the start of a line it will not
+             * move.
+             *
+             * @param begin the start of the data, which starts a line
+             */
+            void move_to_line_start(FilePos begin) {
+                if (d == begin || *(d-1) == '\n') return;
+                move_to_eol();
+                if (d < end) ++d;
+            }
+
+            /** @brief Return whether the line only contains a comment
+             *
+             * Note that this does not increment the current position.
+             *
+             * @return true if the first non-space is a comment character
+             */
+            bool at_comment_line() {
+                FilePos td = d;
+                while (td < end && (*td == ' ' || *td == '\t' || *td == '\r')) ++td;
+                return td < end && (*td == '%' || *td == '#');
+            }
+
+            /** @brief Move to the next integer within the current line
+             *
+             * If there is none, the reader is moved to the end of the line.
+             * If it is already on an integer, it will not move.
+             *
+             * @return true if the reader is at an integer, false otherwise
+             */
+            bool move_to_int_in_line() {
+                while (d < end && *d != '\n' && (*d < '0' || *d > '9')) {
+                    if (*d == '%' || *d == '#') {
+                        move_to_eol();
+                        return false;
+                    }
+                    ++d;
+                }
+                return d < end && *d != '\n';
+            }
+
             /** @brief Move to the next instance of the given character
              *
              * If this is on the starting character, it will move off first,
@@ -274,9 +319,9 @@ namespace pigo {
              * @return true if the reader is at a '0' integer
              */
             bool at_zero() {
-                if (d >= end+1) return false;
+                if (d >= end) return false;
                 if (*d != '0') return false;
-                if (*(d+1) >= '0' && *(d+1) <= '9') return false;
+                if (d+1 < end && *(d+1) >= '0' && *(d+1) <= '9') return false;
                 return true;
             }
 
@@ -354,9 +399,11 @@ namespace pigo {
             File& operator=(const File&) = delete;
 
             /** @brief Move constructor */
-            File(File &&o) {
-                data_ = o.data_;
-                size_ = o.size_;
+            File(File &&o) : data_(o.data_), size_(o.size_), fp_(o.fp_),
+                    fn_(std::move(o.fn_)) {
+                o.data_ = nullptr;
+                o.size_ = 0;
+                o.fp_ = nullptr;
             }
 
             /** @brief Move operator */
@@ -416,6 +463,9 @@ namespace pigo {
             /** @brief Return the size of the file */
             size_t size() { return size_; }
 
+            /** @brief Return the bytes left after the current position */
+            size_t remaining() { return (data_+size_)-fp_; }
+
             /** @brief Auto-detect the file type
              *
              * This will determine the file type based on a mixture of the
@@ -593,6 +643,7 @@ namespace pigo {
         struct free_impl_<true, T, true, false, false> {
             static void op_(T& it) {
                 free(it);
+                it = nullptr;
             }
         };
 
@@ -895,13 +946,13 @@ namespace pigo {
     class COO {
         private:
             /** The X value of the coordinate */
-            Storage x_;
+            Storage x_ {};
 
             /** The Y value of the coordinate */
-            Storage y_;
+            Storage y_ {};
 
             /** The weight values */
-            WeightStorage w_;
+            WeightStorage w_ {};
 
             /** The number of labels in the matrix represented */
             Label n_;
@@ -929,8 +980,10 @@ namespace pigo {
              * specific file to load the COO.
              *
              * @param r the FileReader to read with
+             * @return the number of entries found in the file, including
+             *         any that the COO does not keep
              */
-            void read_el_(FileReader& r);
+            size_t read_el_(FileReader& r);
 
             /** @brief Reads a matrix market file into the COO
              *
@@ -986,9 +1039,10 @@ namespace pigo {
              * @tparam count_only if true, will not set values and will
              *                only assist in counting by moving through
              *                what would have been read.
+             * @return whether there was an entry, even if it is not kept
              */
             template <bool count_only>
-            void read_coord_entry_(size_t &coord_pos, FileReader &r,
+            bool read_coord_entry_(size_t &coord_pos, FileReader &r,
                     Label &max_row, Label &max_col);
 
             /** @brief Copies the COO values from the other COO */
@@ -1124,12 +1178,11 @@ namespace pigo {
              * cleanup directly and then this can be used.
              */
             void free() {
-                if (m_ > 0) {
-                    detail::free_mem_(x_);
-                    detail::free_mem_(y_);
-                    detail::free_mem_<WeightStorage, weighted>(w_);
-                    m_ = 0;
-                }
+                // There can be an allocation without any entries
+                detail::free_mem_(x_);
+                detail::free_mem_(y_);
+                detail::free_mem_<WeightStorage, weighted>(w_);
+                m_ = 0;
             }
 
             /** @brief The copy constructor for creating a new COO */
@@ -1157,6 +1210,7 @@ namespace pigo {
             /** @brief Transpose the COO, swapping x and y */
             COO& transpose() {
                 std::swap(x_, y_);
+                std::swap(nrows_, ncols_);
                 return *this;
             }
 
@@ -1258,13 +1312,13 @@ namespace pigo {
     class CSR {
         protected:
             /** The endpoints hold the labels (e.g., representing edges) */
-            LabelStorage endpoints_;
+            LabelStorage endpoints_ {};
 
             /** The offsets into the endpoints */
-            OrdinalStorage offsets_;
+            OrdinalStorage offsets_ {};
 
             /** The weight values */
-            WeightStorage weights_;
+            WeightStorage weights_ {};
 
         private:
             /** The number of labels */
@@ -1307,6 +1361,13 @@ namespace pigo {
             /** @brief Allocate the storage for the CSR */
             void allocate_();
 
+            /** @brief Return the number of rows that have offsets
+             *
+             * This is typically the number of labels, however one-based
+             * inputs can have an additional row.
+             */
+            Label offset_rows_() const { return nrows_ > n_ ? nrows_ : n_; }
+
             /** @brief Convert a COO into this CSR
              *
              * @tparam COOLabel the label for the COO format
@@ -2127,10 +2188,10 @@ namespace pigo {
     class Tensor {
         private:
             /** The coordinate values */
-            Storage c_;
+            Storage c_ {};
 
             /** The weight values */
-            WeightStorage w_;
+            WeightStorage w_ {};
 
             /** The order of the tensor */
             Ordinal order_;
@@ -2187,8 +2248,10 @@ namespace pigo {
 
             /** @brief Copies values from the other tensor */
             void copy_(const Tensor& other) {
+                // The number of coordinates can exceed the ordinal type
+                size_t total = (size_t)order_*m_;
                 #pragma omp parallel for
-                for (Ordinal pos = 0; pos < order_*m_; ++pos) {
+                for (size_t pos = 0; pos < total; ++pos) {
                     Label val = detail::get_value_<
                                 Storage,
                                 Label
@@ -2273,12 +2336,11 @@ namespace pigo {
 
             /** @brief Free consumed memory */
             void free() {
-                if (m_ > 0) {
-                    detail::free_mem_(c_);
-                    detail::free_mem_<WeightStorage, weighted>(w_);
-                    order_ = 0;
-                    m_ = 0;
-                }
+                // There can be an allocation without any entries
+                detail::free_mem_(c_);
+                detail::free_mem_<WeightStorage, weighted>(w_);
+                order_ = 0;
+                m_ = 0;
             }
 
             /** @brief The copy constructor for creating a new Tensor */
@@ -2560,7 +2622,7 @@ namespace pigo {
                 stbsp__cb_buf_clamp(i, n);
                 n -= i;
                 STBSP__UNALIGNED(while (i >= 4) {
-                   *(stbsp__uint32 volatile *)bf = *(stbsp__uint32 volatile *)s;
+                   memcpy(bf, s, 4);
                    bf += 4;
                    s += 4;
                    i -= 4;
@@ -2984,8 +3046,14 @@ namespace pigo {
             // Set the file to the given size
             FILE *w_f = fopen(fn.c_str(), "w");
             if (w_f == NULL) throw Error("PIGO: Unable to open file for writing");
-            if (fseeko(w_f, max_size-1, SEEK_SET) != 0) throw Error("PIGO: Seek to set size");
-            if (fputc(1, w_f) != 1) throw Error("PIGO: Unable to set size");
+            if (fseeko(w_f, max_size-1, SEEK_SET) != 0) {
+                fclose(w_f);
+                throw Error("PIGO: Seek to set size");
+            }
+            if (fputc(1, w_f) != 1) {
+                fclose(w_f);
+                throw Error("PIGO: Unable to set size");
+            }
             if (fclose(w_f) != 0) throw Error("PIGO: Unable to close new file");
         }
 
@@ -3000,24 +3068,44 @@ namespace pigo {
         #endif
         if (fd < 0) throw Error("Unable to open file");
         FILE *f = fdopen(fd, fopen_mode);
-        if (f == NULL) throw Error("PIGO: fdopen file");
+        if (f == NULL) {
+            close(fd);
+            throw Error("PIGO: fdopen file");
+        }
 
         // Find the file size
-        if (fseeko(f, 0 , SEEK_END) != 0)  throw Error("PIGO: Unable to seek to end");
+        if (fseeko(f, 0 , SEEK_END) != 0) {
+            fclose(f);
+            throw Error("PIGO: Unable to seek to end");
+        }
         size_ = ftello(f);
-        if (size_ == (size_t)(-1)) throw Error("PIGO: Invalid size");
+        if (size_ == (size_t)(-1)) {
+            fclose(f);
+            throw Error("PIGO: Invalid size");
+        }
 
-        if (mode == WRITE && size_ != max_size)
+        if (mode == WRITE && size_ != max_size) {
+            fclose(f);
             throw Error("PIGO: Wrong file size of new file");
+        }
 
         // MMAP the space
         data_ = (char*)mmap(NULL, size_*sizeof(char), prot,
                 MAP_SHARED | MAP_NORESERVE, fd, 0);
-        if (data_ == MAP_FAILED) throw Error("PIGO: MMAP");
-        if (fclose(f) != 0) throw Error("PIGO: Fclose");
+        if (data_ == MAP_FAILED) {
+            fclose(f);
+            throw Error("PIGO: MMAP");
+        }
+        if (fclose(f) != 0) {
+            munmap(data_, size_);
+            throw Error("PIGO: Fclose");
+        }
 
         // Advise the mmap for performance
-        if (madvise(data_, size_, MADV_WILLNEED) != 0) throw Error("PIGO: madvise");
+        if (madvise(data_, size_, MADV_WILLNEED) != 0) {
+            munmap(data_, size_);
+            throw Error("PIGO: madvise");
+        }
 
         // Finally, set the file position
         seek(0);
@@ -3038,14 +3126,43 @@ namespace pigo {
                 munmap(data_, size_);
             data_ = o.data_;
             size_ = o.size_;
+            fp_ = o.fp_;
+            fn_ = std::move(o.fn_);
             o.data_ = nullptr;
+            o.size_ = 0;
+            o.fp_ = nullptr;
         }
         return *this;
     }
 
+    namespace detail {
+        /** @brief Return the number of bytes a written object uses */
+        template<class T>
+        inline
+        size_t written_size_(const T&) { return sizeof(T); }
+
+        inline
+        size_t written_size_(const std::string& s) { return s.size(); }
+
+        /** @brief Ensure there is space and return what remains after
+         *
+         * @param remaining the number of bytes available
+         * @param nmemb the number of members needed
+         * @param size the size of each member
+         * @return the number of bytes available after the members
+         */
+        inline
+        size_t take_remaining_(size_t remaining, size_t nmemb, size_t size) {
+            if (size > 0 && nmemb > remaining/size)
+                throw Error("Beyond the end of the file");
+            return remaining - nmemb*size;
+        }
+    }
+
     template<class T>
     inline
     T File::read() {
+        detail::take_remaining_(remaining(), 1, sizeof(T));
         return ::pigo::read<T>(fp_);
     }
 
@@ -3060,16 +3177,19 @@ namespace pigo {
     template<class T>
     inline
     void File::write(T val) {
+        detail::take_remaining_(remaining(), 1, detail::written_size_(val));
         return ::pigo::write(fp_, val);
     }
 
     inline
     void File::parallel_write(char* v, size_t v_size) {
+        detail::take_remaining_(remaining(), v_size, 1);
         ::pigo::parallel_write(fp_, v, v_size);
     }
 
     inline
     void File::parallel_read(char* v, size_t v_size) {
+        detail::take_remaining_(remaining(), v_size, 1);
         ::pigo::parallel_read(fp_, v, v_size);
     }
 
@@ -3112,7 +3232,9 @@ namespace pigo {
     template<class T>
     inline
     T read(FilePos &fp) {
-        T res = *(T*)fp;
+        // The position can be unaligned
+        T res;
+        memcpy(&res, fp, sizeof(T));
         fp += sizeof(T);
         return res;
     }
@@ -3120,7 +3242,8 @@ namespace pigo {
     template<class T>
     inline
     void write(FilePos &fp, T val) {
-        *(T*)fp = val;
+        // The position can be unaligned
+        memcpy((WFilePos)fp, &val, sizeof(T));
         fp += sizeof(T);
     }
 
@@ -3167,9 +3290,11 @@ namespace pigo {
         }
         template<typename T, typename std::enable_if<std::is_signed<T>::value, bool>::type = true>
         inline
-        T get_positive(T obj) {
-            if (obj < 0) return -obj;
-            return obj;
+        typename std::make_unsigned<T>::type get_positive(T obj) {
+            // Negate as unsigned, the smallest value has no signed inverse
+            typedef typename std::make_unsigned<T>::type U;
+            if (obj < 0) return (U)((U)0-(U)obj);
+            return (U)obj;
         }
     }
 
@@ -3227,15 +3352,15 @@ namespace pigo {
     inline
     void write_ascii(FilePos &fp, T obj) {
         detail::write_neg_ascii(fp, obj);
-        obj = detail::get_positive(obj);
+        auto val = detail::get_positive(obj);
 
-        size_t num_size = write_size(obj);
+        size_t num_size = write_size(val);
         size_t pos = num_size-1;
         // Write out each digit
         do {
-            *((char*)fp+pos--) = (obj%10)+'0';
-            obj /= 10;
-        } while (obj != 0);
+            *((char*)fp+pos--) = (val%10)+'0';
+            val /= 10;
+        } while (val != 0);
         fp += num_size;
     }
 
@@ -3278,10 +3403,10 @@ namespace pigo {
                     *d == 'E' || *d == '-' || *d == '+' || *d == '.')) ++d;
         // Read the size
         bool positive = true;
-        if (*d == '-') {
+        if (d < end && *d == '-') {
             positive = false;
             ++d;
-        } else if (*d == '+') ++d;
+        } else if (d < end && *d == '+') ++d;
 
         // Support a simple form of floating point integers
         // Note: this is not the most accurate or fastest strategy
@@ -3291,7 +3416,7 @@ namespace pigo {
             res = res*10. + (T)(*d-'0');
             ++d;
         }
-        if (*d == '.') {
+        if (d < end && *d == '.') {
             ++d;
             T fraction = 0.;
             size_t fraction_count = 0;
@@ -3303,7 +3428,7 @@ namespace pigo {
             }
             res += fraction / std::pow(10., fraction_count);
         }
-        if (*d == 'e' || *d == 'E') {
+        if (d < end && (*d == 'e' || *d == 'E')) {
             ++d;
             T exp = read_fp<T>();
             res *= std::pow(10., exp);
@@ -3344,10 +3469,10 @@ namespace pigo {
     inline
     void FileReader::move_to_first_int() {
         // Move through the non-ints and comments
-        if (*d == '%' || *d == '#') skip_comments();
+        if (d < end && (*d == '%' || *d == '#')) skip_comments();
         while (d < end && (*d < '0' || *d > '9')) {
             ++d;
-            if (*d == '%' || *d == '#') skip_comments();
+            if (d < end && (*d == '%' || *d == '#')) skip_comments();
         }
     }
 
@@ -3362,60 +3487,32 @@ namespace pigo {
 
     inline
     void FileReader::move_to_next_signed_int() {
-        if (*d == '+' || *d == '-') ++d;
+        if (d < end && (*d == '+' || *d == '-')) ++d;
         move_to_non_int();
 
         // Move to the next integer or signed integral value
-        if (*d == '%' || *d == '#') skip_comments();
+        if (d < end && (*d == '%' || *d == '#')) skip_comments();
         while (d < end && (*d < '0' || *d > '9') && *d != '+' && *d != '-') {
             ++d;
-            if (*d == '%' || *d == '#') skip_comments();
+            if (d < end && (*d == '%' || *d == '#')) skip_comments();
         }
     }
 
     inline
     size_t FileReader::count_spaces_to_eol() {
-        size_t space_ct = 0;
+        // There is one space less than there are numbers
+        size_t number_ct = 0;
         // Loop until a newline
-        while (d < end && *d != '\n') {
-            // Read up to an integer, stopping once it is within an
-            // integer
-            while (d < end && *d != '\n' && *d != '%' && *d != '#' && (*d < '0' || *d > '9')) { ++d; }
-
-            // Make sure this is an integer
-            if (*d < '0' || *d > '9') {
-                move_to_eol();
-                break;
-            }
-
-            // Read through the integer
-            while (d < end && ((*d >= '0' && *d <= '9') || *d == '.')) { ++d; }
-
-            if (*d == '\n') break;
-            if (*d == '%' || *d == '#') {
-                move_to_eol();
-                break;
-            }
-
-            // Count this as a space
-            ++space_ct;
-
-            // Move passed the space
-            while (*d == ' ') { ++d; };
-
-            // Check if we just counted whitespace at the end; if so,
-            // un-do the count
-            if (*d == '\n') {
-                --space_ct;
-                break;
-            }
-            if (*d == '%' || *d == '#') {
-                --space_ct;
-                move_to_eol();
-                break;
-            }
+        while (d < end && *d != '\n' && *d != '%' && *d != '#') {
+            if ((*d >= '0' && *d <= '9') || *d == '-' || *d == '+' || *d == '.') {
+                // Read through the number
+                ++number_ct;
+                move_to_non_fp();
+            } else ++d;
         }
-        return space_ct;
+        move_to_eol();
+        if (number_ct == 0) return 0;
+        return number_ct-1;
     }
 
     inline
@@ -3429,14 +3526,14 @@ namespace pigo {
             ++d; // Move through a newline
         }
 
-        if (*d == '%' || *d == '#') {
+        if (d < end && (*d == '%' || *d == '#')) {
             skip_comments();
             --d;        // This will end at a newline
             return;
         }
         while (d < end && (*d < '0' || *d > '9') && *d != '\n') {
             ++d;
-            if (*d == '%' || *d == '#') {
+            if (d < end && (*d == '%' || *d == '#')) {
                 skip_comments();
                 --d;
                 return;
@@ -3452,7 +3549,7 @@ namespace pigo {
     inline
     bool FileReader::at_str(std::string s) {
         // Ensure the size is suitable for comparison
-        if (d + s.size() >= end) return false;
+        if (s.size() > size()) return false;
         std::string d_str { d, d+s.size() };
         return s.compare(d_str) == 0;
     }
@@ -3494,10 +3591,7 @@ namespace pigo {
             FileReader rs = r + tid_start_i;
             FileReader re = r + tid_end_i;
 
-            // Next, move to the 'real' starting point
-            re.move_to(c);
-            if (tid != 0)
-                rs.move_to(c);
+            // Only consider the part of this thread
             rs.smaller_end(re);
 
             FileReader rs_p1 = rs;
@@ -3505,9 +3599,9 @@ namespace pigo {
             // Now, for pass 1, count the number of characters found
             size_t tid_c = 0;
             while (rs_p1.good()) {
-                rs_p1.move_to(c);
                 if (*rs_p1.d == c)
                     ++tid_c;
+                ++rs_p1.d;
             }
 
             c_offsets[tid] = tid_c;
@@ -3547,10 +3641,7 @@ namespace pigo {
             FileReader rs = r + tid_start_i;
             FileReader re = r + tid_end_i;
 
-            // Next, move to the 'real' starting point
-            re.move_to(c);
-            if (tid != 0)
-                rs.move_to(c);
+            // Only consider the part of this thread
             rs.smaller_end(re);
 
             FileReader rs_p1 = rs;
@@ -3560,11 +3651,11 @@ namespace pigo {
             if (tid > 0)
                 tid_c = c_offsets[tid-1];
             while (rs_p1.good()) {
-                rs_p1.move_to(c);
                 if (*rs_p1.d == c) {
                     detail::set_value_(t_c, tid_c, rs_p1.d-r.d);
                     ++tid_c;
                 }
+                ++rs_p1.d;
             }
         }
 
@@ -3573,6 +3664,8 @@ namespace pigo {
 
     inline
     void parallel_write(FilePos &fp, char* v, size_t v_size) {
+        // The region can be NULL when it is empty
+        if (v_size == 0) return;
         WFilePos wfp = (WFilePos)(fp);
         #pragma omp parallel
         {
@@ -3602,6 +3695,8 @@ namespace pigo {
 
     inline
     void parallel_read(FilePos &fp, char* v, size_t v_size) {
+        // The region can be NULL when it is empty
+        if (v_size == 0) return;
         #pragma omp parallel
         {
             #ifdef _OPENMP
@@ -3678,7 +3773,7 @@ namespace pigo {
         } else if (ft_used == PIGO_CSR_BIN ||
                 ft_used == GRAPH) {
             // First build a CSR, then convert to a COO
-            CSR<L,O,S,S,wgt,W,WS> csr {f, ft_used};
+            CSR<L,O,L*,O*,wgt,W,WS> csr {f, ft_used};
             convert_csr_(csr);
             csr.free();
         } else {
@@ -3698,36 +3793,63 @@ namespace pigo {
     void COO<L,O,S,sym,ut,sl,wgt,W,WS>::convert_csr_(CSR<CL,CO,LS,OS,wgt,CW,CWS>& csr) {
         // First, set our sizes and allocate space
         n_ = csr.n();
+        nrows_ = csr.nrows();
+        ncols_ = csr.ncols();
         m_ = csr.m();
+        if (detail::if_true_<sym>()) {
+            // Every endpoint can become both a row and a column
+            if (nrows_ > ncols_) ncols_ = nrows_;
+            else nrows_ = ncols_;
+        }
 
-        if (detail::if_true_<sym>() && !detail::if_true_<ut>())
-            m_ *= 2;
-        else if (!detail::if_true_<sym>() && detail::if_true_<ut>())
+        if (!detail::if_true_<sym>() && detail::if_true_<ut>())
             throw NotYetImplemented("Keeping triangle only from CSR not yet implemented");
         if (detail::if_true_<sl>())
             throw NotYetImplemented("Removing self loops from CSR not yet implemented");
 
-        allocate_();
-
-        auto storage_offsets = csr.offsets();
-        auto storage_endpoints = csr.endpoints();
+        auto& storage_offsets = csr.offsets();
+        auto& storage_endpoints = csr.endpoints();
         CO* offsets = (CO*)detail::get_raw_data_(storage_offsets);
         CL* endpoints = (CL*)detail::get_raw_data_(storage_endpoints);
 
         CW* weights = nullptr;
         if (detail::if_true_<wgt>()) {
-            auto storage_weights = csr.weights();
+            auto& storage_weights = csr.weights();
             weights = (CW*)detail::get_raw_data_(storage_weights);
         }
 
+        // The rows can exceed the labels with one-based inputs
+        CL csr_n = csr.n();
+        if (csr.nrows() > csr_n) csr_n = csr.nrows();
+
+        // When symmetrizing, every entry is duplicated except for the ones
+        // on the diagonal
+        std::vector<size_t> diagonals;
+        if (detail::if_true_<sym>() && !detail::if_true_<ut>()) {
+            // Find how many diagonal entries there are before each row
+            diagonals.resize((size_t)csr_n+1);
+            #pragma omp parallel for schedule(dynamic, 10240)
+            for (CL v = 0; v < csr_n; ++v) {
+                size_t row_diagonals = 0;
+                for (CO e = offsets[v]; e < offsets[v+1]; ++e)
+                    if (endpoints[e] == v) ++row_diagonals;
+                diagonals[v+1] = row_diagonals;
+            }
+            for (CL v = 0; v < csr_n; ++v)
+                diagonals[v+1] += diagonals[v];
+            m_ = 2*(size_t)m_-diagonals[csr_n];
+        }
+
+        allocate_();
+
         #pragma omp parallel for schedule(dynamic, 10240)
-        for (L v = 0; v < n_; ++v) {
+        for (CL v = 0; v < csr_n; ++v) {
             auto start = endpoints + offsets[v];
             auto end = endpoints + offsets[v+1];
             size_t coo_cur = offsets[v];
 
             if (detail::if_true_<sym>() && !detail::if_true_<ut>())
-                coo_cur *= 2;
+                coo_cur = 2*coo_cur-diagonals[v];
 
             CW* cur_weight = nullptr;
             if (detail::if_true_<wgt>()) {
@@ -3740,7 +3862,8 @@ namespace pigo {
                     // Only the upper triangle should be saved
                     if (new_x > new_y)
                         std::swap(new_x, new_y);
-                } else if (detail::if_true_<sym>() && !detail::if_true_<ut>()) {
+                } else if (detail::if_true_<sym>() && !detail::if_true_<ut>() &&
+                        new_x != new_y) {
                     // We need to duplicate each edge, to point both ways
                     detail::set_value_(x_, coo_cur, new_y);
                     detail::set_value_(y_, coo_cur, new_x);
@@ -3792,9 +3915,12 @@ namespace pigo {
             static inline void op_(size_t& coord_pos, WS& ws, FileReader& r) {
                 r.move_to_next_signed_int();
 
+                // Negate as unsigned, the smallest value has no signed inverse
+                typedef typename std::make_unsigned<W>::type U;
                 W sign = r.read_sign<W>();
-                W val = r.read_int<W>()*sign;
-                set_value_(ws, coord_pos, val);
+                U val = r.read_int<U>();
+                if (sign < 0) val = (U)((U)0-val);
+                set_value_(ws, coord_pos, (W)val);
             }
         };
 
@@ -3860,42 +3986,37 @@ namespace pigo {
         /** Count-only implementation of reading a coord entry */
         template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true> {
-            static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
+            static inline bool op_(S&, S&, WS&, size_t &coord_pos, FileReader &r, L&, L&) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
+                if (!r.good()) return false;
                 L y = r.read_int<L>();
-                read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
-                if (!r.good()) return;
                 r.move_to_eol();
                 r.move_to_next_int();
-                if (if_true_<sl>() && x == y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
-                if (!if_true_<sym>() && if_true_<ut>() && x > y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
+                if (if_true_<sl>() && x == y) return true;
+                if (!if_true_<sym>() && if_true_<ut>() && x > y) return true;
                 if (if_true_<sym>() && !if_true_<ut>() && x != y) ++coord_pos;
                 ++coord_pos;
+                return true;
             }
         };
 
         /** Setting implementation of reading a coord entry */
         template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,false> {
-            static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
+            static inline bool op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
+                if (!r.good()) return false;
                 L y = r.read_int<L>();
-                read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
-                if (!r.good()) return;
+                bool skip = (if_true_<sl>() && x == y) ||
+                        (!if_true_<sym>() && if_true_<ut>() && x > y);
+                // There is no room reserved for skipped entries, so their
+                // weight must not be stored
+                if (!skip) read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
                 r.move_to_eol();
                 r.move_to_next_int();
-                if (if_true_<sl>() && x == y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,false>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
-                if (!if_true_<sym>() && if_true_<ut>() && x > y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,false>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
+                if (skip) return true;
                 if (if_true_<sym>() && if_true_<ut>() && x > y) std::swap(x, y);
                 set_value_(x_, coord_pos, x);
                 set_value_(y_, coord_pos, y);
@@ -3908,9 +4029,12 @@ namespace pigo {
                     set_value_(y_, coord_pos, x);
                     set_value_(x_, coord_pos, y);
                     ++coord_pos;
+                    if (y > max_row) max_row = y;
+                    if (x > max_col) max_col = x;
                 }
                 if (x > max_row) max_row = x;
                 if (y > max_col) max_col = y;
+                return true;
             }
         };
 
@@ -3918,24 +4042,25 @@ namespace pigo {
          * flags */
         template<class L, class O, class S, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,false,false,false,wgt,W,WS,true> {
-            static inline void op_(S&, S&, WS&, size_t &coord_pos, FileReader &r, L&, L&) {
+            static inline bool op_(S&, S&, WS&, size_t &coord_pos, FileReader &r, L&, L&) {
                 r.move_to_next_int();
-                if (!r.good()) return;
+                if (!r.good()) return false;
                 r.move_to_eol();
                 r.move_to_next_int();
                 ++coord_pos;
+                return true;
             }
         };
 
         /** Setting implementation of reading a coord entry without flags */
         template<class L, class O, class S, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,false,false,false,wgt,W,WS,false> {
-            static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
+            static inline bool op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
+                if (!r.good()) return false;
                 L y = r.read_int<L>();
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
-                if (!r.good()) return;
                 r.move_to_eol();
                 r.move_to_next_int();
                 set_value_(x_, coord_pos, x);
@@ -3943,15 +4068,16 @@ namespace pigo {
                 ++coord_pos;
                 if (x > max_row) max_row = x;
                 if (y > max_col) max_col = y;
+                return true;
             }
         };
     }
 
     template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
     template<bool count_only>
-    void COO<L,O,S,sym,ut,sl,wgt,W,WS>::read_coord_entry_(size_t &coord_pos, FileReader &r,
+    bool COO<L,O,S,sym,ut,sl,wgt,W,WS>::read_coord_entry_(size_t &coord_pos, FileReader &r,
             L& max_row, L& max_col) {
-        detail::read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,count_only>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
+        return detail::read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,count_only>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
     }
 
     template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
@@ -3974,9 +4100,14 @@ namespace pigo {
         r.move_to_next_int();
 
         // Now, read out the actual contents
-        read_el_(r);
+        size_t num_read = read_el_(r);
 
         // Finally, sanity check the file
+        if (detail::if_true_<sym>()) {
+            // Every label can become both a row and a column
+            if (nrows > ncols) ncols = nrows;
+            else nrows = ncols;
+        }
         if (nrows >= nrows_)
             nrows_ = nrows;
         else {
@@ -3990,21 +4121,9 @@ namespace pigo {
             free();
             throw Error("Too many col labels in file contradicting header");
         }
-        if (detail::if_true_<sym>()) {
-            if (nnz > 2*m_) {
-                free();
-                throw Error("Header wants more non-zeros than found");
-            }
-        } else if (detail::if_true_<sl>()) {
-            if (nnz > m_) {
-                free();
-                throw Error("Header wants more non-zeros than read");
-            }
-        } else {
-            if (nnz != m_) {
-                free();
-                throw Error("Header contradicts number of read non-zeros");
-            }
+        if ((size_t)nnz != num_read) {
+            free();
+            throw Error("Header contradicts number of read non-zeros");
         }
 
         if (nrows_ > ncols_) n_ = nrows_;
@@ -4012,7 +4131,7 @@ namespace pigo {
     }
 
     template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
-    void COO<L,O,S,sym,ut,sl,wgt,W,WS>::read_el_(FileReader& r) {
+    size_t COO<L,O,S,sym,ut,sl,wgt,W,WS>::read_el_(FileReader& r) {
         // Get the number of threads
         size_t num_threads = 1;
         #ifdef _OPENMP
@@ -4035,8 +4154,10 @@ namespace pigo {
 
         L max_row = 0;
         L max_col = 0;
+        // The number of entries in the file, including any not kept
+        size_t num_read = 0;
         #pragma omp parallel reduction(max : max_row) \
-                reduction(max : max_col)
+                reduction(max : max_col) reduction(+ : num_read)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -4071,7 +4192,8 @@ namespace pigo {
             L max_unused;
             size_t tid_nls = 0;
             while (rs_p1.good()) {
-                read_coord_entry_<true>(tid_nls, rs_p1, max_unused, max_unused);
+                if (read_coord_entry_<true>(tid_nls, rs_p1, max_unused, max_unused))
+                    ++num_read;
             }
 
             nl_offsets[tid] = tid_nls;
@@ -4109,6 +4231,8 @@ namespace pigo {
         ncols_ = max_col + 1;
         if (nrows_ > ncols_) n_ = nrows_;
         else n_ = ncols_;
+
+        return num_read;
     }
 
     template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
@@ -4178,6 +4302,11 @@ namespace pigo {
         n_ = f.read<L>();
         m_ = f.read<O>();
 
+        // Ensure that the file contains all of the data
+        size_t left = f.remaining();
+        left = detail::take_remaining_(left, m_, sizeof(L)*2);
+        detail::take_remaining_(left, m_, detail::weight_size_<wgt, W, size_t>(1));
+
         // Allocate space
         allocate_();
 
@@ -4220,7 +4349,9 @@ namespace pigo {
 
         std::vector<size_t> pos_offsets(num_threads+1);
         std::shared_ptr<File> f;
-        #pragma omp parallel shared(f) shared(pos_offsets)
+        // Exceptions can not leave the parallel region
+        std::exception_ptr f_error;
+        #pragma omp parallel shared(f) shared(pos_offsets) shared(f_error)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -4262,16 +4393,23 @@ namespace pigo {
                     pos_offsets[thread] = pos_offsets[thread-1] + pos_offsets[thread];
 
                 // Allocate the file
-                f = std::make_shared<File>(fn, WRITE, pos_offsets[num_threads]);
+                try {
+                    f = std::make_shared<File>(fn, WRITE, pos_offsets[num_threads]);
+                } catch (...) {
+                    f_error = std::current_exception();
+                }
             }
 
             #pragma omp barrier
 
-            FilePos my_fp = f->fp()+pos_offsets[tid];
+            FilePos my_fp = nullptr;
+            if (f) my_fp = f->fp()+pos_offsets[tid];
+            // Without a file there is nothing to write
+            O write_m = f ? m_ : 0;
 
             // Perform the second pass, actually writing out to the file
             #pragma omp for
-            for (O e = 0; e < m_; ++e) {
+            for (O e = 0; e < write_m; ++e) {
                 auto x = detail::get_value_<S, L>(x_, e);
                 write_ascii(my_fp, x);
                 pigo::write(my_fp, ' ');
@@ -4285,6 +4423,8 @@ namespace pigo {
                 pigo::write(my_fp, '\n');
             }
         }
+
+        if (f_error) std::rethrow_exception(f_error);
     }
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
@@ -4345,7 +4485,7 @@ namespace pigo {
     void CSR<L,O,LS,OS,wgt,W,WS>::allocate_() {
         detail::allocate_mem_<LS>(endpoints_, m_);
         detail::allocate_mem_<WS,wgt>(weights_, m_);
-        detail::allocate_mem_<OS>(offsets_, n_+1);
+        detail::allocate_mem_<OS>(offsets_, (size_t)offset_rows_()+1);
     }
     namespace detail {
         template<bool wgt, class W, class WS, class COOW, class COOWS, class O>
@@ -4390,6 +4530,9 @@ namespace pigo {
         m_ = coo.m();
         nrows_ = coo.nrows();
         ncols_ = coo.ncols();
+        // Every row and column needs to have a label
+        if (nrows_ > n_) n_ = nrows_;
+        if (ncols_ > n_) n_ = ncols_;
 
         // Allocate the offsets and endpoints
         allocate_();
@@ -4527,6 +4670,28 @@ namespace pigo {
 
     }
 
+    namespace detail {
+        /** @brief Return a reader over the lines starting in a thread's
+         * part of the file
+         *
+         * @param r the reader with the full file
+         * @param tid the thread id
+         * @param num_threads the number of threads
+         * @return a reader covering only complete lines
+         */
+        inline
+        FileReader line_range_(FileReader r, size_t tid, size_t num_threads) {
+            size_t size = r.size();
+            FileReader rs = r + (tid*size)/num_threads;
+            FileReader re = r + ((tid+1)*size)/num_threads;
+            // Move off of any line starting before
+            if (tid > 0) rs.move_to_line_start(r.d);
+            if (tid+1 < num_threads) re.move_to_line_start(r.d);
+            rs.smaller_end(re);
+            return rs;
+        }
+    }
+
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
     void CSR<L,O,LS,OS,wgt,W,WS>::read_graph_(FileReader &r) {
         // Get the number of threads
@@ -4549,19 +4714,19 @@ namespace pigo {
         r.move_to_next_int();
         O read_m = r.read_int<O>();
         r.move_to_eol();
-        r.move_to_next_int();
+        if (r.good()) r += 1;
 
-        // This takes two passes:
-        // first, count the number of newlines and integers to allocate
-        // storage
+        // This takes two passes over the lines, where each thread handles
+        // the lines that start in its part of the file:
+        // first, count the number of rows and integers to allocate storage
         // second, copy over the values appropriately
 
-        std::vector<size_t> nl_offsets(num_threads);
+        std::vector<size_t> row_offsets(num_threads);
         std::vector<size_t> int_offsets(num_threads);
         std::vector<L> max_labels(num_threads);
-        std::vector<bool> have_zeros(num_threads, false);
-        bool have_zero;
-        #pragma omp parallel shared(have_zero) shared(have_zeros)
+        std::vector<char> have_zeros(num_threads, 0);
+        std::vector<char> have_extras(num_threads, 0);
+        #pragma omp parallel
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -4569,133 +4734,109 @@ namespace pigo {
             size_t tid = 0;
             #endif
 
-            // Find our offsets in the file
-            size_t size = r.size();
-            size_t tid_start_i = (tid*size)/num_threads;
-            size_t tid_end_i = ((tid+1)*size)/num_threads;
-            FileReader rs = r + tid_start_i;
-            FileReader re = r + tid_end_i;
-
-            // Now, move to the appropriate starting point
-            re.move_to_next_int();
-            if (tid != 0) {
-                rs.move_to_next_int();
-            } else
-                rs.move_to_first_int();
-
-            // Set our file reader to end either at the full end or at
-            // the thread id local end
-            rs.smaller_end(re);
+            FileReader rs = detail::line_range_(r, tid, num_threads);
 
-            // Now, perform the first pass and count
-            FileReader rs_p1 = rs;
-            size_t tid_nls = 0;
+            // Perform the first pass and count
+            size_t tid_rows = 0;
             size_t tid_ints = 0;
-            bool my_have_zero = false;
-            while (rs_p1.good()) {
-                if (rs_p1.at_nl_or_eol())
-                    ++tid_nls;
-                else
+            while (rs.good()) {
+                if (rs.at_comment_line()) {
+                    rs.move_to_eol();
+                    rs += 1;
+                    continue;
+                }
+                ++tid_rows;
+                while (rs.move_to_int_in_line()) {
                     ++tid_ints;
-                // Determine if this is a 0
-                if (rs_p1.at_zero() && !my_have_zero)
-                    my_have_zero = true;
-
-                rs_p1.move_to_next_int_or_nl();
-            }
-            if (my_have_zero) {
-                have_zeros[tid] = true;
-            }
-
-            #pragma omp barrier
-            #pragma omp single
-            {
-                bool found_zero = false;
-                for (size_t tid = 0; tid < num_threads; ++tid) {
-                    if (have_zeros[tid]) {
-                        found_zero = true;
-                        break;
-                    }
+                    if (rs.at_zero()) have_zeros[tid] = 1;
+                    rs.move_to_non_int();
                 }
-                if (found_zero) have_zero = true;
-                else have_zero = false;
+                rs += 1;
             }
-            #pragma omp barrier
 
-            nl_offsets[tid] = tid_nls;
+            row_offsets[tid] = tid_rows;
             int_offsets[tid] = tid_ints;
+        }
 
-            // Compute a prefix sum on the offsets
-            #pragma omp barrier
-            #pragma omp single
-            {
-                size_t sum_nl = (have_zero) ? 0 : 1;
-                size_t sum_ints = 0;
-                for (size_t tid = 0; tid < num_threads; ++tid) {
-                    sum_nl += nl_offsets[tid];
-                    nl_offsets[tid] = sum_nl;
+        // Without any zero, the labels start at one and so there is an
+        // additional, empty row zero that is not counted as a label
+        size_t first_row = 1;
+        size_t sum_rows = 0;
+        size_t sum_ints = 0;
+        for (size_t tid = 0; tid < num_threads; ++tid) {
+            if (have_zeros[tid]) first_row = 0;
 
-                    sum_ints += int_offsets[tid];
-                    int_offsets[tid] = sum_ints;
-                }
+            sum_rows += row_offsets[tid];
+            row_offsets[tid] = sum_rows-row_offsets[tid];
 
-                // Now, allocate the space appropriately
-                m_ = int_offsets[num_threads-1];
-                n_ = nl_offsets[num_threads-1];
-                nrows_ = n_;
-                allocate_();
-                detail::set_value_(offsets_, 0, 0);
-                if (!have_zero)
-                    detail::set_value_(offsets_, 1, 0);
-                detail::set_value_(offsets_, n_, m_);
-            }
-            #pragma omp barrier
+            sum_ints += int_offsets[tid];
+            int_offsets[tid] = sum_ints-int_offsets[tid];
+        }
+
+        if (sum_ints != (size_t)read_m && sum_ints != 2*(size_t)read_m)
+            throw Error("Mismatch in CSR nonzeros and header");
+        if (sum_rows < (size_t)read_n)
+            throw Error("Mismatch in CSR newlines and header");
+
+        // Now, allocate the space appropriately
+        m_ = sum_ints;
+        n_ = read_n;
+        nrows_ = read_n+first_row;
+        allocate_();
+        detail::set_value_(offsets_, 0, 0);
+        detail::set_value_(offsets_, nrows_, m_);
+
+        #pragma omp parallel
+        {
+            #ifdef _OPENMP
+            size_t tid = omp_get_thread_num();
+            #else
+            size_t tid = 0;
+            #endif
+
+            FileReader rs = detail::line_range_(r, tid, num_threads);
 
             // Pass 2: iterate through again, but now copy out the values
             // to the appropriate position in the endpoints / offsets
             L my_max = 0;
-            FileReader rs_p2 = rs;
-            O endpoint_pos = 0;
-            L offset_pos = 0;
-            if (tid > 0) {
-                offset_pos = nl_offsets[tid-1];
-                endpoint_pos = int_offsets[tid-1];
-            } else if (!have_zero)
-                offset_pos = 1;
-
-            while (rs_p2.good()) {
-                // Ignore any trailing data in the file
-                if (offset_pos >= n_) break;
-
-                // Copy and set the endpoint
-                if (rs_p2.at_nl_or_eol()) {
-                    // Set the offset to the current endpoint position
-                    detail::set_value_(offsets_, ++offset_pos, endpoint_pos);
-                    rs_p2.move_to_next_int_or_nl();
-                } else {
-                    // Set the actual value
-                    L endpoint = rs_p2.read_int<L>();
+            size_t row = row_offsets[tid];
+            size_t endpoint_pos = int_offsets[tid];
+            while (rs.good()) {
+                if (rs.at_comment_line()) {
+                    rs.move_to_eol();
+                    rs += 1;
+                    continue;
+                }
+                // Any lines after the final row can not have integers
+                bool extra = row >= (size_t)read_n;
+                if (!extra)
+                    detail::set_value_(offsets_, row+first_row, (O)endpoint_pos);
+                while (rs.move_to_int_in_line()) {
+                    if (extra) have_extras[tid] = 1;
+                    L endpoint = rs.read_int<L>();
                     if (endpoint > my_max)
                         my_max = endpoint;
                     detail::set_value_(endpoints_, endpoint_pos++, endpoint);
-                    if (!rs_p2.at_nl_or_eol())
-                        rs_p2.move_to_next_int_or_nl();
                 }
+                ++row;
+                rs += 1;
             }
             max_labels[tid] = my_max;
         }
 
-        if (m_ == 2*read_m) {}
-        else if (m_ != read_m) throw Error("Mismatch in CSR nonzeros and header");
-        if (n_ < read_n) throw Error("Mismatch in CSR newlines and header");
-        else n_ = read_n;
-
-        L col_max = max_labels[0];
-        for (size_t thread = 1; thread < num_threads; ++thread) {
-            if (max_labels[thread] > col_max)
-                col_max = max_labels[thread];
+        L col_max = 0;
+        bool have_extra = false;
+        for (size_t tid = 0; tid < num_threads; ++tid) {
+            if (max_labels[tid] > col_max)
+                col_max = max_labels[tid];
+            if (have_extras[tid]) have_extra = true;
         }
         ncols_ = col_max+1;
+
+        if (have_extra) {
+            free();
+            throw Error("Mismatch in CSR newlines and header");
+        }
     }
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
@@ -4708,7 +4849,7 @@ namespace pigo {
         // Find the size of the size of the CSR
         out_size += sizeof(L)*3+sizeof(O);
         // Finally, find the actual CSR size
-        size_t voff_size = sizeof(O)*(n_+1);
+        size_t voff_size = sizeof(O)*((size_t)offset_rows_()+1);
         size_t vend_size = sizeof(L)*m_;
         size_t w_size = detail::weight_size_<wgt, W, O>(m_);
         out_size += voff_size + vend_size + w_size;
@@ -4746,7 +4887,7 @@ namespace pigo {
         w.write(nrows_);
         w.write(ncols_);
 
-        size_t voff_size = sizeof(O)*(n_+1);
+        size_t voff_size = sizeof(O)*((size_t)offset_rows_()+1);
         size_t vend_size = sizeof(L)*m_;
         size_t w_size = detail::weight_size_<wgt, W, O>(m_);
 
@@ -4782,10 +4923,16 @@ namespace pigo {
         nrows_ = f.read<L>();
         ncols_ = f.read<L>();
 
+        // Ensure that the file contains all of the data
+        size_t left = f.remaining();
+        left = detail::take_remaining_(left, (size_t)offset_rows_()+1, sizeof(O));
+        left = detail::take_remaining_(left, m_, sizeof(L));
+        detail::take_remaining_(left, m_, detail::weight_size_<wgt, W, size_t>(1));
+
         // Allocate space
         allocate_();
 
-        size_t voff_size = sizeof(O)*(n_+1);
+        size_t voff_size = sizeof(O)*((size_t)offset_rows_()+1);
         size_t vend_size = sizeof(L)*m_;
 
         // Read out the vectors
@@ -4804,8 +4951,9 @@ namespace pigo {
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
     void CSR<L,O,LS,OS,wgt,W,WS>::sort() {
+        L rows = offset_rows_();
         #pragma omp parallel for schedule(dynamic, 10240)
-        for (L v = 0; v < n_; ++v) {
+        for (L v = 0; v < rows; ++v) {
             // Get the start and end range
             O start = detail::get_value_<OS, O>(offsets_, v);
             O end = detail::get_value_<OS, O>(offsets_, v+1);
@@ -4850,14 +4998,15 @@ namespace pigo {
         sort();
 
         // Next, count the degrees for each vertex, excluding duplicates
+        L rows = offset_rows_();
         std::shared_ptr<L> degs_storage;
-        detail::allocate_mem_(degs_storage, n_);
+        detail::allocate_mem_(degs_storage, rows);
         L* degs = degs_storage.get();
 
         nO new_m = 0;
 
         #pragma omp parallel for schedule(dynamic, 10240) shared(degs) reduction(+ : new_m)
-        for (L v = 0; v < n_; ++v) {
+        for (L v = 0; v < rows; ++v) {
             O start = detail::get_value_<OS, O>(offsets_, v);
             O end = detail::get_value_<OS, O>(offsets_, v+1);
             if (end-start == 0) {
@@ -4915,8 +5064,8 @@ namespace pigo {
             size_t tid = 0;
             #endif
 
-            L v_start = (tid*n_)/num_threads;
-            L v_end = ((tid+1)*n_)/num_threads;
+            L v_start = (tid*rows)/num_threads;
+            L v_end = ((tid+1)*rows)/num_threads;
 
             O my_degs = 0;
             for (L c = v_start; c < v_end; ++c) {
@@ -4954,7 +5103,7 @@ namespace pigo {
             {
                 // Patch the last offset to the end, making for easier
                 // degree computation and iteration
-                detail::set_value_(new_offsets, (nL)n_, new_m);
+                detail::set_value_(new_offsets, (nL)rows, new_m);
             }
 
             // Now, all new offsets have been assigned
@@ -4962,7 +5111,7 @@ namespace pigo {
 
         // Repeat going through the edges, copying out the endpoints
         #pragma omp parallel for schedule(dynamic, 10240)
-        for (L v = 0; v < n_; ++v) {
+        for (L v = 0; v < rows; ++v) {
             O o_start = detail::get_value_<OS, O>(offsets_, v);
             O o_end = detail::get_value_<OS, O>(offsets_, v+1);
             if (o_end-o_start == 0) continue;
@@ -5026,7 +5175,7 @@ namespace pigo {
                         weighted,
                         Weight,
                         WeightStorage
-                    > { f, AUTO };
+                    > { f, PIGO_CSR_BIN };
             out_ = BaseGraph<
                         vertex_t,
                         edge_ctr_t,
@@ -5035,7 +5184,7 @@ namespace pigo {
                         weighted,
                         Weight,
                         WeightStorage
-                    > { f, AUTO };
+                    > { f, PIGO_CSR_BIN };
         } else {
             // Build a COO, then load ourselves from it
             COO<
@@ -5117,7 +5266,7 @@ namespace pigo {
 
     template<class L, class O, class S, class W, class WS, bool wgt>
     void Tensor<L,O,S,W,WS,wgt>::allocate_() {
-        detail::allocate_mem_<S>(c_, order_*m_);
+        detail::allocate_mem_<S>(c_, (size_t)order_*m_);
         detail::allocate_mem_<WS,wgt>(w_, m_);
     }
 
@@ -5130,14 +5279,8 @@ namespace pigo {
         template<class L, class O, class S, class W, class WS, bool wgt>
         struct read_tensor_entry_i_<L,O,S,W,WS,wgt,true> {
             static inline void op_(O order_, S&, WS&, size_t &coord_pos, FileReader &r) {
-                for (O idx = 0; idx < order_; ++idx) {
-                    if (detail::if_true_<wgt>()) {
-                        r.move_to_next_int();
-                    } else {
-                        r.read_int<L>();
-                    }
-                    if (!r.good()) return;
-                }
+                for (O idx = 0; idx < order_; ++idx)
+                    r.read_int<L>();
                 r.move_to_eol();
                 r.move_to_next_int();
                 ++coord_pos;
@@ -5150,7 +5293,6 @@ namespace pigo {
             static inline void op_(O order_, S& c_, WS& w_, size_t &coord_pos, FileReader &r) {
                 for (O idx = 0; idx < order_; ++idx) {
                     L v = r.read_int<L>();
-                    if (!r.good()) return;
                     set_value_(c_, coord_pos*order_+idx, v);
                 }
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
@@ -5336,6 +5478,12 @@ namespace pigo {
         order_ = f.read<O>();
         m_ = f.read<O>();
 
+        // Ensure that the file contains all of the data
+        size_t left = f.remaining();
+        if (m_ != 0) detail::take_remaining_(left, order_, sizeof(L));
+        left = detail::take_remaining_(left, m_, sizeof(L)*order_);
+        detail::take_remaining_(left, m_, detail::weight_size_<wgt, W, size_t>(1));
+
         // Allocate space
         allocate_();
 
@@ -5374,7 +5522,9 @@ namespace pigo {
 
         std::vector<size_t> pos_offsets(num_threads+1);
         std::shared_ptr<File> f;
-        #pragma omp parallel shared(f) shared(pos_offsets)
+        // Exceptions can not leave the parallel region
+        std::exception_ptr f_error;
+        #pragma omp parallel shared(f) shared(pos_offsets) shared(f_error)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -5386,7 +5536,7 @@ namespace pigo {
             #pragma omp for
             for (O e = 0; e < m_; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    auto x = detail::get_value_<S, L>(c_, e*order_+idx);
+                    auto x = detail::get_value_<S, L>(c_, (size_t)e*order_+idx);
                     my_size += write_size(x);
                     // Account for the separating space or newline
                     my_size += 1;
@@ -5412,18 +5562,25 @@ namespace pigo {
                     pos_offsets[thread] = pos_offsets[thread-1] + pos_offsets[thread];
 
                 // Allocate the file
-                f = std::make_shared<File>(fn, WRITE, pos_offsets[num_threads]);
+                try {
+                    f = std::make_shared<File>(fn, WRITE, pos_offsets[num_threads]);
+                } catch (...) {
+                    f_error = std::current_exception();
+                }
             }
 
             #pragma omp barrier
 
-            FilePos my_fp = f->fp()+pos_offsets[tid];
+            FilePos my_fp = nullptr;
+            if (f) my_fp = f->fp()+pos_offsets[tid];
+            // Without a file there is nothing to write
+            O write_m = f ? m_ : 0;
 
             // Perform the second pass, actually writing out to the file
             #pragma omp for
-            for (O e = 0; e < m_; ++e) {
+            for (O e = 0; e < write_m; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    auto x = detail::get_value_<S, L>(c_, e*order_+idx);
+                    auto x = detail::get_value_<S, L>(c_, (size_t)e*order_+idx);
                     write_ascii(my_fp, x);
                     if (idx < order_-1)
                         pigo::write(my_fp, ' ');
@@ -5436,6 +5593,8 @@ namespace pigo {
                 pigo::write(my_fp, '\n');
             }
         }
+
+        if (f_error) std::rethrow_exception(f_error);
     }
 
     template<class L, class O, class S, class W, class WS, bool wgt>
@@ -5468,7 +5627,7 @@ namespace pigo {
             #pragma omp for
             for (O e = 0; e < m_; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    L val = c[e*order_+idx];
+                    L val = c[(size_t)e*order_+idx];
                     if (val > my_maxes[idx]) my_maxes[idx] = val;
                 }
             }
-- 
2.43.0


From a8adb35291afa5cbaffd20c88e4511c19a64aa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 20/34] fix: keep OpenMP optional in the single-header release

---
 generate_release.py | 6 +++++-
 release/pigo.hpp    | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/generate_release.py b/generate_release.py
index 3d98976..910e776 100755
--- a/generate_release.py
+++ b/generate_release.py
@@ -96,7 +96,11 @@ def get_code(fn, root=True):
 def write_includes(includes, o):
     si = sorted(list(includes))
     for i in si:
-        o.write(i)
+        if '<omp.h>' in i:
+            # OpenMP is optional
+            o.write(f'#ifdef _OPENMP\n{i}#endif\n')
+        else:
+            o.write(i)
     o.write('\n')
 
 def create_single(fn, o):
diff --git a/release/pigo.hpp b/release/pigo.hpp
index dc52bec..ff61858 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -44,7 +44,9 @@
 #include <exception>
 #include <fcntl.h>
 #include <memory>
+#ifdef _OPENMP
 #include <omp.h>
+#endif
 #include <stdexcept>
 #include <stdlib.h>
 #include <string>
-- 
2.43.0


From 936b9f8d62c84d2c2583e38596f8e9391aa38f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 21/34] fix: reject binary CSR headers whose row count
 overflows

---
 include/pigo/impl/csr.impl.hpp | 3 ++-
 release/pigo.hpp               | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index ed2be49..d780cb3 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -510,7 +510,8 @@ namespace pigo {
 
         // Ensure that the file contains all of the data
         size_t left = f.remaining();
-        left = detail::take_remaining_(left, (size_t)offset_rows_()+1, sizeof(O));
+        left = detail::take_remaining_(left, offset_rows_(), sizeof(O));
+        left = detail::take_remaining_(left, 1, sizeof(O));
         left = detail::take_remaining_(left, m_, sizeof(L));
         detail::take_remaining_(left, m_, detail::weight_size_<wgt, W, size_t>(1));
 
diff --git a/release/pigo.hpp b/release/pigo.hpp
index ff61858..c396ec1 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -4927,7 +4927,8 @@ namespace pigo {
 
         // Ensure that the file contains all of the data
         size_t left = f.remaining();
-        left = detail::take_remaining_(left, (size_t)offset_rows_()+1, sizeof(O));
+        left = detail::take_remaining_(left, offset_rows_(), sizeof(O));
+        left = detail::take_remaining_(left, 1, sizeof(O));
         left = detail::take_remaining_(left, m_, sizeof(L));
         detail::take_remaining_(left, m_, detail::weight_size_<wgt, W, size_t>(1));
 
-- 
2.43.0


From e5674a3dab20d3777c074b6a5eb73421777eaeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:33 +0000
Subject: [PATCH 22/34] fix: read fractions with many digits without
 overflowing

---
 include/pigo/impl/pigo.impl.hpp | 8 ++++++--
 release/pigo.hpp                | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index c509e25..d601261 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -413,9 +413,13 @@ namespace pigo {
             size_t fraction_count = 0;
             // Read the 'B' part
             while (d < end && (*d >= '0' && *d <= '9')) {
-                fraction = fraction*10. + (T)(*d-'0');
+                // Any further digits are beyond the precision, and can
+                // overflow
+                if (fraction < 1e17) {
+                    fraction = fraction*10. + (T)(*d-'0');
+                    ++fraction_count;
+                }
                 ++d;
-                ++fraction_count;
             }
             res += fraction / std::pow(10., fraction_count);
         }
diff --git a/release/pigo.hpp b/release/pigo.hpp
index c396ec1..a4d660c 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -3424,9 +3424,13 @@ namespace pigo {
             size_t fraction_count = 0;
             // Read the 'B' part
             while (d < end && (*d >= '0' && *d <= '9')) {
-                fraction = fraction*10. + (T)(*d-'0');
+                // Any further digits are beyond the precision, and can
+                // overflow
+                if (fraction < 1e17) {
+                    fraction = fraction*10. + (T)(*d-'0');
+                    ++fraction_count;
+                }
                 ++d;
-                ++fraction_count;
             }
             res += fraction / std::pow(10., fraction_count);
         }
-- 
2.43.0


From 2dfaefd7975b1796cba7c9406dec156c967dd171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 23/34] fix: use the size of the team that does the work

The number of threads was found in a parallel region of its own. With
nested regions sharing a thread limit the next region can have another
size, losing entries or writing outside of the per-thread storage.
---
 include/pigo/impl/coo.impl.hpp    |  36 +++---
 include/pigo/impl/csr.impl.hpp    |  61 ++++------
 include/pigo/impl/pigo.impl.hpp   |  39 ++----
 include/pigo/impl/tensor.impl.hpp |  54 ++++-----
 release/pigo.hpp                  | 190 +++++++++++++-----------------
 5 files changed, 158 insertions(+), 222 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 2cccf92..8aa0d4b 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -407,17 +407,10 @@ namespace pigo {
 
     template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
     size_t COO<L,O,S,sym,ut,sl,wgt,W,WS>::read_el_(FileReader& r) {
-        // Get the number of threads
+        // The number of threads is set by the team doing the work
         size_t num_threads = 1;
         #ifdef _OPENMP
         omp_set_dynamic(0);
-        #pragma omp parallel shared(num_threads)
-        {
-            #pragma omp single
-            {
-                num_threads = omp_get_num_threads();
-            }
-        }
         #endif
 
         // This takes two passes:
@@ -425,7 +418,7 @@ namespace pigo {
         // allocate storage
         // second, copy over the values appropriately
 
-        std::vector<size_t> nl_offsets(num_threads);
+        std::vector<size_t> nl_offsets;
 
         L max_row = 0;
         L max_col = 0;
@@ -439,6 +432,13 @@ namespace pigo {
             #else
             size_t tid = 0;
             #endif
+            #pragma omp single
+            {
+                #ifdef _OPENMP
+                num_threads = omp_get_num_threads();
+                #endif
+                nl_offsets.resize(num_threads);
+            }
 
             // Find our offsets in the file
             size_t size = r.size();
@@ -609,20 +609,13 @@ namespace pigo {
         // After the first pass, the output file is allocated
         // Second, each thread actually writes
 
-        // Get the number of threads
+        // The number of threads is set by the team doing the work
         size_t num_threads = 1;
         #ifdef _OPENMP
         omp_set_dynamic(0);
-        #pragma omp parallel shared(num_threads)
-        {
-            #pragma omp single
-            {
-                num_threads = omp_get_num_threads();
-            }
-        }
         #endif
 
-        std::vector<size_t> pos_offsets(num_threads+1);
+        std::vector<size_t> pos_offsets;
         std::shared_ptr<File> f;
         // Exceptions can not leave the parallel region
         std::exception_ptr f_error;
@@ -633,6 +626,13 @@ namespace pigo {
             #else
             size_t tid = 0;
             #endif
+            #pragma omp single
+            {
+                #ifdef _OPENMP
+                num_threads = omp_get_num_threads();
+                #endif
+                pos_offsets.resize(num_threads+1);
+            }
             size_t my_size = 0;
 
             #pragma omp for
diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index d780cb3..79fe720 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -128,17 +128,10 @@ namespace pigo {
         // Next, we go through the degrees and change them to offsets
         // Finally, we need to go through the COO and copy memory
 
-        // Get the number of threads
+        // The number of threads is set by the team doing the work
         size_t num_threads = 1;
         #ifdef _OPENMP
         omp_set_dynamic(0);
-        #pragma omp parallel shared(num_threads)
-        {
-            #pragma omp single
-            {
-                num_threads = omp_get_num_threads();
-            }
-        }
         #endif
 
         // Temporarily keep track of the degree for each label (this can
@@ -146,7 +139,7 @@ namespace pigo {
         O* label_degs = new O[n_];
 
         // Keep track of the starting offsets for each thread
-        O* start_offsets = new O[num_threads];
+        std::vector<O> start_offsets;
 
         // Each thread will compute the degrees for each label on its own.
         // This is then used to reduce them all
@@ -158,6 +151,13 @@ namespace pigo {
             #else
             size_t tid = 0;
             #endif
+            #pragma omp single
+            {
+                #ifdef _OPENMP
+                num_threads = omp_get_num_threads();
+                #endif
+                start_offsets.resize(num_threads);
+            }
 
             L v_start = (tid*n_)/num_threads;
             L v_end = ((tid+1)*n_)/num_threads;
@@ -250,7 +250,6 @@ namespace pigo {
         }
 
         delete [] label_degs;
-        delete [] start_offsets;
         delete [] all_degs;
 
     }
@@ -279,7 +278,7 @@ namespace pigo {
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
     void CSR<L,O,LS,OS,wgt,W,WS>::read_graph_(FileReader &r) {
-        // Get the number of threads
+        // Get the number of threads, the file is split into as many parts
         size_t num_threads = 1;
         #ifdef _OPENMP
         omp_set_dynamic(0);
@@ -311,14 +310,8 @@ namespace pigo {
         std::vector<L> max_labels(num_threads);
         std::vector<char> have_zeros(num_threads, 0);
         std::vector<char> have_extras(num_threads, 0);
-        #pragma omp parallel
-        {
-            #ifdef _OPENMP
-            size_t tid = omp_get_thread_num();
-            #else
-            size_t tid = 0;
-            #endif
-
+        #pragma omp parallel for
+        for (size_t tid = 0; tid < num_threads; ++tid) {
             FileReader rs = detail::line_range_(r, tid, num_threads);
 
             // Perform the first pass and count
@@ -371,14 +364,8 @@ namespace pigo {
         detail::set_value_(offsets_, 0, 0);
         detail::set_value_(offsets_, nrows_, m_);
 
-        #pragma omp parallel
-        {
-            #ifdef _OPENMP
-            size_t tid = omp_get_thread_num();
-            #else
-            size_t tid = 0;
-            #endif
-
+        #pragma omp parallel for
+        for (size_t tid = 0; tid < num_threads; ++tid) {
             FileReader rs = detail::line_range_(r, tid, num_threads);
 
             // Pass 2: iterate through again, but now copy out the values
@@ -624,23 +611,14 @@ namespace pigo {
 
         // Set the offsets by doing a prefix sum on the degrees
 
-        // Get the number of threads
+        // The number of threads is set by the team doing the work
         size_t num_threads = 1;
         #ifdef _OPENMP
         omp_set_dynamic(0);
-        #pragma omp parallel shared(num_threads)
-        {
-            #pragma omp single
-            {
-                num_threads = omp_get_num_threads();
-            }
-        }
         #endif
 
         // Keep track of the starting offsets for each thread
-        std::shared_ptr<O> so_storage;
-        detail::allocate_mem_(so_storage, num_threads);
-        O* start_offsets = so_storage.get();
+        std::vector<O> start_offsets;
 
         #pragma omp parallel shared(start_offsets)
         {
@@ -649,6 +627,13 @@ namespace pigo {
             #else
             size_t tid = 0;
             #endif
+            #pragma omp single
+            {
+                #ifdef _OPENMP
+                num_threads = omp_get_num_threads();
+                #endif
+                start_offsets.resize(num_threads);
+            }
 
             L v_start = (tid*rows)/num_threads;
             L v_end = ((tid+1)*rows)/num_threads;
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index d601261..64a4a93 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -556,7 +556,7 @@ namespace pigo {
         // First, find the number of instances of c, second populate with the
         // offsets
 
-        // Get the number of threads
+        // Get the number of threads, the range is split into as many parts
         size_t num_threads = 1;
         #ifdef _OPENMP
         omp_set_dynamic(0);
@@ -570,14 +570,8 @@ namespace pigo {
         #endif
 
         std::vector<size_t> c_offsets(num_threads);
-        #pragma omp parallel
-        {
-            #ifdef _OPENMP
-            size_t tid = omp_get_thread_num();
-            #else
-            size_t tid = 0;
-            #endif
-
+        #pragma omp parallel for
+        for (size_t tid = 0; tid < num_threads; ++tid) {
             // Find our offsets in the file
             size_t tsize = size();
             size_t tid_start_i = (tid*tsize)/num_threads;
@@ -600,18 +594,13 @@ namespace pigo {
             }
 
             c_offsets[tid] = tid_c;
+        }
 
-            // Compute a prefix sum on the offsets
-            #pragma omp barrier
-            #pragma omp single
-            {
-                size_t sum_c = 0;
-                for (size_t tid = 0; tid < num_threads; ++tid) {
-                    sum_c += c_offsets[tid];
-                    c_offsets[tid] = sum_c;
-                }
-
-            }
+        // Compute a prefix sum on the offsets
+        size_t sum_c = 0;
+        for (size_t tid = 0; tid < num_threads; ++tid) {
+            sum_c += c_offsets[tid];
+            c_offsets[tid] = sum_c;
         }
 
         // Now, we can allocate the space appropriately
@@ -620,14 +609,8 @@ namespace pigo {
         auto& t_c = t.c();
 
         // Next, go back and populate everything
-        #pragma omp parallel
-        {
-            #ifdef _OPENMP
-            size_t tid = omp_get_thread_num();
-            #else
-            size_t tid = 0;
-            #endif
-
+        #pragma omp parallel for
+        for (size_t tid = 0; tid < num_threads; ++tid) {
             // Find our offsets in the file
             size_t tsize = size();
             size_t tid_start_i = (tid*tsize)/num_threads;
diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index f60d6e3..504a54e 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -96,17 +96,10 @@ namespace pigo {
 
     template<class L, class O, class S, class W, class WS, bool wgt>
     void Tensor<L,O,S,W,WS,wgt>::read_el_(FileReader& r) {
-        // Get the number of threads
+        // The number of threads is set by the team doing the work
         size_t num_threads = 1;
         #ifdef _OPENMP
         omp_set_dynamic(0);
-        #pragma omp parallel shared(num_threads)
-        {
-            #pragma omp single
-            {
-                num_threads = omp_get_num_threads();
-            }
-        }
         #endif
 
         // Find the order by reading the first line
@@ -121,7 +114,7 @@ namespace pigo {
         // allocate storage
         // second, copy over the values appropriately
 
-        std::vector<size_t> nl_offsets(num_threads);
+        std::vector<size_t> nl_offsets;
 
         #pragma omp parallel
         {
@@ -130,6 +123,13 @@ namespace pigo {
             #else
             size_t tid = 0;
             #endif
+            #pragma omp single
+            {
+                #ifdef _OPENMP
+                num_threads = omp_get_num_threads();
+                #endif
+                nl_offsets.resize(num_threads);
+            }
 
             // Find our offsets in the file
             size_t size = r.size();
@@ -291,20 +291,13 @@ namespace pigo {
         // After the first pass, the output file is allocated
         // Second, each thread actually writes
 
-        // Get the number of threads
+        // The number of threads is set by the team doing the work
         size_t num_threads = 1;
         #ifdef _OPENMP
         omp_set_dynamic(0);
-        #pragma omp parallel shared(num_threads)
-        {
-            #pragma omp single
-            {
-                num_threads = omp_get_num_threads();
-            }
-        }
         #endif
 
-        std::vector<size_t> pos_offsets(num_threads+1);
+        std::vector<size_t> pos_offsets;
         std::shared_ptr<File> f;
         // Exceptions can not leave the parallel region
         std::exception_ptr f_error;
@@ -315,6 +308,13 @@ namespace pigo {
             #else
             size_t tid = 0;
             #endif
+            #pragma omp single
+            {
+                #ifdef _OPENMP
+                num_threads = omp_get_num_threads();
+                #endif
+                pos_offsets.resize(num_threads+1);
+            }
             size_t my_size = 0;
 
             #pragma omp for
@@ -383,20 +383,13 @@ namespace pigo {
 
     template<class L, class O, class S, class W, class WS, bool wgt>
     std::vector<L> Tensor<L,O,S,W,WS,wgt>::max_labels() const {
-        // Get the number of threads
+        // The number of threads is set by the team doing the work
         size_t num_threads = 1;
         #ifdef _OPENMP
         omp_set_dynamic(0);
-        #pragma omp parallel shared(num_threads)
-        {
-            #pragma omp single
-            {
-                num_threads = omp_get_num_threads();
-            }
-        }
         #endif
 
-        std::vector<L*> maxes(num_threads);
+        std::vector<L*> maxes;
         #pragma omp parallel
         {
             #ifdef _OPENMP
@@ -404,6 +397,13 @@ namespace pigo {
             #else
             size_t tid = 0;
             #endif
+            #pragma omp single
+            {
+                #ifdef _OPENMP
+                num_threads = omp_get_num_threads();
+                #endif
+                maxes.resize(num_threads);
+            }
             L* my_maxes = new L[order_];
             for (O idx = 0; idx < order_; ++idx) my_maxes[idx] = 0;
 
diff --git a/release/pigo.hpp b/release/pigo.hpp
index a4d660c..0d3eb06 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -3567,7 +3567,7 @@ namespace pigo {
         // First, find the number of instances of c, second populate with the
         // offsets
 
-        // Get the number of threads
+        // Get the number of threads, the range is split into as many parts
         size_t num_threads = 1;
         #ifdef _OPENMP
         omp_set_dynamic(0);
@@ -3581,14 +3581,8 @@ namespace pigo {
         #endif
 
         std::vector<size_t> c_offsets(num_threads);
-        #pragma omp parallel
-        {
-            #ifdef _OPENMP
-            size_t tid = omp_get_thread_num();
-            #else
-            size_t tid = 0;
-            #endif
-
+        #pragma omp parallel for
+        for (size_t tid = 0; tid < num_threads; ++tid) {
             // Find our offsets in the file
             size_t tsize = size();
             size_t tid_start_i = (tid*tsize)/num_threads;
@@ -3611,18 +3605,13 @@ namespace pigo {
             }
 
             c_offsets[tid] = tid_c;
+        }
 
-            // Compute a prefix sum on the offsets
-            #pragma omp barrier
-            #pragma omp single
-            {
-                size_t sum_c = 0;
-                for (size_t tid = 0; tid < num_threads; ++tid) {
-                    sum_c += c_offsets[tid];
-                    c_offsets[tid] = sum_c;
-                }
-
-            }
+        // Compute a prefix sum on the offsets
+        size_t sum_c = 0;
+        for (size_t tid = 0; tid < num_threads; ++tid) {
+            sum_c += c_offsets[tid];
+            c_offsets[tid] = sum_c;
         }
 
         // Now, we can allocate the space appropriately
@@ -3631,14 +3620,8 @@ namespace pigo {
         auto& t_c = t.c();
 
         // Next, go back and populate everything
-        #pragma omp parallel
-        {
-            #ifdef _OPENMP
-            size_t tid = omp_get_thread_num();
-            #else
-            size_t tid = 0;
-            #endif
-
+        #pragma omp parallel for
+        for (size_t tid = 0; tid < num_threads; ++tid) {
             // Find our offsets in the file
             size_t tsize = size();
             size_t tid_start_i = (tid*tsize)/num_threads;
@@ -4138,17 +4121,10 @@ namespace pigo {
 
     template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
     size_t COO<L,O,S,sym,ut,sl,wgt,W,WS>::read_el_(FileReader& r) {
-        // Get the number of threads
+        // The number of threads is set by the team doing the work
         size_t num_threads = 1;
         #ifdef _OPENMP
         omp_set_dynamic(0);
-        #pragma omp parallel shared(num_threads)
-        {
-            #pragma omp single
-            {
-                num_threads = omp_get_num_threads();
-            }
-        }
         #endif
 
         // This takes two passes:
@@ -4156,7 +4132,7 @@ namespace pigo {
         // allocate storage
         // second, copy over the values appropriately
 
-        std::vector<size_t> nl_offsets(num_threads);
+        std::vector<size_t> nl_offsets;
 
         L max_row = 0;
         L max_col = 0;
@@ -4170,6 +4146,13 @@ namespace pigo {
             #else
             size_t tid = 0;
             #endif
+            #pragma omp single
+            {
+                #ifdef _OPENMP
+                num_threads = omp_get_num_threads();
+                #endif
+                nl_offsets.resize(num_threads);
+            }
 
             // Find our offsets in the file
             size_t size = r.size();
@@ -4340,20 +4323,13 @@ namespace pigo {
         // After the first pass, the output file is allocated
         // Second, each thread actually writes
 
-        // Get the number of threads
+        // The number of threads is set by the team doing the work
         size_t num_threads = 1;
         #ifdef _OPENMP
         omp_set_dynamic(0);
-        #pragma omp parallel shared(num_threads)
-        {
-            #pragma omp single
-            {
-                num_threads = omp_get_num_threads();
-            }
-        }
         #endif
 
-        std::vector<size_t> pos_offsets(num_threads+1);
+        std::vector<size_t> pos_offsets;
         std::shared_ptr<File> f;
         // Exceptions can not leave the parallel region
         std::exception_ptr f_error;
@@ -4364,6 +4340,13 @@ namespace pigo {
             #else
             size_t tid = 0;
             #endif
+            #pragma omp single
+            {
+                #ifdef _OPENMP
+                num_threads = omp_get_num_threads();
+                #endif
+                pos_offsets.resize(num_threads+1);
+            }
             size_t my_size = 0;
 
             #pragma omp for
@@ -4549,17 +4532,10 @@ namespace pigo {
         // Next, we go through the degrees and change them to offsets
         // Finally, we need to go through the COO and copy memory
 
-        // Get the number of threads
+        // The number of threads is set by the team doing the work
         size_t num_threads = 1;
         #ifdef _OPENMP
         omp_set_dynamic(0);
-        #pragma omp parallel shared(num_threads)
-        {
-            #pragma omp single
-            {
-                num_threads = omp_get_num_threads();
-            }
-        }
         #endif
 
         // Temporarily keep track of the degree for each label (this can
@@ -4567,7 +4543,7 @@ namespace pigo {
         O* label_degs = new O[n_];
 
         // Keep track of the starting offsets for each thread
-        O* start_offsets = new O[num_threads];
+        std::vector<O> start_offsets;
 
         // Each thread will compute the degrees for each label on its own.
         // This is then used to reduce them all
@@ -4579,6 +4555,13 @@ namespace pigo {
             #else
             size_t tid = 0;
             #endif
+            #pragma omp single
+            {
+                #ifdef _OPENMP
+                num_threads = omp_get_num_threads();
+                #endif
+                start_offsets.resize(num_threads);
+            }
 
             L v_start = (tid*n_)/num_threads;
             L v_end = ((tid+1)*n_)/num_threads;
@@ -4671,7 +4654,6 @@ namespace pigo {
         }
 
         delete [] label_degs;
-        delete [] start_offsets;
         delete [] all_degs;
 
     }
@@ -4700,7 +4682,7 @@ namespace pigo {
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
     void CSR<L,O,LS,OS,wgt,W,WS>::read_graph_(FileReader &r) {
-        // Get the number of threads
+        // Get the number of threads, the file is split into as many parts
         size_t num_threads = 1;
         #ifdef _OPENMP
         omp_set_dynamic(0);
@@ -4732,14 +4714,8 @@ namespace pigo {
         std::vector<L> max_labels(num_threads);
         std::vector<char> have_zeros(num_threads, 0);
         std::vector<char> have_extras(num_threads, 0);
-        #pragma omp parallel
-        {
-            #ifdef _OPENMP
-            size_t tid = omp_get_thread_num();
-            #else
-            size_t tid = 0;
-            #endif
-
+        #pragma omp parallel for
+        for (size_t tid = 0; tid < num_threads; ++tid) {
             FileReader rs = detail::line_range_(r, tid, num_threads);
 
             // Perform the first pass and count
@@ -4792,14 +4768,8 @@ namespace pigo {
         detail::set_value_(offsets_, 0, 0);
         detail::set_value_(offsets_, nrows_, m_);
 
-        #pragma omp parallel
-        {
-            #ifdef _OPENMP
-            size_t tid = omp_get_thread_num();
-            #else
-            size_t tid = 0;
-            #endif
-
+        #pragma omp parallel for
+        for (size_t tid = 0; tid < num_threads; ++tid) {
             FileReader rs = detail::line_range_(r, tid, num_threads);
 
             // Pass 2: iterate through again, but now copy out the values
@@ -5045,23 +5015,14 @@ namespace pigo {
 
         // Set the offsets by doing a prefix sum on the degrees
 
-        // Get the number of threads
+        // The number of threads is set by the team doing the work
         size_t num_threads = 1;
         #ifdef _OPENMP
         omp_set_dynamic(0);
-        #pragma omp parallel shared(num_threads)
-        {
-            #pragma omp single
-            {
-                num_threads = omp_get_num_threads();
-            }
-        }
         #endif
 
         // Keep track of the starting offsets for each thread
-        std::shared_ptr<O> so_storage;
-        detail::allocate_mem_(so_storage, num_threads);
-        O* start_offsets = so_storage.get();
+        std::vector<O> start_offsets;
 
         #pragma omp parallel shared(start_offsets)
         {
@@ -5070,6 +5031,13 @@ namespace pigo {
             #else
             size_t tid = 0;
             #endif
+            #pragma omp single
+            {
+                #ifdef _OPENMP
+                num_threads = omp_get_num_threads();
+                #endif
+                start_offsets.resize(num_threads);
+            }
 
             L v_start = (tid*rows)/num_threads;
             L v_end = ((tid+1)*rows)/num_threads;
@@ -5319,17 +5287,10 @@ namespace pigo {
 
     template<class L, class O, class S, class W, class WS, bool wgt>
     void Tensor<L,O,S,W,WS,wgt>::read_el_(FileReader& r) {
-        // Get the number of threads
+        // The number of threads is set by the team doing the work
         size_t num_threads = 1;
         #ifdef _OPENMP
         omp_set_dynamic(0);
-        #pragma omp parallel shared(num_threads)
-        {
-            #pragma omp single
-            {
-                num_threads = omp_get_num_threads();
-            }
-        }
         #endif
 
         // Find the order by reading the first line
@@ -5344,7 +5305,7 @@ namespace pigo {
         // allocate storage
         // second, copy over the values appropriately
 
-        std::vector<size_t> nl_offsets(num_threads);
+        std::vector<size_t> nl_offsets;
 
         #pragma omp parallel
         {
@@ -5353,6 +5314,13 @@ namespace pigo {
             #else
             size_t tid = 0;
             #endif
+            #pragma omp single
+            {
+                #ifdef _OPENMP
+                num_threads = omp_get_num_threads();
+                #endif
+                nl_offsets.resize(num_threads);
+            }
 
             // Find our offsets in the file
             size_t size = r.size();
@@ -5514,20 +5482,13 @@ namespace pigo {
         // After the first pass, the output file is allocated
         // Second, each thread actually writes
 
-        // Get the number of threads
+        // The number of threads is set by the team doing the work
         size_t num_threads = 1;
         #ifdef _OPENMP
         omp_set_dynamic(0);
-        #pragma omp parallel shared(num_threads)
-        {
-            #pragma omp single
-            {
-                num_threads = omp_get_num_threads();
-            }
-        }
         #endif
 
-        std::vector<size_t> pos_offsets(num_threads+1);
+        std::vector<size_t> pos_offsets;
         std::shared_ptr<File> f;
         // Exceptions can not leave the parallel region
         std::exception_ptr f_error;
@@ -5538,6 +5499,13 @@ namespace pigo {
             #else
             size_t tid = 0;
             #endif
+            #pragma omp single
+            {
+                #ifdef _OPENMP
+                num_threads = omp_get_num_threads();
+                #endif
+                pos_offsets.resize(num_threads+1);
+            }
             size_t my_size = 0;
 
             #pragma omp for
@@ -5606,20 +5574,13 @@ namespace pigo {
 
     template<class L, class O, class S, class W, class WS, bool wgt>
     std::vector<L> Tensor<L,O,S,W,WS,wgt>::max_labels() const {
-        // Get the number of threads
+        // The number of threads is set by the team doing the work
         size_t num_threads = 1;
         #ifdef _OPENMP
         omp_set_dynamic(0);
-        #pragma omp parallel shared(num_threads)
-        {
-            #pragma omp single
-            {
-                num_threads = omp_get_num_threads();
-            }
-        }
         #endif
 
-        std::vector<L*> maxes(num_threads);
+        std::vector<L*> maxes;
         #pragma omp parallel
         {
             #ifdef _OPENMP
@@ -5627,6 +5588,13 @@ namespace pigo {
             #else
             size_t tid = 0;
             #endif
+            #pragma omp single
+            {
+                #ifdef _OPENMP
+                num_threads = omp_get_num_threads();
+                #endif
+                maxes.resize(num_threads);
+            }
             L* my_maxes = new L[order_];
             for (O idx = 0; idx < order_; ++idx) my_maxes[idx] = 0;
 
-- 
2.43.0


From 93d915259e0aae1f2e0667b50d3f8a8a88b5c7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:37 +0000
Subject: [PATCH 24/34] fix: report the rows and columns of graphs and matrices
 in the label type

They were returned in the ordinal type, which need not hold them.
---
 include/pigo/graph.hpp  |  6 +++---
 include/pigo/matrix.hpp |  4 ++--
 release/pigo.hpp        | 10 +++++-----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/pigo/graph.hpp b/include/pigo/graph.hpp
index afc9be3..8131862 100644
--- a/include/pigo/graph.hpp
+++ b/include/pigo/graph.hpp
@@ -296,13 +296,13 @@ namespace pigo {
             edge_ctr_t m() { return out_.m(); }
 
             /** @brief Return the number of vertices */
-            edge_ctr_t n() { return out_.n(); }
+            vertex_t n() { return out_.n(); }
 
             /** @brief Return the number of rows */
-            edge_ctr_t nrows() { return out_.nrows(); }
+            vertex_t nrows() { return out_.nrows(); }
 
             /** @brief Return the number of columns */
-            edge_ctr_t ncols() { return out_.ncols(); }
+            vertex_t ncols() { return out_.ncols(); }
 
             /** @brief Return the out-edges */
             BaseGraph<
diff --git a/include/pigo/matrix.hpp b/include/pigo/matrix.hpp
index 3a3d057..674915b 100644
--- a/include/pigo/matrix.hpp
+++ b/include/pigo/matrix.hpp
@@ -202,10 +202,10 @@ namespace pigo {
             }
 
             /** @brief Return the number of rows */
-            Ordinal nrows() { return csr_.nrows(); }
+            Label nrows() { return csr_.nrows(); }
 
             /** @brief Return the number of columns */
-            Ordinal ncols() { return csr_.ncols(); }
+            Label ncols() { return csr_.ncols(); }
 
             /** @brief Return the CSR */
             CSR<
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 0d3eb06..33167d1 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -1803,10 +1803,10 @@ namespace pigo {
             }
 
             /** @brief Return the number of rows */
-            Ordinal nrows() { return csr_.nrows(); }
+            Label nrows() { return csr_.nrows(); }
 
             /** @brief Return the number of columns */
-            Ordinal ncols() { return csr_.ncols(); }
+            Label ncols() { return csr_.ncols(); }
 
             /** @brief Return the CSR */
             CSR<
@@ -2116,13 +2116,13 @@ namespace pigo {
             edge_ctr_t m() { return out_.m(); }
 
             /** @brief Return the number of vertices */
-            edge_ctr_t n() { return out_.n(); }
+            vertex_t n() { return out_.n(); }
 
             /** @brief Return the number of rows */
-            edge_ctr_t nrows() { return out_.nrows(); }
+            vertex_t nrows() { return out_.nrows(); }
 
             /** @brief Return the number of columns */
-            edge_ctr_t ncols() { return out_.ncols(); }
+            vertex_t ncols() { return out_.ncols(); }
 
             /** @brief Return the out-edges */
             BaseGraph<
-- 
2.43.0


From 2c695d57151cd910af4a744bbd4bbf22b5cb10ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:50 +0000
Subject: [PATCH 25/34] fix: put the application's OpenMP dynamic setting back

---
 include/pigo/impl/coo.impl.hpp    |  4 ++--
 include/pigo/impl/csr.impl.hpp    |  6 +++---
 include/pigo/impl/pigo.impl.hpp   | 18 +++++++++++++++-
 include/pigo/impl/tensor.impl.hpp |  6 +++---
 release/pigo.hpp                  | 34 +++++++++++++++++++++++--------
 5 files changed, 50 insertions(+), 18 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 8aa0d4b..4c37aae 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -410,7 +410,7 @@ namespace pigo {
         // The number of threads is set by the team doing the work
         size_t num_threads = 1;
         #ifdef _OPENMP
-        omp_set_dynamic(0);
+        detail::FixedTeam_ fixed_team;
         #endif
 
         // This takes two passes:
@@ -612,7 +612,7 @@ namespace pigo {
         // The number of threads is set by the team doing the work
         size_t num_threads = 1;
         #ifdef _OPENMP
-        omp_set_dynamic(0);
+        detail::FixedTeam_ fixed_team;
         #endif
 
         std::vector<size_t> pos_offsets;
diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 79fe720..e1a9010 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -131,7 +131,7 @@ namespace pigo {
         // The number of threads is set by the team doing the work
         size_t num_threads = 1;
         #ifdef _OPENMP
-        omp_set_dynamic(0);
+        detail::FixedTeam_ fixed_team;
         #endif
 
         // Temporarily keep track of the degree for each label (this can
@@ -281,7 +281,7 @@ namespace pigo {
         // Get the number of threads, the file is split into as many parts
         size_t num_threads = 1;
         #ifdef _OPENMP
-        omp_set_dynamic(0);
+        detail::FixedTeam_ fixed_team;
         #pragma omp parallel shared(num_threads)
         {
             #pragma omp single
@@ -614,7 +614,7 @@ namespace pigo {
         // The number of threads is set by the team doing the work
         size_t num_threads = 1;
         #ifdef _OPENMP
-        omp_set_dynamic(0);
+        detail::FixedTeam_ fixed_team;
         #endif
 
         // Keep track of the starting offsets for each thread
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 64a4a93..c0bcc7b 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -127,6 +127,22 @@ namespace pigo {
     }
 
     namespace detail {
+        #ifdef _OPENMP
+        /** @brief Keep teams at the requested size while in scope
+         *
+         * The setting of the application is put back afterwards.
+         */
+        class FixedTeam_ {
+            private:
+                int dynamic_;
+            public:
+                FixedTeam_() : dynamic_(omp_get_dynamic()) { omp_set_dynamic(0); }
+                FixedTeam_(const FixedTeam_&) = delete;
+                FixedTeam_& operator=(const FixedTeam_&) = delete;
+                ~FixedTeam_() { omp_set_dynamic(dynamic_); }
+        };
+        #endif
+
         /** @brief Return the number of bytes a written object uses */
         template<class T>
         inline
@@ -559,7 +575,7 @@ namespace pigo {
         // Get the number of threads, the range is split into as many parts
         size_t num_threads = 1;
         #ifdef _OPENMP
-        omp_set_dynamic(0);
+        detail::FixedTeam_ fixed_team;
         #pragma omp parallel shared(num_threads)
         {
             #pragma omp single
diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 504a54e..11bf775 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -99,7 +99,7 @@ namespace pigo {
         // The number of threads is set by the team doing the work
         size_t num_threads = 1;
         #ifdef _OPENMP
-        omp_set_dynamic(0);
+        detail::FixedTeam_ fixed_team;
         #endif
 
         // Find the order by reading the first line
@@ -294,7 +294,7 @@ namespace pigo {
         // The number of threads is set by the team doing the work
         size_t num_threads = 1;
         #ifdef _OPENMP
-        omp_set_dynamic(0);
+        detail::FixedTeam_ fixed_team;
         #endif
 
         std::vector<size_t> pos_offsets;
@@ -386,7 +386,7 @@ namespace pigo {
         // The number of threads is set by the team doing the work
         size_t num_threads = 1;
         #ifdef _OPENMP
-        omp_set_dynamic(0);
+        detail::FixedTeam_ fixed_team;
         #endif
 
         std::vector<L*> maxes;
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 33167d1..9395d43 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -3138,6 +3138,22 @@ namespace pigo {
     }
 
     namespace detail {
+        #ifdef _OPENMP
+        /** @brief Keep teams at the requested size while in scope
+         *
+         * The setting of the application is put back afterwards.
+         */
+        class FixedTeam_ {
+            private:
+                int dynamic_;
+            public:
+                FixedTeam_() : dynamic_(omp_get_dynamic()) { omp_set_dynamic(0); }
+                FixedTeam_(const FixedTeam_&) = delete;
+                FixedTeam_& operator=(const FixedTeam_&) = delete;
+                ~FixedTeam_() { omp_set_dynamic(dynamic_); }
+        };
+        #endif
+
         /** @brief Return the number of bytes a written object uses */
         template<class T>
         inline
@@ -3570,7 +3586,7 @@ namespace pigo {
         // Get the number of threads, the range is split into as many parts
         size_t num_threads = 1;
         #ifdef _OPENMP
-        omp_set_dynamic(0);
+        detail::FixedTeam_ fixed_team;
         #pragma omp parallel shared(num_threads)
         {
             #pragma omp single
@@ -4124,7 +4140,7 @@ namespace pigo {
         // The number of threads is set by the team doing the work
         size_t num_threads = 1;
         #ifdef _OPENMP
-        omp_set_dynamic(0);
+        detail::FixedTeam_ fixed_team;
         #endif
 
         // This takes two passes:
@@ -4326,7 +4342,7 @@ namespace pigo {
         // The number of threads is set by the team doing the work
         size_t num_threads = 1;
         #ifdef _OPENMP
-        omp_set_dynamic(0);
+        detail::FixedTeam_ fixed_team;
         #endif
 
         std::vector<size_t> pos_offsets;
@@ -4535,7 +4551,7 @@ namespace pigo {
         // The number of threads is set by the team doing the work
         size_t num_threads = 1;
         #ifdef _OPENMP
-        omp_set_dynamic(0);
+        detail::FixedTeam_ fixed_team;
         #endif
 
         // Temporarily keep track of the degree for each label (this can
@@ -4685,7 +4701,7 @@ namespace pigo {
         // Get the number of threads, the file is split into as many parts
         size_t num_threads = 1;
         #ifdef _OPENMP
-        omp_set_dynamic(0);
+        detail::FixedTeam_ fixed_team;
         #pragma omp parallel shared(num_threads)
         {
             #pragma omp single
@@ -5018,7 +5034,7 @@ namespace pigo {
         // The number of threads is set by the team doing the work
         size_t num_threads = 1;
         #ifdef _OPENMP
-        omp_set_dynamic(0);
+        detail::FixedTeam_ fixed_team;
         #endif
 
         // Keep track of the starting offsets for each thread
@@ -5290,7 +5306,7 @@ namespace pigo {
         // The number of threads is set by the team doing the work
         size_t num_threads = 1;
         #ifdef _OPENMP
-        omp_set_dynamic(0);
+        detail::FixedTeam_ fixed_team;
         #endif
 
         // Find the order by reading the first line
@@ -5485,7 +5501,7 @@ namespace pigo {
         // The number of threads is set by the team doing the work
         size_t num_threads = 1;
         #ifdef _OPENMP
-        omp_set_dynamic(0);
+        detail::FixedTeam_ fixed_team;
         #endif
 
         std::vector<size_t> pos_offsets;
@@ -5577,7 +5593,7 @@ namespace pigo {
         // The number of threads is set by the team doing the work
         size_t num_threads = 1;
         #ifdef _OPENMP
-        omp_set_dynamic(0);
+        detail::FixedTeam_ fixed_team;
         #endif
 
         std::vector<L*> maxes;
-- 
2.43.0


From 1df56c0cd8db143e044d8f99007f53bcc0c5a0f1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:32:38 +0000
Subject: [PATCH 26/34] fix: let exceptions of failing allocations reach the
 caller

Reading edge lists and tensors and sorting weighted objects allocate within
a parallel region, which an exception can not leave: without enough memory
the process was terminated.
---
 include/pigo/impl/coo.impl.hpp    | 13 +++++++++--
 include/pigo/impl/csr.impl.hpp    | 13 ++++++++++-
 include/pigo/impl/tensor.impl.hpp | 13 +++++++++--
 release/pigo.hpp                  | 38 +++++++++++++++++++++++++++----
 4 files changed, 67 insertions(+), 10 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 4c37aae..303a758 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -424,6 +424,8 @@ namespace pigo {
         L max_col = 0;
         // The number of entries in the file, including any not kept
         size_t num_read = 0;
+        // Exceptions can not leave the parallel region
+        std::exception_ptr alloc_error;
         #pragma omp parallel reduction(max : max_row) \
                 reduction(max : max_col) reduction(+ : num_read)
         {
@@ -485,7 +487,11 @@ namespace pigo {
 
                 // Now, allocate the space appropriately
                 m_ = nl_offsets[num_threads-1];
-                allocate_();
+                try {
+                    allocate_();
+                } catch (...) {
+                    alloc_error = std::current_exception();
+                }
             }
             #pragma omp barrier
 
@@ -496,11 +502,14 @@ namespace pigo {
             if (tid > 0)
                 coord_pos = nl_offsets[tid-1];
 
-            while (rs_p2.good()) {
+            // Without the space there is nothing to copy to
+            while (!alloc_error && rs_p2.good()) {
                 read_coord_entry_<false>(coord_pos, rs_p2, max_row, max_col);
             }
         }
 
+        if (alloc_error) std::rethrow_exception(alloc_error);
+
         // Set the number of labels in the matrix represented by the COO
         nrows_ = max_row + 1;
         ncols_ = max_col + 1;
diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index e1a9010..a5bef43 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -5,6 +5,7 @@
 
 #include <algorithm>
 #include <atomic>
+#include <exception>
 #include <vector>
 #include <string>
 #ifdef _OPENMP
@@ -525,6 +526,8 @@ namespace pigo {
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
     void CSR<L,O,LS,OS,wgt,W,WS>::sort() {
         L rows = offset_rows_();
+        // Exceptions can not leave the parallel region
+        std::exception_ptr alloc_error;
         #pragma omp parallel for schedule(dynamic, 10240)
         for (L v = 0; v < rows; ++v) {
             // Get the start and end range
@@ -537,7 +540,13 @@ namespace pigo {
                 // everything. For now, make a joint array, sort that, and
                 // then pull out the resulting data
                 std::vector<std::pair<L, W>> vec;
-                vec.reserve(end-start);
+                try {
+                    vec.reserve(end-start);
+                } catch (...) {
+                    #pragma omp critical
+                    alloc_error = std::current_exception();
+                    continue;
+                }
                 for (O cur = start; cur < end; ++cur) {
                     L l = detail::get_value_<LS, L>(endpoints_, cur);
                     W w = detail::get_value_<WS, W>(weights_, cur);
@@ -562,6 +571,8 @@ namespace pigo {
                 std::sort(range_start, range_end);
             }
         }
+
+        if (alloc_error) std::rethrow_exception(alloc_error);
     }
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 11bf775..1c8389b 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -116,6 +116,8 @@ namespace pigo {
 
         std::vector<size_t> nl_offsets;
 
+        // Exceptions can not leave the parallel region
+        std::exception_ptr alloc_error;
         #pragma omp parallel
         {
             #ifdef _OPENMP
@@ -174,7 +176,11 @@ namespace pigo {
 
                 // Now, allocate the space appropriately
                 m_ = nl_offsets[num_threads-1];
-                allocate_();
+                try {
+                    allocate_();
+                } catch (...) {
+                    alloc_error = std::current_exception();
+                }
             }
             #pragma omp barrier
 
@@ -185,10 +191,13 @@ namespace pigo {
             if (tid > 0)
                 coord_pos = nl_offsets[tid-1];
 
-            while (rs_p2.good()) {
+            // Without the space there is nothing to copy to
+            while (!alloc_error && rs_p2.good()) {
                 read_coord_entry_<false>(coord_pos, rs_p2);
             }
         }
+
+        if (alloc_error) std::rethrow_exception(alloc_error);
     }
 
     template<class L, class O, class S, class W, class WS, bool wgt>
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 9395d43..18674cb 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -4154,6 +4154,8 @@ namespace pigo {
         L max_col = 0;
         // The number of entries in the file, including any not kept
         size_t num_read = 0;
+        // Exceptions can not leave the parallel region
+        std::exception_ptr alloc_error;
         #pragma omp parallel reduction(max : max_row) \
                 reduction(max : max_col) reduction(+ : num_read)
         {
@@ -4215,7 +4217,11 @@ namespace pigo {
 
                 // Now, allocate the space appropriately
                 m_ = nl_offsets[num_threads-1];
-                allocate_();
+                try {
+                    allocate_();
+                } catch (...) {
+                    alloc_error = std::current_exception();
+                }
             }
             #pragma omp barrier
 
@@ -4226,11 +4232,14 @@ namespace pigo {
             if (tid > 0)
                 coord_pos = nl_offsets[tid-1];
 
-            while (rs_p2.good()) {
+            // Without the space there is nothing to copy to
+            while (!alloc_error && rs_p2.good()) {
                 read_coord_entry_<false>(coord_pos, rs_p2, max_row, max_col);
             }
         }
 
+        if (alloc_error) std::rethrow_exception(alloc_error);
+
         // Set the number of labels in the matrix represented by the COO
         nrows_ = max_row + 1;
         ncols_ = max_col + 1;
@@ -4945,6 +4954,8 @@ namespace pigo {
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
     void CSR<L,O,LS,OS,wgt,W,WS>::sort() {
         L rows = offset_rows_();
+        // Exceptions can not leave the parallel region
+        std::exception_ptr alloc_error;
         #pragma omp parallel for schedule(dynamic, 10240)
         for (L v = 0; v < rows; ++v) {
             // Get the start and end range
@@ -4957,7 +4968,13 @@ namespace pigo {
                 // everything. For now, make a joint array, sort that, and
                 // then pull out the resulting data
                 std::vector<std::pair<L, W>> vec;
-                vec.reserve(end-start);
+                try {
+                    vec.reserve(end-start);
+                } catch (...) {
+                    #pragma omp critical
+                    alloc_error = std::current_exception();
+                    continue;
+                }
                 for (O cur = start; cur < end; ++cur) {
                     L l = detail::get_value_<LS, L>(endpoints_, cur);
                     W w = detail::get_value_<WS, W>(weights_, cur);
@@ -4982,6 +4999,8 @@ namespace pigo {
                 std::sort(range_start, range_end);
             }
         }
+
+        if (alloc_error) std::rethrow_exception(alloc_error);
     }
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
@@ -5323,6 +5342,8 @@ namespace pigo {
 
         std::vector<size_t> nl_offsets;
 
+        // Exceptions can not leave the parallel region
+        std::exception_ptr alloc_error;
         #pragma omp parallel
         {
             #ifdef _OPENMP
@@ -5381,7 +5402,11 @@ namespace pigo {
 
                 // Now, allocate the space appropriately
                 m_ = nl_offsets[num_threads-1];
-                allocate_();
+                try {
+                    allocate_();
+                } catch (...) {
+                    alloc_error = std::current_exception();
+                }
             }
             #pragma omp barrier
 
@@ -5392,10 +5417,13 @@ namespace pigo {
             if (tid > 0)
                 coord_pos = nl_offsets[tid-1];
 
-            while (rs_p2.good()) {
+            // Without the space there is nothing to copy to
+            while (!alloc_error && rs_p2.good()) {
                 read_coord_entry_<false>(coord_pos, rs_p2);
             }
         }
+
+        if (alloc_error) std::rethrow_exception(alloc_error);
     }
 
     template<class L, class O, class S, class W, class WS, bool wgt>
-- 
2.43.0


From 2f9d616b11cb63caad2d3ce15435503631b2df04 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:32:39 +0000
Subject: [PATCH 27/34] fix: leave an empty object when its memory can not be
 allocated

Assigning over an object without enough memory left it with the entry count
of the source and no, or only some, of the storage.
---
 include/pigo/impl/coo.impl.hpp    | 12 +++++++++---
 include/pigo/impl/tensor.impl.hpp | 10 ++++++++--
 release/pigo.hpp                  | 22 +++++++++++++++++-----
 3 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 303a758..5f086a6 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -159,9 +159,15 @@ namespace pigo {
 
     template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
     void COO<L,O,S,sym,ut,sl,wgt,W,WS>::allocate_() {
-        detail::allocate_mem_<S>(x_, m_);
-        detail::allocate_mem_<S>(y_, m_);
-        detail::allocate_mem_<WS,wgt>(w_, m_);
+        try {
+            detail::allocate_mem_<S>(x_, m_);
+            detail::allocate_mem_<S>(y_, m_);
+            detail::allocate_mem_<WS,wgt>(w_, m_);
+        } catch (...) {
+            // Leave an empty object instead of a partial one
+            free();
+            throw;
+        }
     }
 
     namespace detail {
diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 1c8389b..0533a4e 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -50,8 +50,14 @@ namespace pigo {
 
     template<class L, class O, class S, class W, class WS, bool wgt>
     void Tensor<L,O,S,W,WS,wgt>::allocate_() {
-        detail::allocate_mem_<S>(c_, (size_t)order_*m_);
-        detail::allocate_mem_<WS,wgt>(w_, m_);
+        try {
+            detail::allocate_mem_<S>(c_, (size_t)order_*m_);
+            detail::allocate_mem_<WS,wgt>(w_, m_);
+        } catch (...) {
+            // Leave an empty object instead of a partial one
+            free();
+            throw;
+        }
     }
 
     namespace detail {
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 18674cb..0611d8a 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -3889,9 +3889,15 @@ namespace pigo {
 
     template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
     void COO<L,O,S,sym,ut,sl,wgt,W,WS>::allocate_() {
-        detail::allocate_mem_<S>(x_, m_);
-        detail::allocate_mem_<S>(y_, m_);
-        detail::allocate_mem_<WS,wgt>(w_, m_);
+        try {
+            detail::allocate_mem_<S>(x_, m_);
+            detail::allocate_mem_<S>(y_, m_);
+            detail::allocate_mem_<WS,wgt>(w_, m_);
+        } catch (...) {
+            // Leave an empty object instead of a partial one
+            free();
+            throw;
+        }
     }
 
     namespace detail {
@@ -5276,8 +5282,14 @@ namespace pigo {
 
     template<class L, class O, class S, class W, class WS, bool wgt>
     void Tensor<L,O,S,W,WS,wgt>::allocate_() {
-        detail::allocate_mem_<S>(c_, (size_t)order_*m_);
-        detail::allocate_mem_<WS,wgt>(w_, m_);
+        try {
+            detail::allocate_mem_<S>(c_, (size_t)order_*m_);
+            detail::allocate_mem_<WS,wgt>(w_, m_);
+        } catch (...) {
+            // Leave an empty object instead of a partial one
+            free();
+            throw;
+        }
     }
 
     namespace detail {
-- 
2.43.0


From 6a4c10f136a3878d578975dcff2ead4d734831e2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:36:52 +0000
Subject: [PATCH 28/34] fix: do not copy the coordinates in every thread when
 converting

With vector storage each thread made its own copies of all coordinates and
weights, within a parallel region that a failing allocation can not leave.
---
 include/pigo/impl/csr.impl.hpp | 6 +++---
 release/pigo.hpp               | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index a5bef43..13bb9f3 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -168,9 +168,9 @@ namespace pigo {
             for (L v = 0; v < n_; ++v)
                 all_degs[v] = 0;
 
-            auto coo_x = coo.x();
-            auto coo_y = coo.y();
-            auto coo_w = coo.w();
+            auto& coo_x = coo.x();
+            auto& coo_y = coo.y();
+            auto& coo_w = coo.w();
 
             #pragma omp for
             for (O x_id = 0; x_id < m_; ++x_id) {
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 0611d8a..cd5b1f8 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -4602,9 +4602,9 @@ namespace pigo {
             for (L v = 0; v < n_; ++v)
                 all_degs[v] = 0;
 
-            auto coo_x = coo.x();
-            auto coo_y = coo.y();
-            auto coo_w = coo.w();
+            auto& coo_x = coo.x();
+            auto& coo_y = coo.y();
+            auto& coo_w = coo.w();
 
             #pragma omp for
             for (O x_id = 0; x_id < m_; ++x_id) {
-- 
2.43.0


From c9d7057a0445eb261d6564ae43300c0728e22d1a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:14:02 +0000
Subject: [PATCH 29/34] fix: do not step back into a comment that the file ends
 with

---
 include/pigo/impl/pigo.impl.hpp | 5 +++--
 release/pigo.hpp                | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index c0bcc7b..04c103d 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -539,14 +539,15 @@ namespace pigo {
 
         if (d < end && (*d == '%' || *d == '#')) {
             skip_comments();
-            --d;        // This will end at a newline
+            // This will end at a newline, unless the file ends first
+            if (*(d-1) == '\n') --d;
             return;
         }
         while (d < end && (*d < '0' || *d > '9') && *d != '\n') {
             ++d;
             if (d < end && (*d == '%' || *d == '#')) {
                 skip_comments();
-                --d;
+                if (*(d-1) == '\n') --d;
                 return;
             }
         }
diff --git a/release/pigo.hpp b/release/pigo.hpp
index cd5b1f8..1799366 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -3550,14 +3550,15 @@ namespace pigo {
 
         if (d < end && (*d == '%' || *d == '#')) {
             skip_comments();
-            --d;        // This will end at a newline
+            // This will end at a newline, unless the file ends first
+            if (*(d-1) == '\n') --d;
             return;
         }
         while (d < end && (*d < '0' || *d > '9') && *d != '\n') {
             ++d;
             if (d < end && (*d == '%' || *d == '#')) {
                 skip_comments();
-                --d;
+                if (*(d-1) == '\n') --d;
                 return;
             }
         }
-- 
2.43.0


From c0864574948d5cfd4cb44703b759224104ef89ab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:14:03 +0000
Subject: [PATCH 30/34] fix: do not use the critical section of the application
 when sorting fails

---
 include/pigo/impl/csr.impl.hpp | 2 +-
 release/pigo.hpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 13bb9f3..f81113c 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -543,7 +543,7 @@ namespace pigo {
                 try {
                     vec.reserve(end-start);
                 } catch (...) {
-                    #pragma omp critical
+                    #pragma omp critical (pigo_sort)
                     alloc_error = std::current_exception();
                     continue;
                 }
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 1799366..42aed5b 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -4978,7 +4978,7 @@ namespace pigo {
                 try {
                     vec.reserve(end-start);
                 } catch (...) {
-                    #pragma omp critical
+                    #pragma omp critical (pigo_sort)
                     alloc_error = std::current_exception();
                     continue;
                 }
-- 
2.43.0


From 4d64e67e16a7c9cd3516cfdf8a7c2e42d17fae19 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:26:09 +0000
Subject: [PATCH 31/34] fix: do not read an exponent from beyond a number

---
 include/pigo.hpp                |  8 ++++++++
 include/pigo/impl/pigo.impl.hpp | 28 ++++++++++++++++---------
 release/pigo.hpp                | 36 ++++++++++++++++++++++++---------
 3 files changed, 52 insertions(+), 20 deletions(-)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index 46560ff..c03f608 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -53,6 +53,14 @@ namespace pigo {
         private:
             /** Keep track of the end of the file */
             FilePos end;
+
+            /** @brief Read a number without an exponent
+             *
+             * @tparam T the floating point type to return
+             * @return the newly read number
+             */
+            template<typename T>
+            T read_decimal_();
         public:
             /** Keep track of the current position */
             FilePos d;
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 04c103d..9969b08 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -405,9 +405,26 @@ namespace pigo {
     template<typename T>
     inline
     T FileReader::read_fp() {
-        T res = 0.0;
         while (d < end && !((*d >= '0' && *d <= '9') || *d == 'e' ||
                     *d == 'E' || *d == '-' || *d == '+' || *d == '.')) ++d;
+
+        // Support a simple form of floating point integers
+        // Note: this is not the most accurate or fastest strategy
+        // (+-)AAA.BBB(eE)(+-)ZZ.YY
+        T res = read_decimal_<T>();
+        if (d < end && (*d == 'e' || *d == 'E')) {
+            ++d;
+            // The exponent directly follows and has no exponent itself
+            T exp = read_decimal_<T>();
+            res *= std::pow(10., exp);
+        }
+        return res;
+    }
+
+    template<typename T>
+    inline
+    T FileReader::read_decimal_() {
+        T res = 0.0;
         // Read the size
         bool positive = true;
         if (d < end && *d == '-') {
@@ -415,9 +432,6 @@ namespace pigo {
             ++d;
         } else if (d < end && *d == '+') ++d;
 
-        // Support a simple form of floating point integers
-        // Note: this is not the most accurate or fastest strategy
-        // (+-)AAA.BBB(eE)(+-)ZZ.YY
         // Read the 'A' part
         while (d < end && (*d >= '0' && *d <= '9')) {
             res = res*10. + (T)(*d-'0');
@@ -439,12 +453,6 @@ namespace pigo {
             }
             res += fraction / std::pow(10., fraction_count);
         }
-        if (d < end && (*d == 'e' || *d == 'E')) {
-            ++d;
-            T exp = read_fp<T>();
-            res *= std::pow(10., exp);
-        }
-
         if (!positive) res *= -1;
         return res;
     }
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 42aed5b..16e55b5 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -96,6 +96,14 @@ namespace pigo {
         private:
             /** Keep track of the end of the file */
             FilePos end;
+
+            /** @brief Read a number without an exponent
+             *
+             * @tparam T the floating point type to return
+             * @return the newly read number
+             */
+            template<typename T>
+            T read_decimal_();
         public:
             /** Keep track of the current position */
             FilePos d;
@@ -3416,9 +3424,26 @@ namespace pigo {
     template<typename T>
     inline
     T FileReader::read_fp() {
-        T res = 0.0;
         while (d < end && !((*d >= '0' && *d <= '9') || *d == 'e' ||
                     *d == 'E' || *d == '-' || *d == '+' || *d == '.')) ++d;
+
+        // Support a simple form of floating point integers
+        // Note: this is not the most accurate or fastest strategy
+        // (+-)AAA.BBB(eE)(+-)ZZ.YY
+        T res = read_decimal_<T>();
+        if (d < end && (*d == 'e' || *d == 'E')) {
+            ++d;
+            // The exponent directly follows and has no exponent itself
+            T exp = read_decimal_<T>();
+            res *= std::pow(10., exp);
+        }
+        return res;
+    }
+
+    template<typename T>
+    inline
+    T FileReader::read_decimal_() {
+        T res = 0.0;
         // Read the size
         bool positive = true;
         if (d < end && *d == '-') {
@@ -3426,9 +3451,6 @@ namespace pigo {
             ++d;
         } else if (d < end && *d == '+') ++d;
 
-        // Support a simple form of floating point integers
-        // Note: this is not the most accurate or fastest strategy
-        // (+-)AAA.BBB(eE)(+-)ZZ.YY
         // Read the 'A' part
         while (d < end && (*d >= '0' && *d <= '9')) {
             res = res*10. + (T)(*d-'0');
@@ -3450,12 +3472,6 @@ namespace pigo {
             }
             res += fraction / std::pow(10., fraction_count);
         }
-        if (d < end && (*d == 'e' || *d == 'E')) {
-            ++d;
-            T exp = read_fp<T>();
-            res *= std::pow(10., exp);
-        }
-
         if (!positive) res *= -1;
         return res;
     }
-- 
2.43.0


From b0d81ec12e4798a3ea4170c5d8f9322c26d32431 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:26:14 +0000
Subject: [PATCH 32/34] fix: count the entries of weighted text as they are
 read

---
 include/pigo/impl/coo.impl.hpp    | 16 ++++++++++++----
 include/pigo/impl/tensor.impl.hpp |  4 +++-
 release/pigo.hpp                  | 20 +++++++++++++++-----
 3 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 5f086a6..9cbc8e5 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -179,6 +179,8 @@ namespace pigo {
         struct read_wgt_i_<true, true, true, false, W, WS, true> {
             static inline void op_(size_t&, WS&, FileReader& r) {
                 r.move_to_next_signed_int();
+                // Any digits can follow the sign later
+                r.read_int<typename std::make_unsigned<W>::type>();
             }
         };
 
@@ -267,15 +269,18 @@ namespace pigo {
         /** Count-only implementation of reading a coord entry */
         template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true> {
-            static inline bool op_(S&, S&, WS&, size_t &coord_pos, FileReader &r, L&, L&) {
+            static inline bool op_(S&, S&, WS& w_, size_t &coord_pos, FileReader &r, L&, L&) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
                 if (!r.good()) return false;
                 L y = r.read_int<L>();
+                bool skip = (if_true_<sl>() && x == y) ||
+                        (!if_true_<sym>() && if_true_<ut>() && x > y);
+                // Move as when reading, the weight can be on a later line
+                if (!skip) read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
                 r.move_to_eol();
                 r.move_to_next_int();
-                if (if_true_<sl>() && x == y) return true;
-                if (!if_true_<sym>() && if_true_<ut>() && x > y) return true;
+                if (skip) return true;
                 if (if_true_<sym>() && !if_true_<ut>() && x != y) ++coord_pos;
                 ++coord_pos;
                 return true;
@@ -323,9 +328,12 @@ namespace pigo {
          * flags */
         template<class L, class O, class S, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,false,false,false,wgt,W,WS,true> {
-            static inline bool op_(S&, S&, WS&, size_t &coord_pos, FileReader &r, L&, L&) {
+            static inline bool op_(S&, S&, WS& w_, size_t &coord_pos, FileReader &r, L&, L&) {
                 r.move_to_next_int();
                 if (!r.good()) return false;
+                // Move as when reading, the weight can be on a later line
+                if (if_true_<wgt>()) r.move_to_non_int();
+                read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
                 r.move_to_eol();
                 r.move_to_next_int();
                 ++coord_pos;
diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 0533a4e..2e708a9 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -68,9 +68,11 @@ namespace pigo {
          * flags */
         template<class L, class O, class S, class W, class WS, bool wgt>
         struct read_tensor_entry_i_<L,O,S,W,WS,wgt,true> {
-            static inline void op_(O order_, S&, WS&, size_t &coord_pos, FileReader &r) {
+            static inline void op_(O order_, S&, WS& w_, size_t &coord_pos, FileReader &r) {
                 for (O idx = 0; idx < order_; ++idx)
                     r.read_int<L>();
+                // Move as when reading, the weight can be on a later line
+                read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
                 r.move_to_eol();
                 r.move_to_next_int();
                 ++coord_pos;
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 16e55b5..ce74ec7 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -3926,6 +3926,8 @@ namespace pigo {
         struct read_wgt_i_<true, true, true, false, W, WS, true> {
             static inline void op_(size_t&, WS&, FileReader& r) {
                 r.move_to_next_signed_int();
+                // Any digits can follow the sign later
+                r.read_int<typename std::make_unsigned<W>::type>();
             }
         };
 
@@ -4014,15 +4016,18 @@ namespace pigo {
         /** Count-only implementation of reading a coord entry */
         template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true> {
-            static inline bool op_(S&, S&, WS&, size_t &coord_pos, FileReader &r, L&, L&) {
+            static inline bool op_(S&, S&, WS& w_, size_t &coord_pos, FileReader &r, L&, L&) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
                 if (!r.good()) return false;
                 L y = r.read_int<L>();
+                bool skip = (if_true_<sl>() && x == y) ||
+                        (!if_true_<sym>() && if_true_<ut>() && x > y);
+                // Move as when reading, the weight can be on a later line
+                if (!skip) read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
                 r.move_to_eol();
                 r.move_to_next_int();
-                if (if_true_<sl>() && x == y) return true;
-                if (!if_true_<sym>() && if_true_<ut>() && x > y) return true;
+                if (skip) return true;
                 if (if_true_<sym>() && !if_true_<ut>() && x != y) ++coord_pos;
                 ++coord_pos;
                 return true;
@@ -4070,9 +4075,12 @@ namespace pigo {
          * flags */
         template<class L, class O, class S, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,false,false,false,wgt,W,WS,true> {
-            static inline bool op_(S&, S&, WS&, size_t &coord_pos, FileReader &r, L&, L&) {
+            static inline bool op_(S&, S&, WS& w_, size_t &coord_pos, FileReader &r, L&, L&) {
                 r.move_to_next_int();
                 if (!r.good()) return false;
+                // Move as when reading, the weight can be on a later line
+                if (if_true_<wgt>()) r.move_to_non_int();
+                read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
                 r.move_to_eol();
                 r.move_to_next_int();
                 ++coord_pos;
@@ -5317,9 +5325,11 @@ namespace pigo {
          * flags */
         template<class L, class O, class S, class W, class WS, bool wgt>
         struct read_tensor_entry_i_<L,O,S,W,WS,wgt,true> {
-            static inline void op_(O order_, S&, WS&, size_t &coord_pos, FileReader &r) {
+            static inline void op_(O order_, S&, WS& w_, size_t &coord_pos, FileReader &r) {
                 for (O idx = 0; idx < order_; ++idx)
                     r.read_int<L>();
+                // Move as when reading, the weight can be on a later line
+                read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
                 r.move_to_eol();
                 r.move_to_next_int();
                 ++coord_pos;
-- 
2.43.0


From 42a6d29d4cad35e567e62951fc1804ac7dd1e167 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:28:15 +0000
Subject: [PATCH 33/34] fix: refuse text whose number of labels does not fit
 the label type

---
 include/pigo/impl/coo.impl.hpp |  8 ++++++++
 include/pigo/impl/csr.impl.hpp | 12 ++++++++++--
 release/pigo.hpp               | 19 +++++++++++++++++--
 3 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 9cbc8e5..2c43c93 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -8,6 +8,7 @@
 #endif
 #include <atomic>
 #include <exception>
+#include <limits>
 #include <vector>
 #include <type_traits>
 
@@ -524,6 +525,13 @@ namespace pigo {
 
         if (alloc_error) std::rethrow_exception(alloc_error);
 
+        // The number of labels needs to fit as well
+        if (max_row == std::numeric_limits<L>::max() ||
+                max_col == std::numeric_limits<L>::max()) {
+            free();
+            throw Error("Label type too small for the labels in file");
+        }
+
         // Set the number of labels in the matrix represented by the COO
         nrows_ = max_row + 1;
         ncols_ = max_col + 1;
diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index f81113c..17e4d66 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -6,6 +6,7 @@
 #include <algorithm>
 #include <atomic>
 #include <exception>
+#include <limits>
 #include <vector>
 #include <string>
 #ifdef _OPENMP
@@ -357,6 +358,9 @@ namespace pigo {
         if (sum_rows < (size_t)read_n)
             throw Error("Mismatch in CSR newlines and header");
 
+        if (read_n == std::numeric_limits<L>::max() && first_row != 0)
+            throw Error("Label type too small for the labels in file");
+
         // Now, allocate the space appropriately
         m_ = sum_ints;
         n_ = read_n;
@@ -404,12 +408,16 @@ namespace pigo {
                 col_max = max_labels[tid];
             if (have_extras[tid]) have_extra = true;
         }
-        ncols_ = col_max+1;
-
         if (have_extra) {
             free();
             throw Error("Mismatch in CSR newlines and header");
         }
+        // The number of labels needs to fit as well
+        if (col_max == std::numeric_limits<L>::max()) {
+            free();
+            throw Error("Label type too small for the labels in file");
+        }
+        ncols_ = col_max+1;
     }
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
diff --git a/release/pigo.hpp b/release/pigo.hpp
index ce74ec7..d295ce6 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -43,6 +43,7 @@
 #include <cstring>
 #include <exception>
 #include <fcntl.h>
+#include <limits>
 #include <memory>
 #ifdef _OPENMP
 #include <omp.h>
@@ -4271,6 +4272,13 @@ namespace pigo {
 
         if (alloc_error) std::rethrow_exception(alloc_error);
 
+        // The number of labels needs to fit as well
+        if (max_row == std::numeric_limits<L>::max() ||
+                max_col == std::numeric_limits<L>::max()) {
+            free();
+            throw Error("Label type too small for the labels in file");
+        }
+
         // Set the number of labels in the matrix represented by the COO
         nrows_ = max_row + 1;
         ncols_ = max_col + 1;
@@ -4816,6 +4824,9 @@ namespace pigo {
         if (sum_rows < (size_t)read_n)
             throw Error("Mismatch in CSR newlines and header");
 
+        if (read_n == std::numeric_limits<L>::max() && first_row != 0)
+            throw Error("Label type too small for the labels in file");
+
         // Now, allocate the space appropriately
         m_ = sum_ints;
         n_ = read_n;
@@ -4863,12 +4874,16 @@ namespace pigo {
                 col_max = max_labels[tid];
             if (have_extras[tid]) have_extra = true;
         }
-        ncols_ = col_max+1;
-
         if (have_extra) {
             free();
             throw Error("Mismatch in CSR newlines and header");
         }
+        // The number of labels needs to fit as well
+        if (col_max == std::numeric_limits<L>::max()) {
+            free();
+            throw Error("Label type too small for the labels in file");
+        }
+        ncols_ = col_max+1;
     }
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
-- 
2.43.0


From f149e25f7f2c22f4c75ca934ba6b1572ba34dfe5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:45:42 +0000
Subject: [PATCH 34/34] fix: refuse objects whose size in bytes does not fit

---
 include/pigo.hpp                  | 4 ++++
 include/pigo/impl/csr.impl.hpp    | 3 +++
 include/pigo/impl/tensor.impl.hpp | 3 +++
 release/pigo.hpp                  | 9 +++++++++
 4 files changed, 19 insertions(+)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index c03f608..ec7d2ad 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -9,6 +9,7 @@
 #ifndef PIGO_HPP
 #define PIGO_HPP
 
+#include <limits>
 #include <stdexcept>
 #include <memory>
 #include <vector>
@@ -556,6 +557,9 @@ namespace pigo {
         template<typename T>
         struct allocate_impl_<true, T, true, false, false> {
             static void op_(T& it, size_t nmemb) {
+                // The number of bytes needs to fit as well
+                if (nmemb > std::numeric_limits<size_t>::max()/sizeof(*(T){nullptr}))
+                    throw Error("Unable to allocate");
                 it = static_cast<T>(malloc(sizeof(*(T){nullptr})*nmemb));
                 if (it == NULL)
                     throw Error("Unable to allocate");
diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 17e4d66..5e35b5f 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -70,6 +70,9 @@ namespace pigo {
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
     void CSR<L,O,LS,OS,wgt,W,WS>::allocate_() {
+        // There is one more offset than there are rows
+        if ((size_t)offset_rows_() == std::numeric_limits<size_t>::max())
+            throw Error("Unable to allocate");
         detail::allocate_mem_<LS>(endpoints_, m_);
         detail::allocate_mem_<WS,wgt>(weights_, m_);
         detail::allocate_mem_<OS>(offsets_, (size_t)offset_rows_()+1);
diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 2e708a9..93db0ef 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -51,6 +51,9 @@ namespace pigo {
     template<class L, class O, class S, class W, class WS, bool wgt>
     void Tensor<L,O,S,W,WS,wgt>::allocate_() {
         try {
+            // Every entry has one coordinate for each dimension
+            if (m_ != 0 && (size_t)order_ > std::numeric_limits<size_t>::max()/(size_t)m_)
+                throw Error("Unable to allocate");
             detail::allocate_mem_<S>(c_, (size_t)order_*m_);
             detail::allocate_mem_<WS,wgt>(w_, m_);
         } catch (...) {
diff --git a/release/pigo.hpp b/release/pigo.hpp
index d295ce6..832095d 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -600,6 +600,9 @@ namespace pigo {
         template<typename T>
         struct allocate_impl_<true, T, true, false, false> {
             static void op_(T& it, size_t nmemb) {
+                // The number of bytes needs to fit as well
+                if (nmemb > std::numeric_limits<size_t>::max()/sizeof(*(T){nullptr}))
+                    throw Error("Unable to allocate");
                 it = static_cast<T>(malloc(sizeof(*(T){nullptr})*nmemb));
                 if (it == NULL)
                     throw Error("Unable to allocate");
@@ -4536,6 +4539,9 @@ namespace pigo {
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
     void CSR<L,O,LS,OS,wgt,W,WS>::allocate_() {
+        // There is one more offset than there are rows
+        if ((size_t)offset_rows_() == std::numeric_limits<size_t>::max())
+            throw Error("Unable to allocate");
         detail::allocate_mem_<LS>(endpoints_, m_);
         detail::allocate_mem_<WS,wgt>(weights_, m_);
         detail::allocate_mem_<OS>(offsets_, (size_t)offset_rows_()+1);
@@ -5323,6 +5329,9 @@ namespace pigo {
     template<class L, class O, class S, class W, class WS, bool wgt>
     void Tensor<L,O,S,W,WS,wgt>::allocate_() {
         try {
+            // Every entry has one coordinate for each dimension
+            if (m_ != 0 && (size_t)order_ > std::numeric_limits<size_t>::max()/(size_t)m_)
+                throw Error("Unable to allocate");
             detail::allocate_mem_<S>(c_, (size_t)order_*m_);
             detail::allocate_mem_<WS,wgt>(w_, m_);
         } catch (...) {
-- 
2.43.0

