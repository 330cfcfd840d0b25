From fd99a5c722a3f0350cc1088d9bdb70c5a90f04d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 01/56] fix: keep the last coordinate entry when the file has
 no final newline

The entry was counted but never stored (or dropped from the count, with
flags), because reaching the end of the file right after its last number was
taken as an incomplete entry.
---
 include/pigo/impl/coo.impl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 66206e7..f7c6ae9 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -232,9 +232,9 @@ namespace pigo {
             static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
+                if (!r.good()) return;
                 L y = r.read_int<L>();
                 read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
-                if (!r.good()) return;
                 r.move_to_eol();
                 r.move_to_next_int();
                 if (if_true_<sl>() && x == y) {
@@ -254,9 +254,9 @@ namespace pigo {
             static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
+                if (!r.good()) return;
                 L y = r.read_int<L>();
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
-                if (!r.good()) return;
                 r.move_to_eol();
                 r.move_to_next_int();
                 if (if_true_<sl>() && x == y) {
@@ -302,9 +302,9 @@ namespace pigo {
             static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
+                if (!r.good()) return;
                 L y = r.read_int<L>();
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
-                if (!r.good()) return;
                 r.move_to_eol();
                 r.move_to_next_int();
                 set_value_(x_, coord_pos, x);
-- 
2.43.0


From 3a58f1c717c1475f32413fb67a673bf953c91a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 02/56] fix: do not recurse once per dropped self loop or
 lower-triangle entry

A long run of dropped entries overflowed the stack unless the compiler turned
the recursion into a loop (any build below -O2).
---
 include/pigo/impl/coo.impl.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index f7c6ae9..3cbf006 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -229,7 +229,7 @@ namespace pigo {
         /** Count-only implementation of reading a coord entry */
         template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true> {
-            static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
+            static inline void op_(S&, S&, WS& w_, size_t &coord_pos, FileReader &r, L&, L&) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
                 if (!r.good()) return;
@@ -238,10 +238,10 @@ namespace pigo {
                 r.move_to_eol();
                 r.move_to_next_int();
                 if (if_true_<sl>() && x == y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
+                    return;
                 }
                 if (!if_true_<sym>() && if_true_<ut>() && x > y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
+                    return;
                 }
                 if (if_true_<sym>() && !if_true_<ut>() && x != y) ++coord_pos;
                 ++coord_pos;
@@ -260,10 +260,10 @@ namespace pigo {
                 r.move_to_eol();
                 r.move_to_next_int();
                 if (if_true_<sl>() && x == y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,false>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
+                    return;
                 }
                 if (!if_true_<sym>() && if_true_<ut>() && x > y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,false>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
+                    return;
                 }
                 if (if_true_<sym>() && if_true_<ut>() && x > y) std::swap(x, y);
                 set_value_(x_, coord_pos, x);
-- 
2.43.0


From 7539e2254d96552070696132adca32b899cbe9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 03/56] fix: do not store the weight of a dropped entry

With self-loop removal or triangle selection a dropped entry's weight was
written at the position of the next kept entry: past the end of the weights
for the last entry, and over another thread's first weight at the end of a
thread's share.
---
 include/pigo/impl/coo.impl.hpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 3cbf006..69b8b69 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -234,15 +234,16 @@ namespace pigo {
                 r.move_to_next_int();
                 if (!r.good()) return;
                 L y = r.read_int<L>();
+                // A dropped entry has no position to store its weight in
+                if ((if_true_<sl>() && x == y) ||
+                        (!if_true_<sym>() && if_true_<ut>() && x > y)) {
+                    r.move_to_eol();
+                    r.move_to_next_int();
+                    return;
+                }
                 read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
                 r.move_to_eol();
                 r.move_to_next_int();
-                if (if_true_<sl>() && x == y) {
-                    return;
-                }
-                if (!if_true_<sym>() && if_true_<ut>() && x > y) {
-                    return;
-                }
                 if (if_true_<sym>() && !if_true_<ut>() && x != y) ++coord_pos;
                 ++coord_pos;
             }
@@ -256,15 +257,16 @@ namespace pigo {
                 r.move_to_next_int();
                 if (!r.good()) return;
                 L y = r.read_int<L>();
+                // A dropped entry has no position to store its weight in
+                if ((if_true_<sl>() && x == y) ||
+                        (!if_true_<sym>() && if_true_<ut>() && x > y)) {
+                    r.move_to_eol();
+                    r.move_to_next_int();
+                    return;
+                }
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
                 r.move_to_eol();
                 r.move_to_next_int();
-                if (if_true_<sl>() && x == y) {
-                    return;
-                }
-                if (!if_true_<sym>() && if_true_<ut>() && x > y) {
-                    return;
-                }
                 if (if_true_<sym>() && if_true_<ut>() && x > y) std::swap(x, y);
                 set_value_(x_, coord_pos, x);
                 set_value_(y_, coord_pos, y);
-- 
2.43.0


From c8b43eebb2ac69a04e96b1974cfc5acca12601a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 04/56] fix: count mirrored entries in the rows and columns of
 a symmetrized COO

The mirrored entry of "0 5" is in row 5 of what was reported as a one-row
matrix.
---
 include/pigo/impl/coo.impl.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 69b8b69..e9460ed 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -279,6 +279,9 @@ namespace pigo {
                     set_value_(y_, coord_pos, x);
                     set_value_(x_, coord_pos, y);
                     ++coord_pos;
+                    // The mirrored entry has to fit as well
+                    if (y > max_row) max_row = y;
+                    if (x > max_col) max_col = x;
                 }
                 if (x > max_row) max_row = x;
                 if (y > max_col) max_col = y;
@@ -347,6 +350,12 @@ namespace pigo {
         // Now, read out the actual contents
         read_el_(r);
 
+        // Mirrored or swapped entries only fit in a square matrix
+        if (detail::if_true_<sym>()) {
+            if (nrows < ncols) nrows = ncols;
+            else ncols = nrows;
+        }
+
         // Finally, sanity check the file
         if (nrows >= nrows_)
             nrows_ = nrows;
-- 
2.43.0


From f6225e26b7536b4a1c561186e4da5104f84e4dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 05/56] fix: allow entries dropped on request to be missing
 from a Matrix Market file

Removing self loops or keeping one triangle made every file with such an
entry contradict its own header.
---
 include/pigo/impl/coo.impl.hpp | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index e9460ed..b89af88 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -370,21 +370,18 @@ namespace pigo {
             free();
             throw Error("Too many col labels in file contradicting header");
         }
-        if (detail::if_true_<sym>()) {
-            if (nnz > 2*m_) {
-                free();
-                throw Error("Header wants more non-zeros than found");
-            }
-        } else if (detail::if_true_<sl>()) {
-            if (nnz > m_) {
-                free();
-                throw Error("Header wants more non-zeros than read");
-            }
-        } else {
-            if (nnz != m_) {
-                free();
-                throw Error("Header contradicts number of read non-zeros");
-            }
+        // Mirroring can double the entries, while removing self loops or
+        // keeping one triangle can remove any number of them
+        const bool mirrors = detail::if_true_<sym>() && !detail::if_true_<ut>();
+        const bool drops = detail::if_true_<sl>() ||
+            (detail::if_true_<ut>() && !detail::if_true_<sym>());
+        if (!drops && m_ < nnz) {
+            free();
+            throw Error("Header wants more non-zeros than found");
+        }
+        if ((mirrors ? m_/2 : m_) > nnz) {
+            free();
+            throw Error("Header contradicts number of read non-zeros");
         }
 
         if (nrows_ > ncols_) n_ = nrows_;
-- 
2.43.0


From 5d54f0804d67c5564ca924f82d768189e160bd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 06/56] fix: set the dimensions of a COO built from a CSR

The rows and columns were left uninitialized, and an adjacency file with
labels beyond its number of vertices gave a COO with labels beyond n().
---
 include/pigo/impl/coo.impl.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index b89af88..b1f795a 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -66,9 +66,20 @@ namespace pigo {
     template <class CL, class CO, class LS, class OS, class CW, class CWS>
     void COO<L,O,S,sym,ut,sl,wgt,W,WS>::convert_csr_(CSR<CL,CO,LS,OS,wgt,CW,CWS>& csr) {
         // First, set our sizes and allocate space
-        n_ = csr.n();
+        L csr_n = csr.n();
+        n_ = csr_n;
+        nrows_ = csr.nrows();
+        ncols_ = csr.ncols();
         m_ = csr.m();
 
+        // Mirrored or swapped entries only fit in a square matrix
+        if (detail::if_true_<sym>()) {
+            if (nrows_ < ncols_) nrows_ = ncols_;
+            else ncols_ = nrows_;
+        }
+        // All endpoints are labels as well
+        if (ncols_ > n_) n_ = ncols_;
+
         if (detail::if_true_<sym>() && !detail::if_true_<ut>())
             m_ *= 2;
         else if (!detail::if_true_<sym>() && detail::if_true_<ut>())
@@ -90,7 +101,7 @@ namespace pigo {
         }
 
         #pragma omp parallel for schedule(dynamic, 10240)
-        for (L v = 0; v < n_; ++v) {
+        for (L v = 0; v < csr_n; ++v) {
             auto start = endpoints + offsets[v];
             auto end = endpoints + offsets[v+1];
             size_t coo_cur = offsets[v];
-- 
2.43.0


From 844a6868e1f5b6f337231cd5ff025cc1cfc79a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 07/56] fix: do not read the byte after the end of the text

The scanning functions looked at the current character before checking for
the end. Files are mapped, so a file that fills its last page crashed.
---
 include/pigo.hpp                |  6 +++---
 include/pigo/impl/pigo.impl.hpp | 30 +++++++++++++++---------------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index 2e330c9..3a9e01f 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -93,7 +93,7 @@ namespace pigo {
              */
             template<typename T>
             T read_sign() {
-                if (*d == '-') return (T)(-1);
+                if (d < end && *d == '-') return (T)(-1);
                 return (T)1;
             }
 
@@ -234,9 +234,9 @@ namespace pigo {
              * @return true if the reader is at a '0' integer
              */
             bool at_zero() {
-                if (d >= end+1) return false;
+                if (d >= end) return false;
                 if (*d != '0') return false;
-                if (*(d+1) >= '0' && *(d+1) <= '9') return false;
+                if (d+1 < end && *(d+1) >= '0' && *(d+1) <= '9') return false;
                 return true;
             }
 
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 0a722df..cc384c6 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -331,10 +331,10 @@ namespace pigo {
                     *d == 'E' || *d == '-' || *d == '+' || *d == '.')) ++d;
         // Read the size
         bool positive = true;
-        if (*d == '-') {
+        if (d < end && *d == '-') {
             positive = false;
             ++d;
-        } else if (*d == '+') ++d;
+        } else if (d < end && *d == '+') ++d;
 
         // Support a simple form of floating point integers
         // Note: this is not the most accurate or fastest strategy
@@ -344,7 +344,7 @@ namespace pigo {
             res = res*10. + (T)(*d-'0');
             ++d;
         }
-        if (*d == '.') {
+        if (d < end && *d == '.') {
             ++d;
             T fraction = 0.;
             size_t fraction_count = 0;
@@ -356,7 +356,7 @@ namespace pigo {
             }
             res += fraction / std::pow(10., fraction_count);
         }
-        if (*d == 'e' || *d == 'E') {
+        if (d < end && (*d == 'e' || *d == 'E')) {
             ++d;
             T exp = read_fp<T>();
             res *= std::pow(10., exp);
@@ -397,10 +397,10 @@ namespace pigo {
     inline
     void FileReader::move_to_first_int() {
         // Move through the non-ints and comments
-        if (*d == '%' || *d == '#') skip_comments();
+        skip_comments();
         while (d < end && (*d < '0' || *d > '9')) {
             ++d;
-            if (*d == '%' || *d == '#') skip_comments();
+            skip_comments();
         }
     }
 
@@ -415,14 +415,14 @@ namespace pigo {
 
     inline
     void FileReader::move_to_next_signed_int() {
-        if (*d == '+' || *d == '-') ++d;
+        if (d < end && (*d == '+' || *d == '-')) ++d;
         move_to_non_int();
 
         // Move to the next integer or signed integral value
-        if (*d == '%' || *d == '#') skip_comments();
+        skip_comments();
         while (d < end && (*d < '0' || *d > '9') && *d != '+' && *d != '-') {
             ++d;
-            if (*d == '%' || *d == '#') skip_comments();
+            skip_comments();
         }
     }
 
@@ -436,7 +436,7 @@ namespace pigo {
             while (d < end && *d != '\n' && *d != '%' && *d != '#' && (*d < '0' || *d > '9')) { ++d; }
 
             // Make sure this is an integer
-            if (*d < '0' || *d > '9') {
+            if (d >= end || *d < '0' || *d > '9') {
                 move_to_eol();
                 break;
             }
@@ -444,7 +444,7 @@ namespace pigo {
             // Read through the integer
             while (d < end && ((*d >= '0' && *d <= '9') || *d == '.')) { ++d; }
 
-            if (*d == '\n') break;
+            if (d >= end || *d == '\n') break;
             if (*d == '%' || *d == '#') {
                 move_to_eol();
                 break;
@@ -454,11 +454,11 @@ namespace pigo {
             ++space_ct;
 
             // Move passed the space
-            while (*d == ' ') { ++d; };
+            while (d < end && *d == ' ') { ++d; };
 
             // Check if we just counted whitespace at the end; if so,
             // un-do the count
-            if (*d == '\n') {
+            if (d >= end || *d == '\n') {
                 --space_ct;
                 break;
             }
@@ -482,14 +482,14 @@ namespace pigo {
             ++d; // Move through a newline
         }
 
-        if (*d == '%' || *d == '#') {
+        if (d < end && (*d == '%' || *d == '#')) {
             skip_comments();
             --d;        // This will end at a newline
             return;
         }
         while (d < end && (*d < '0' || *d > '9') && *d != '\n') {
             ++d;
-            if (*d == '%' || *d == '#') {
+            if (d < end && (*d == '%' || *d == '#')) {
                 skip_comments();
                 --d;
                 return;
-- 
2.43.0


From cd4eb624d7b883e5bd2f0e308490ea03f2d5e2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 08/56] fix: find the order of a tensor when its first line is
 not plainly spaced

An exponent in the weight, a carriage return, a trailing tab or a missing final
newline on the first line each gave the tensor one dimension too many.
---
 include/pigo/impl/pigo.impl.hpp | 51 +++++++++++----------------------
 1 file changed, 17 insertions(+), 34 deletions(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index cc384c6..3c42549 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -429,45 +429,28 @@ namespace pigo {
     inline
     size_t FileReader::count_spaces_to_eol() {
         size_t space_ct = 0;
-        // Loop until a newline
-        while (d < end && *d != '\n') {
-            // Read up to an integer, stopping once it is within an
-            // integer
-            while (d < end && *d != '\n' && *d != '%' && *d != '#' && (*d < '0' || *d > '9')) { ++d; }
-
-            // Make sure this is an integer
-            if (d >= end || *d < '0' || *d > '9') {
-                move_to_eol();
-                break;
-            }
-
-            // Read through the integer
-            while (d < end && ((*d >= '0' && *d <= '9') || *d == '.')) { ++d; }
-
-            if (d >= end || *d == '\n') break;
-            if (*d == '%' || *d == '#') {
-                move_to_eol();
-                break;
+        bool seen = false;
+        // Loop until a newline or a comment
+        while (d < end && *d != '\n' && *d != '%' && *d != '#') {
+            // Read up to a number
+            if (*d < '0' || *d > '9') {
+                ++d;
+                continue;
             }
 
-            // Count this as a space
-            ++space_ct;
+            // Only the space between two numbers counts
+            if (seen) ++space_ct;
+            seen = true;
 
-            // Move passed the space
-            while (d < end && *d == ' ') { ++d; };
-
-            // Check if we just counted whitespace at the end; if so,
-            // un-do the count
-            if (d >= end || *d == '\n') {
-                --space_ct;
-                break;
-            }
-            if (*d == '%' || *d == '#') {
-                --space_ct;
-                move_to_eol();
-                break;
+            // Read through the number and, if there is one, its exponent
+            while (d < end && ((*d >= '0' && *d <= '9') || *d == '.')) { ++d; }
+            if (d < end && (*d == 'e' || *d == 'E')) {
+                ++d;
+                if (d < end && (*d == '+' || *d == '-')) ++d;
+                move_to_non_int();
             }
         }
+        move_to_eol();
         return space_ct;
     }
 
-- 
2.43.0


From 372fe669ea1af7ff3b2c71bf7db5f8c8977a79d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 09/56] fix: keep the last entry of an unweighted tensor
 without a final newline

---
 include/pigo/impl/tensor.impl.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 187320b..89196db 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -63,11 +63,13 @@ namespace pigo {
         struct read_tensor_entry_i_<L,O,S,W,WS,wgt,true> {
             static inline void op_(O order_, S&, WS&, size_t &coord_pos, FileReader &r) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    if (detail::if_true_<wgt>()) {
-                        r.move_to_next_int();
-                    } else {
-                        r.read_int<L>();
-                    }
+                    r.move_to_first_int();
+                    if (!r.good()) return;
+                    r.move_to_non_int();
+                }
+                // An entry is only complete with its weight
+                if (detail::if_true_<wgt>()) {
+                    r.move_to_first_int();
                     if (!r.good()) return;
                 }
                 r.move_to_eol();
@@ -81,8 +83,9 @@ namespace pigo {
         struct read_tensor_entry_i_<L,O,S,W,WS,wgt,false> {
             static inline void op_(O order_, S& c_, WS& w_, size_t &coord_pos, FileReader &r) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    L v = r.read_int<L>();
+                    r.move_to_first_int();
                     if (!r.good()) return;
+                    L v = r.read_int<L>();
                     set_value_(c_, coord_pos*order_+idx, v);
                 }
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
-- 
2.43.0


From a90d59cd608cafafb808e310e448630932a2ced7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 10/56] fix: do not write an incomplete last tensor entry past
 the end of the storage

---
 include/pigo/impl/tensor.impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 89196db..535fa48 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -194,7 +194,8 @@ namespace pigo {
             if (tid > 0)
                 coord_pos = nl_offsets[tid-1];
 
-            while (rs_p2.good()) {
+            // An incomplete last entry is not counted and has no space
+            while (rs_p2.good() && coord_pos < nl_offsets[tid]) {
                 read_coord_entry_<false>(coord_pos, rs_p2);
             }
         }
-- 
2.43.0


From bf71d1890db01452b55aee49752b4165194ac173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 11/56] fix: find a character at the first position, and none
 after the last, in find_offsets

---
 include/pigo/impl/pigo.impl.hpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 3c42549..8521517 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -530,19 +530,14 @@ namespace pigo {
             FileReader rs = r + tid_start_i;
             FileReader re = r + tid_end_i;
 
-            // Next, move to the 'real' starting point
-            re.move_to(c);
-            if (tid != 0)
-                rs.move_to(c);
             rs.smaller_end(re);
 
             FileReader rs_p1 = rs;
 
             // Now, for pass 1, count the number of characters found
             size_t tid_c = 0;
-            while (rs_p1.good()) {
-                rs_p1.move_to(c);
-                if (*rs_p1.d == c)
+            for (; rs_p1.good(); rs_p1 += 1) {
+                if (rs_p1.peek() == c)
                     ++tid_c;
             }
 
@@ -583,10 +578,6 @@ namespace pigo {
             FileReader rs = r + tid_start_i;
             FileReader re = r + tid_end_i;
 
-            // Next, move to the 'real' starting point
-            re.move_to(c);
-            if (tid != 0)
-                rs.move_to(c);
             rs.smaller_end(re);
 
             FileReader rs_p1 = rs;
@@ -595,9 +586,8 @@ namespace pigo {
             size_t tid_c = 0;
             if (tid > 0)
                 tid_c = c_offsets[tid-1];
-            while (rs_p1.good()) {
-                rs_p1.move_to(c);
-                if (*rs_p1.d == c) {
+            for (; rs_p1.good(); rs_p1 += 1) {
+                if (rs_p1.peek() == c) {
                     detail::set_value_(t_c, tid_c, rs_p1.d-r.d);
                     ++tid_c;
                 }
-- 
2.43.0


From 593868afcadcd3606aa1af5a37c69be5cabd907b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 12/56] fix: move the position, name and ownership of a File
 along with its data

The source of a move construction kept the mapping and unmapped it under the
new owner; neither move carried the file position or name.
---
 include/pigo.hpp                | 3 +++
 include/pigo/impl/pigo.impl.hpp | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index 3a9e01f..90c287d 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -317,6 +317,9 @@ namespace pigo {
             File(File &&o) {
                 data_ = o.data_;
                 size_ = o.size_;
+                fp_ = o.fp_;
+                fn_ = std::move(o.fn_);
+                o.data_ = nullptr;
             }
 
             /** @brief Move operator */
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 8521517..780087a 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -91,6 +91,8 @@ namespace pigo {
                 munmap(data_, size_);
             data_ = o.data_;
             size_ = o.size_;
+            fp_ = o.fp_;
+            fn_ = std::move(o.fn_);
             o.data_ = nullptr;
         }
         return *this;
-- 
2.43.0


From 1bbae17c365c9918ceb252b92324c6df23b3867b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 13/56] fix: recognise a string that ends exactly where the
 file ends

---
 include/pigo/impl/pigo.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 780087a..5ec3f7f 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -490,7 +490,7 @@ namespace pigo {
     inline
     bool FileReader::at_str(std::string s) {
         // Ensure the size is suitable for comparison
-        if (d + s.size() >= end) return false;
+        if (size() < s.size()) return false;
         std::string d_str { d, d+s.size() };
         return s.compare(d_str) == 0;
     }
-- 
2.43.0


From 9b748338919db8f50c6e5fe21dc13a853202065a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 14/56] fix: close the descriptor of a file that cannot be
 mapped, such as an empty one

---
 include/pigo/impl/pigo.impl.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 5ec3f7f..a95db52 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -66,7 +66,10 @@ namespace pigo {
         // MMAP the space
         data_ = (char*)mmap(NULL, size_*sizeof(char), prot,
                 MAP_SHARED | MAP_NORESERVE, fd, 0);
-        if (data_ == MAP_FAILED) throw Error("PIGO: MMAP");
+        if (data_ == MAP_FAILED) {
+            fclose(f);
+            throw Error("PIGO: MMAP");
+        }
         if (fclose(f) != 0) throw Error("PIGO: Fclose");
 
         // Advise the mmap for performance
-- 
2.43.0


From b60facb040640702669add2a5d19e242f36b5be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 15/56] fix: report a failure to create the output of an ASCII
 write to the caller

The exception left a parallel region, which ends the program.
---
 include/pigo/impl/coo.impl.hpp    | 19 +++++++++++++++----
 include/pigo/impl/tensor.impl.hpp | 19 +++++++++++++++----
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index b1f795a..0598396 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -7,6 +7,7 @@
 #include <omp.h>
 #endif
 #include <atomic>
+#include <exception>
 #include <vector>
 #include <type_traits>
 
@@ -608,7 +609,9 @@ namespace pigo {
 
         std::vector<size_t> pos_offsets(num_threads+1);
         std::shared_ptr<File> f;
-        #pragma omp parallel shared(f) shared(pos_offsets)
+        // An exception must not leave the parallel region
+        std::exception_ptr f_error;
+        #pragma omp parallel shared(f) shared(f_error) shared(pos_offsets)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -650,16 +653,22 @@ namespace pigo {
                     pos_offsets[thread] = pos_offsets[thread-1] + pos_offsets[thread];
 
                 // Allocate the file
-                f = std::make_shared<File>(fn, WRITE, pos_offsets[num_threads]);
+                try {
+                    f = std::make_shared<File>(fn, WRITE, pos_offsets[num_threads]);
+                } catch (...) {
+                    f_error = std::current_exception();
+                }
             }
 
             #pragma omp barrier
 
-            FilePos my_fp = f->fp()+pos_offsets[tid];
+            // Without a file there is nothing to write to
+            FilePos my_fp = f ? f->fp()+pos_offsets[tid] : nullptr;
+            O write_m = f ? m_ : 0;
 
             // Perform the second pass, actually writing out to the file
             #pragma omp for
-            for (O e = 0; e < m_; ++e) {
+            for (O e = 0; e < write_m; ++e) {
                 auto x = detail::get_value_<S, L>(x_, e);
                 write_ascii(my_fp, x);
                 pigo::write(my_fp, ' ');
@@ -673,6 +682,8 @@ namespace pigo {
                 pigo::write(my_fp, '\n');
             }
         }
+
+        if (f_error) std::rethrow_exception(f_error);
     }
 
 }
diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 535fa48..e4a52c5 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -8,6 +8,7 @@
 #include <omp.h>
 #endif
 #include <atomic>
+#include <exception>
 #include <vector>
 #include <type_traits>
 
@@ -310,7 +311,9 @@ namespace pigo {
 
         std::vector<size_t> pos_offsets(num_threads+1);
         std::shared_ptr<File> f;
-        #pragma omp parallel shared(f) shared(pos_offsets)
+        // An exception must not leave the parallel region
+        std::exception_ptr f_error;
+        #pragma omp parallel shared(f) shared(f_error) shared(pos_offsets)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -348,16 +351,22 @@ namespace pigo {
                     pos_offsets[thread] = pos_offsets[thread-1] + pos_offsets[thread];
 
                 // Allocate the file
-                f = std::make_shared<File>(fn, WRITE, pos_offsets[num_threads]);
+                try {
+                    f = std::make_shared<File>(fn, WRITE, pos_offsets[num_threads]);
+                } catch (...) {
+                    f_error = std::current_exception();
+                }
             }
 
             #pragma omp barrier
 
-            FilePos my_fp = f->fp()+pos_offsets[tid];
+            // Without a file there is nothing to write to
+            FilePos my_fp = f ? f->fp()+pos_offsets[tid] : nullptr;
+            O write_m = f ? m_ : 0;
 
             // Perform the second pass, actually writing out to the file
             #pragma omp for
-            for (O e = 0; e < m_; ++e) {
+            for (O e = 0; e < write_m; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
                     auto x = detail::get_value_<S, L>(c_, e*order_+idx);
                     write_ascii(my_fp, x);
@@ -372,6 +381,8 @@ namespace pigo {
                 pigo::write(my_fp, '\n');
             }
         }
+
+        if (f_error) std::rethrow_exception(f_error);
     }
 
     template<class L, class O, class S, class W, class WS, bool wgt>
-- 
2.43.0


From 80abcdc1068459e9dfd3bd4c42102b0792880d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 16/56] fix: write the smallest value of a signed integer type

---
 include/pigo/impl/pigo.impl.hpp | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index a95db52..e5c46d7 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -217,18 +217,6 @@ namespace pigo {
         void write_neg_ascii(FilePos &fp, T obj) {
             if (obj < 0) pigo::write(fp, '-');
         }
-
-        template<typename T, typename std::enable_if<!std::is_signed<T>::value, bool>::type = false>
-        inline
-        T get_positive(T obj) {
-            return obj;
-        }
-        template<typename T, typename std::enable_if<std::is_signed<T>::value, bool>::type = true>
-        inline
-        T get_positive(T obj) {
-            if (obj < 0) return -obj;
-            return obj;
-        }
     }
 
     template<typename T,
@@ -285,13 +273,14 @@ namespace pigo {
     inline
     void write_ascii(FilePos &fp, T obj) {
         detail::write_neg_ascii(fp, obj);
-        obj = detail::get_positive(obj);
 
-        size_t num_size = write_size(obj);
+        size_t num_size = write_size(obj) - detail::neg_size(obj);
         size_t pos = num_size-1;
-        // Write out each digit
+        // Write out each digit, without negating the object: the smallest
+        // value has no positive counterpart
         do {
-            *((char*)fp+pos--) = (obj%10)+'0';
+            int digit = (int)(obj%10);
+            *((char*)fp+pos--) = (char)((digit < 0 ? -digit : digit)+'0');
             obj /= 10;
         } while (obj != 0);
         fp += num_size;
-- 
2.43.0


From 712b002a6a79e25ce957f7fb8e51d8fd3538323a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 17/56] fix: do not access a file beyond its end

Loading a truncated binary file, or an unweighted one as weighted, read past
the mapping.
---
 include/pigo.hpp                  |  6 ++++++
 include/pigo/impl/coo.impl.hpp    |  6 ++++++
 include/pigo/impl/csr.impl.hpp    |  4 ++++
 include/pigo/impl/pigo.impl.hpp   | 21 +++++++++++++++++++++
 include/pigo/impl/tensor.impl.hpp |  7 +++++++
 5 files changed, 44 insertions(+)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index 90c287d..ae48ff2 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -294,6 +294,12 @@ namespace pigo {
             FilePos fp_;
             /** The filename */
             std::string fn_;
+
+            /** @brief Ensure that there is enough left in the file
+             *
+             * @param needed the number of bytes about to be accessed
+             */
+            void check_left_(size_t needed);
         public:
             /** @brief Opens the given file
              *
diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 0598396..6a0930a 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -567,6 +567,12 @@ namespace pigo {
         n_ = f.read<L>();
         m_ = f.read<O>();
 
+        // Do not trust the sizes beyond what the file can hold
+        if ((size_t)m_ > f.size()/sizeof(L)) {
+            m_ = 0;
+            throw Error("Truncated COO binary");
+        }
+
         // Allocate space
         allocate_();
 
diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index cde824d..8412b6a 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -507,6 +507,10 @@ namespace pigo {
         nrows_ = f.read<L>();
         ncols_ = f.read<L>();
 
+        // Do not trust the sizes beyond what the file can hold
+        if ((size_t)m_ > f.size()/sizeof(L) || (size_t)n_ > f.size()/sizeof(O))
+            throw Error("Truncated CSR binary");
+
         // Allocate space
         allocate_();
 
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index e5c46d7..ef8c2ca 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -101,9 +101,27 @@ namespace pigo {
         return *this;
     }
 
+    namespace detail {
+        /** The size of an object as written in binary */
+        template<class T>
+        inline
+        size_t binary_size_(const T&) { return sizeof(T); }
+
+        /** Strings are written without their terminator */
+        inline
+        size_t binary_size_(const std::string& s) { return s.size(); }
+    }
+
+    inline
+    void File::check_left_(size_t needed) {
+        if ((size_t)(data_ + size_ - fp_) < needed)
+            throw Error("Attempting to go beyond the end of the file");
+    }
+
     template<class T>
     inline
     T File::read() {
+        check_left_(sizeof(T));
         return ::pigo::read<T>(fp_);
     }
 
@@ -118,16 +136,19 @@ namespace pigo {
     template<class T>
     inline
     void File::write(T val) {
+        check_left_(detail::binary_size_(val));
         return ::pigo::write(fp_, val);
     }
 
     inline
     void File::parallel_write(char* v, size_t v_size) {
+        check_left_(v_size);
         ::pigo::parallel_write(fp_, v, v_size);
     }
 
     inline
     void File::parallel_read(char* v, size_t v_size) {
+        check_left_(v_size);
         ::pigo::parallel_read(fp_, v, v_size);
     }
 
diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index e4a52c5..fa8ead4 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -273,6 +273,13 @@ namespace pigo {
         order_ = f.read<O>();
         m_ = f.read<O>();
 
+        // Do not trust the sizes beyond what the file can hold
+        if ((order_ != 0 && (size_t)m_ > f.size()/sizeof(L)/(size_t)order_) ||
+                detail::weight_size_<wgt, W, size_t>(m_) > f.size()) {
+            m_ = 0;
+            throw Error("Truncated Tensor binary");
+        }
+
         // Allocate space
         allocate_();
 
-- 
2.43.0


From 14ab634005fc5a525158b6162e48ac4c7a5f58c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 18/56] fix: allow freeing an empty or already freed CSR

An empty CSR freed uninitialized pointers and a second free freed twice, while
both are harmless for a COO and a Tensor.
---
 include/pigo.hpp     | 1 +
 include/pigo/csr.hpp | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index ae48ff2..11b10a6 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -562,6 +562,7 @@ namespace pigo {
         struct free_impl_<true, T, true, false, false> {
             static void op_(T& it) {
                 free(it);
+                it = nullptr;
             }
         };
 
diff --git a/include/pigo/csr.hpp b/include/pigo/csr.hpp
index c5e4412..62f934f 100644
--- a/include/pigo/csr.hpp
+++ b/include/pigo/csr.hpp
@@ -126,7 +126,8 @@ namespace pigo {
                     coo);
         public:
             /** @brief Initialize an empty CSR */
-            CSR() : n_(0), m_(0), nrows_(0), ncols_(0) { }
+            CSR() : endpoints_(), offsets_(), weights_(),
+                    n_(0), m_(0), nrows_(0), ncols_(0) { }
 
             /** @brief Allocate a CSR for the given size */
             CSR(Label n, Ordinal m, Label nrows, Label ncols) :
-- 
2.43.0


From 43caad04f5937cf7e5a3eb8d28a94a671ae8a9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 19/56] fix: let each thread record a zero label without racing
 with the others

---
 include/pigo/impl/csr.impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 8412b6a..daf02ad 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -284,7 +284,8 @@ namespace pigo {
         std::vector<size_t> nl_offsets(num_threads);
         std::vector<size_t> int_offsets(num_threads);
         std::vector<L> max_labels(num_threads);
-        std::vector<bool> have_zeros(num_threads, false);
+        // Separate objects, unlike the bits of a std::vector<bool>
+        std::vector<char> have_zeros(num_threads, false);
         bool have_zero;
         #pragma omp parallel shared(have_zero) shared(have_zeros)
         {
-- 
2.43.0


From cad6857b34ae025ed12b7b43c79fe4f036f7a708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 20/56] fix: read the rows of an adjacency file as its lines
 are

An empty first row was skipped, a comment line counted as an empty row, a
number directly followed by a comment or a share that starts inside a comment
corrupted the rows, and a last row without a newline was an error.
---
 include/pigo/impl/csr.impl.hpp  | 30 +++++++++++++++++++-----------
 include/pigo/impl/pigo.impl.hpp | 14 +++++---------
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index daf02ad..2817377 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -274,7 +274,8 @@ namespace pigo {
         r.move_to_next_int();
         O read_m = r.read_int<O>();
         r.move_to_eol();
-        r.move_to_next_int();
+        // The first row starts right after the header and may be empty
+        r.move_to_next_int_or_nl();
 
         // This takes two passes:
         // first, count the number of newlines and integers to allocate
@@ -302,12 +303,14 @@ namespace pigo {
             FileReader rs = r + tid_start_i;
             FileReader re = r + tid_end_i;
 
-            // Now, move to the appropriate starting point
+            // Now, move to the appropriate starting point. Moving off of
+            // the current line first ensures that it is not in a comment
+            re.move_to_eol();
             re.move_to_next_int();
             if (tid != 0) {
+                rs.move_to_eol();
                 rs.move_to_next_int();
-            } else
-                rs.move_to_first_int();
+            }
 
             // Set our file reader to end either at the full end or at
             // the thread id local end
@@ -318,11 +321,13 @@ namespace pigo {
             size_t tid_nls = 0;
             size_t tid_ints = 0;
             bool my_have_zero = false;
+            bool in_row = false;
             while (rs_p1.good()) {
-                if (rs_p1.at_nl_or_eol())
-                    ++tid_nls;
-                else
+                in_row = !rs_p1.at_nl_or_eol();
+                if (in_row)
                     ++tid_ints;
+                else
+                    ++tid_nls;
                 // Determine if this is a 0
                 if (rs_p1.at_zero() && !my_have_zero)
                     my_have_zero = true;
@@ -332,6 +337,9 @@ namespace pigo {
             if (my_have_zero) {
                 have_zeros[tid] = true;
             }
+            // The last row may not have a newline
+            if (in_row && rs_p1.d == r.d + size)
+                ++tid_nls;
 
             #pragma omp barrier
             #pragma omp single
@@ -399,13 +407,13 @@ namespace pigo {
                     detail::set_value_(offsets_, ++offset_pos, endpoint_pos);
                     rs_p2.move_to_next_int_or_nl();
                 } else {
-                    // Set the actual value
-                    L endpoint = rs_p2.read_int<L>();
+                    // Set the actual value, moving as in the first pass
+                    FileReader rs_val = rs_p2;
+                    L endpoint = rs_val.read_int<L>();
                     if (endpoint > my_max)
                         my_max = endpoint;
                     detail::set_value_(endpoints_, endpoint_pos++, endpoint);
-                    if (!rs_p2.at_nl_or_eol())
-                        rs_p2.move_to_next_int_or_nl();
+                    rs_p2.move_to_next_int_or_nl();
                 }
             }
             max_labels[tid] = my_max;
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index ef8c2ca..cd113ee 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -478,20 +478,16 @@ namespace pigo {
         if (d < end && *d == '\n') {
             if (at_int) return;     // We have now reached a newline
             ++d; // Move through a newline
-        }
-
-        if (d < end && (*d == '%' || *d == '#')) {
+            // Move through the lines that only contain a comment
             skip_comments();
-            --d;        // This will end at a newline
-            return;
         }
+
         while (d < end && (*d < '0' || *d > '9') && *d != '\n') {
-            ++d;
-            if (d < end && (*d == '%' || *d == '#')) {
-                skip_comments();
-                --d;
+            if (*d == '%' || *d == '#') {
+                move_to_eol();
                 return;
             }
+            ++d;
         }
     }
 
-- 
2.43.0


From f39e7cbbb5e55a15e1f0a130176765425ffc70cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 21/56] fix: do not count lines after the last vertex as rows
 of an adjacency file

Also notice a missing last row when the labels start at one.
---
 include/pigo/impl/csr.impl.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 2817377..74fb381 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -419,10 +419,19 @@ namespace pigo {
             max_labels[tid] = my_max;
         }
 
-        if (m_ == 2*read_m) {}
-        else if (m_ != read_m) throw Error("Mismatch in CSR nonzeros and header");
-        if (n_ < read_n) throw Error("Mismatch in CSR newlines and header");
-        else n_ = read_n;
+        if (m_ != 2*read_m && m_ != read_m) {
+            free();
+            throw Error("Mismatch in CSR nonzeros and header");
+        }
+        // Row zero is added when the labels start at one
+        L base = have_zero ? 0 : 1;
+        if (n_ < read_n + base) {
+            free();
+            throw Error("Mismatch in CSR newlines and header");
+        }
+        // Any further rows are not a part of the graph
+        n_ = read_n;
+        nrows_ = read_n + base;
 
         L col_max = max_labels[0];
         for (size_t thread = 1; thread < num_threads; ++thread) {
-- 
2.43.0


From 21e56ba9c6f0d1e4ef5017bf4f53b084f84b916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 22/56] fix: keep the last row when labels start at one

An adjacency file without a zero label has one more row than labels, and
its offsets are stored, but conversion to a COO, sorting, duplicate
removal and saving stopped one row earlier. Conversion left the last
entries of the COO uninitialised.
---
 include/pigo/csr.hpp           |  7 ++++++
 include/pigo/impl/coo.impl.hpp |  5 ++++-
 include/pigo/impl/csr.impl.hpp | 39 ++++++++++++++++++----------------
 3 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/include/pigo/csr.hpp b/include/pigo/csr.hpp
index 62f934f..46f6c17 100644
--- a/include/pigo/csr.hpp
+++ b/include/pigo/csr.hpp
@@ -106,6 +106,13 @@ namespace pigo {
             /** @brief Allocate the storage for the CSR */
             void allocate_();
 
+            /** @brief The number of rows with stored offsets
+             *
+             * This is the number of labels, or the number of rows if it
+             * is larger: when labels start at one, row zero is empty.
+             */
+            Label stored_rows_() const { return nrows_ > n_ ? nrows_ : n_; }
+
             /** @brief Convert a COO into this CSR
              *
              * @tparam COOLabel the label for the COO format
diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 6a0930a..dc297a6 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -68,6 +68,9 @@ namespace pigo {
     void COO<L,O,S,sym,ut,sl,wgt,W,WS>::convert_csr_(CSR<CL,CO,LS,OS,wgt,CW,CWS>& csr) {
         // First, set our sizes and allocate space
         L csr_n = csr.n();
+        L csr_rows = csr.nrows();
+        // Labels may start at one, so that there is a row for label n
+        if (csr_rows < csr_n) csr_rows = csr_n;
         n_ = csr_n;
         nrows_ = csr.nrows();
         ncols_ = csr.ncols();
@@ -102,7 +105,7 @@ namespace pigo {
         }
 
         #pragma omp parallel for schedule(dynamic, 10240)
-        for (L v = 0; v < csr_n; ++v) {
+        for (L v = 0; v < csr_rows; ++v) {
             auto start = endpoints + offsets[v];
             auto end = endpoints + offsets[v+1];
             size_t coo_cur = offsets[v];
diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 74fb381..c43a12e 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -70,7 +70,7 @@ namespace pigo {
     void CSR<L,O,LS,OS,wgt,W,WS>::allocate_() {
         detail::allocate_mem_<LS>(endpoints_, m_);
         detail::allocate_mem_<WS,wgt>(weights_, m_);
-        detail::allocate_mem_<OS>(offsets_, n_+1);
+        detail::allocate_mem_<OS>(offsets_, stored_rows_()+1);
     }
     namespace detail {
         template<bool wgt, class W, class WS, class COOW, class COOWS, class O>
@@ -140,14 +140,15 @@ namespace pigo {
 
         // Temporarily keep track of the degree for each label (this can
         // easily be computed later)
-        O* label_degs = new O[n_];
+        const L rows = stored_rows_();
+        O* label_degs = new O[rows];
 
         // Keep track of the starting offsets for each thread
         O* start_offsets = new O[num_threads];
 
         // Each thread will compute the degrees for each label on its own.
         // This is then used to reduce them all
-        O* all_degs = new O[n_];
+        O* all_degs = new O[rows];
         #pragma omp parallel shared(all_degs) shared(label_degs) shared(start_offsets)
         {
             #ifdef _OPENMP
@@ -156,12 +157,12 @@ namespace pigo {
             size_t tid = 0;
             #endif
 
-            L v_start = (tid*n_)/num_threads;
-            L v_end = ((tid+1)*n_)/num_threads;
+            L v_start = (tid*rows)/num_threads;
+            L v_end = ((tid+1)*rows)/num_threads;
             // We need to initialize degrees to count for zero-degree
             // vertices
             #pragma omp for
-            for (L v = 0; v < n_; ++v)
+            for (L v = 0; v < rows; ++v)
                 all_degs[v] = 0;
 
             auto coo_x = coo.x();
@@ -217,7 +218,7 @@ namespace pigo {
             {
                 // Patch the last offset to the end, making for easier
                 // degree computation and iteration
-                detail::set_value_(offsets_, n_, m_);
+                detail::set_value_(offsets_, rows, m_);
             }
 
             #pragma omp barrier
@@ -451,7 +452,7 @@ namespace pigo {
         // Find the size of the size of the CSR
         out_size += sizeof(L)*3+sizeof(O);
         // Finally, find the actual CSR size
-        size_t voff_size = sizeof(O)*(n_+1);
+        size_t voff_size = sizeof(O)*(stored_rows_()+1);
         size_t vend_size = sizeof(L)*m_;
         size_t w_size = detail::weight_size_<wgt, W, O>(m_);
         out_size += voff_size + vend_size + w_size;
@@ -489,7 +490,7 @@ namespace pigo {
         w.write(nrows_);
         w.write(ncols_);
 
-        size_t voff_size = sizeof(O)*(n_+1);
+        size_t voff_size = sizeof(O)*(stored_rows_()+1);
         size_t vend_size = sizeof(L)*m_;
         size_t w_size = detail::weight_size_<wgt, W, O>(m_);
 
@@ -526,13 +527,13 @@ namespace pigo {
         ncols_ = f.read<L>();
 
         // Do not trust the sizes beyond what the file can hold
-        if ((size_t)m_ > f.size()/sizeof(L) || (size_t)n_ > f.size()/sizeof(O))
+        if ((size_t)m_ > f.size()/sizeof(L) || (size_t)stored_rows_() > f.size()/sizeof(O))
             throw Error("Truncated CSR binary");
 
         // Allocate space
         allocate_();
 
-        size_t voff_size = sizeof(O)*(n_+1);
+        size_t voff_size = sizeof(O)*(stored_rows_()+1);
         size_t vend_size = sizeof(L)*m_;
 
         // Read out the vectors
@@ -551,8 +552,9 @@ namespace pigo {
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
     void CSR<L,O,LS,OS,wgt,W,WS>::sort() {
+        const L rows = stored_rows_();
         #pragma omp parallel for schedule(dynamic, 10240)
-        for (L v = 0; v < n_; ++v) {
+        for (L v = 0; v < rows; ++v) {
             // Get the start and end range
             O start = detail::get_value_<OS, O>(offsets_, v);
             O end = detail::get_value_<OS, O>(offsets_, v+1);
@@ -598,13 +600,14 @@ namespace pigo {
 
         // Next, count the degrees for each vertex, excluding duplicates
         std::shared_ptr<L> degs_storage;
-        detail::allocate_mem_(degs_storage, n_);
+        const L rows = stored_rows_();
+        detail::allocate_mem_(degs_storage, rows);
         L* degs = degs_storage.get();
 
         nO new_m = 0;
 
         #pragma omp parallel for schedule(dynamic, 10240) shared(degs) reduction(+ : new_m)
-        for (L v = 0; v < n_; ++v) {
+        for (L v = 0; v < rows; ++v) {
             O start = detail::get_value_<OS, O>(offsets_, v);
             O end = detail::get_value_<OS, O>(offsets_, v+1);
             if (end-start == 0) {
@@ -662,8 +665,8 @@ namespace pigo {
             size_t tid = 0;
             #endif
 
-            L v_start = (tid*n_)/num_threads;
-            L v_end = ((tid+1)*n_)/num_threads;
+            L v_start = (tid*rows)/num_threads;
+            L v_end = ((tid+1)*rows)/num_threads;
 
             O my_degs = 0;
             for (L c = v_start; c < v_end; ++c) {
@@ -701,7 +704,7 @@ namespace pigo {
             {
                 // Patch the last offset to the end, making for easier
                 // degree computation and iteration
-                detail::set_value_(new_offsets, (nL)n_, new_m);
+                detail::set_value_(new_offsets, (nL)rows, new_m);
             }
 
             // Now, all new offsets have been assigned
@@ -709,7 +712,7 @@ namespace pigo {
 
         // Repeat going through the edges, copying out the endpoints
         #pragma omp parallel for schedule(dynamic, 10240)
-        for (L v = 0; v < n_; ++v) {
+        for (L v = 0; v < rows; ++v) {
             O o_start = detail::get_value_<OS, O>(offsets_, v);
             O o_end = detail::get_value_<OS, O>(offsets_, v+1);
             if (o_end-o_start == 0) continue;
-- 
2.43.0


From 0dfe2fc317b8eb8be3d390d2ba4c99899c6fb7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 23/56] fix: refuse a directed graph binary without its row and
 column forms

A file cut off after the header, or within that of the first part, was
taken for an edge list.
---
 include/pigo/impl/graph.impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pigo/impl/graph.impl.hpp b/include/pigo/impl/graph.impl.hpp
index 48355d8..1787990 100644
--- a/include/pigo/impl/graph.impl.hpp
+++ b/include/pigo/impl/graph.impl.hpp
@@ -38,7 +38,7 @@ namespace pigo {
                         weighted,
                         Weight,
                         WeightStorage
-                    > { f, AUTO };
+                    > { f, PIGO_CSR_BIN };
             out_ = BaseGraph<
                         vertex_t,
                         edge_ctr_t,
@@ -47,7 +47,7 @@ namespace pigo {
                         weighted,
                         Weight,
                         WeightStorage
-                    > { f, AUTO };
+                    > { f, PIGO_CSR_BIN };
         } else {
             // Build a COO, then load ourselves from it
             COO<
-- 
2.43.0


From 46ca408e0187b0992d99c4dbf16d0fbe3632123f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:18 +0000
Subject: [PATCH 24/56] fix: read adjacency and CSR files into a COO when
 labels and ordinals differ in size

The intermediate CSR used the label storage for its offsets.
---
 include/pigo/impl/coo.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index dc297a6..b554474 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -48,7 +48,7 @@ namespace pigo {
         } else if (ft_used == PIGO_CSR_BIN ||
                 ft_used == GRAPH) {
             // First build a CSR, then convert to a COO
-            CSR<L,O,S,S,wgt,W,WS> csr {f, ft_used};
+            CSR<L,O,L*,O*,wgt,W,W*> csr {f, ft_used};
             convert_csr_(csr);
             csr.free();
         } else {
-- 
2.43.0


From 25640bb4839fa5dabd00d608f29a1095e57995a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 25/56] fix: do not read weights from a destroyed copy when
 converting a CSR to a COO

---
 include/pigo/impl/coo.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index b554474..c15eed1 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -100,7 +100,7 @@ namespace pigo {
 
         CW* weights = nullptr;
         if (detail::if_true_<wgt>()) {
-            auto storage_weights = csr.weights();
+            auto& storage_weights = csr.weights();
             weights = (CW*)detail::get_raw_data_(storage_weights);
         }
 
-- 
2.43.0


From 4a472a5c20b98df97fcf73a088b137df3701effc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:14 +0000
Subject: [PATCH 26/56] fix: refuse text entries that lack their weight instead
 of leaving them unset

---
 include/pigo/impl/coo.impl.hpp    | 9 ++++++++-
 include/pigo/impl/tensor.impl.hpp | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index c15eed1..9d53f55 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -427,8 +427,9 @@ namespace pigo {
 
         L max_row = 0;
         L max_col = 0;
+        size_t missing = 0;
         #pragma omp parallel reduction(max : max_row) \
-                reduction(max : max_col)
+                reduction(max : max_col) reduction(+ : missing)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -494,6 +495,12 @@ namespace pigo {
             while (rs_p2.good()) {
                 read_coord_entry_<false>(coord_pos, rs_p2, max_row, max_col);
             }
+            // Entries are left without values if weights are missing
+            missing += nl_offsets[tid] - coord_pos;
+        }
+        if (missing > 0) {
+            free();
+            throw Error("Found incomplete entries");
         }
 
         // Set the number of labels in the matrix represented by the COO
diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index fa8ead4..f1f9533 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -133,7 +133,8 @@ namespace pigo {
 
         std::vector<size_t> nl_offsets(num_threads);
 
-        #pragma omp parallel
+        size_t missing = 0;
+        #pragma omp parallel reduction(+ : missing)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -199,6 +200,12 @@ namespace pigo {
             while (rs_p2.good() && coord_pos < nl_offsets[tid]) {
                 read_coord_entry_<false>(coord_pos, rs_p2);
             }
+            // Entries are left without values if they are incomplete
+            missing += nl_offsets[tid] - coord_pos;
+        }
+        if (missing > 0) {
+            free();
+            throw Error("Found incomplete entries");
         }
     }
 
-- 
2.43.0


From 48b349059e32ad46809701c575af62abfc354e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 27/56] fix: save a CSR that was never given any storage

---
 include/pigo/impl/csr.impl.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index c43a12e..24d1f43 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -496,7 +496,10 @@ namespace pigo {
 
         // Output the data
         char* voff = detail::get_raw_data_<OS>(offsets_);
-        w.parallel_write(voff, voff_size);
+        if (voff != nullptr)
+            w.parallel_write(voff, voff_size);
+        else
+            w.write((O)0);                  // an empty CSR has no storage
 
         char* vend = detail::get_raw_data_<LS>(endpoints_);
         w.parallel_write(vend, vend_size);
-- 
2.43.0


From b4b7ec0cf4330ce9566145c69469fab7a3011ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 28/56] fix: refuse a CSR binary whose offsets do not delimit
 its rows

---
 include/pigo/impl/csr.impl.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 24d1f43..eb5494a 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -551,6 +551,23 @@ namespace pigo {
             char* wend = detail::get_raw_data_<WS>(weights_);
             f.parallel_read(wend, w_size);
         }
+
+        // The rows have to cover all of the endpoints in order
+        const L rows = stored_rows_();
+        size_t invalid = 0;
+        if (detail::get_value_<OS, O>(offsets_, 0) != 0 ||
+                detail::get_value_<OS, O>(offsets_, rows) != m_)
+            ++invalid;
+        #pragma omp parallel for reduction(+ : invalid)
+        for (L v = 0; v < rows; ++v) {
+            if (detail::get_value_<OS, O>(offsets_, v) >
+                    detail::get_value_<OS, O>(offsets_, (size_t)v+1))
+                ++invalid;
+        }
+        if (invalid > 0) {
+            free();
+            throw Error("Invalid offsets in CSR binary");
+        }
     }
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
-- 
2.43.0


From 0b604ea4dd52e6de3c27d9e1c264e5a351d327fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 29/56] fix: refuse to convert a COO with labels that have no
 row

---
 include/pigo/impl/csr.impl.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index eb5494a..441ca33 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -149,7 +149,9 @@ namespace pigo {
         // Each thread will compute the degrees for each label on its own.
         // This is then used to reduce them all
         O* all_degs = new O[rows];
-        #pragma omp parallel shared(all_degs) shared(label_degs) shared(start_offsets)
+        // Labels without a row cannot be stored
+        size_t invalid = 0;
+        #pragma omp parallel shared(invalid) shared(all_degs) shared(label_degs) shared(start_offsets)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -172,6 +174,7 @@ namespace pigo {
             #pragma omp for
             for (O x_id = 0; x_id < m_; ++x_id) {
                 size_t deg_inc = detail::get_value_<COOStorage, L>(coo_x, x_id);
+                if (deg_inc >= (size_t)rows) continue;
                 #pragma omp atomic
                 ++all_degs[deg_inc];
             }
@@ -229,10 +232,14 @@ namespace pigo {
             // position
 
             // Finally, copy over the actual endpoints
-            #pragma omp for
+            #pragma omp for reduction(+ : invalid)
             for (O coo_pos = 0; coo_pos < m_; ++coo_pos) {
                 L src = detail::get_value_<COOStorage, L>(coo_x, coo_pos);
                 L dst = detail::get_value_<COOStorage, L>(coo_y, coo_pos);
+                if ((size_t)src >= (size_t)rows) {
+                    ++invalid;
+                    continue;
+                }
 
                 O this_offset_pos;
                 #pragma omp atomic capture
@@ -251,6 +258,10 @@ namespace pigo {
         delete [] start_offsets;
         delete [] all_degs;
 
+        if (invalid > 0) {
+            free();
+            throw Error("Found labels without a row");
+        }
     }
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
-- 
2.43.0


From 553e6d0b01e3b5721a490d3c91fdc1f95d674d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:44 +0000
Subject: [PATCH 30/56] fix: DiGraph n(), nrows() and ncols() return the vertex
 type, not the edge counter type

---
 include/pigo/graph.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/pigo/graph.hpp b/include/pigo/graph.hpp
index afc9be3..8131862 100644
--- a/include/pigo/graph.hpp
+++ b/include/pigo/graph.hpp
@@ -296,13 +296,13 @@ namespace pigo {
             edge_ctr_t m() { return out_.m(); }
 
             /** @brief Return the number of vertices */
-            edge_ctr_t n() { return out_.n(); }
+            vertex_t n() { return out_.n(); }
 
             /** @brief Return the number of rows */
-            edge_ctr_t nrows() { return out_.nrows(); }
+            vertex_t nrows() { return out_.nrows(); }
 
             /** @brief Return the number of columns */
-            edge_ctr_t ncols() { return out_.ncols(); }
+            vertex_t ncols() { return out_.ncols(); }
 
             /** @brief Return the out-edges */
             BaseGraph<
-- 
2.43.0


From df4ff50aa2d9dce5684a1b419103de55cbc6ce0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 31/56] fix: a long fraction does not overflow the floating
 point value read

---
 include/pigo/impl/pigo.impl.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index cd113ee..d0b9617 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -365,9 +365,12 @@ namespace pigo {
             size_t fraction_count = 0;
             // Read the 'B' part
             while (d < end && (*d >= '0' && *d <= '9')) {
-                fraction = fraction*10. + (T)(*d-'0');
+                // Skip digits beyond the precision, to not overflow
+                if (fraction < 1e18) {
+                    fraction = fraction*10. + (T)(*d-'0');
+                    ++fraction_count;
+                }
                 ++d;
-                ++fraction_count;
             }
             res += fraction / std::pow(10., fraction_count);
         }
-- 
2.43.0


From 209ac217aea22657d2c6f896206dcb9643833cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 32/56] fix: Matrix nrows() and ncols() return the label type,
 not the ordinal type

---
 include/pigo/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pigo/matrix.hpp b/include/pigo/matrix.hpp
index 3a3d057..674915b 100644
--- a/include/pigo/matrix.hpp
+++ b/include/pigo/matrix.hpp
@@ -202,10 +202,10 @@ namespace pigo {
             }
 
             /** @brief Return the number of rows */
-            Ordinal nrows() { return csr_.nrows(); }
+            Label nrows() { return csr_.nrows(); }
 
             /** @brief Return the number of columns */
-            Ordinal ncols() { return csr_.ncols(); }
+            Label ncols() { return csr_.ncols(); }
 
             /** @brief Return the CSR */
             CSR<
-- 
2.43.0


From c1812af161ce7bf462b6fb37036a22c7ed74e2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:34 +0000
Subject: [PATCH 33/56] fix: bring the single-header release up to date with
 the sources

---
 release/pigo.hpp | 501 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 318 insertions(+), 183 deletions(-)

diff --git a/release/pigo.hpp b/release/pigo.hpp
index a5a106f..e1ab3f9 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -41,6 +41,7 @@
 #include <atomic>
 #include <cmath>
 #include <cstring>
+#include <exception>
 #include <fcntl.h>
 #include <memory>
 #include <omp.h>
@@ -133,7 +134,7 @@ namespace pigo {
              */
             template<typename T>
             T read_sign() {
-                if (*d == '-') return (T)(-1);
+                if (d < end && *d == '-') return (T)(-1);
                 return (T)1;
             }
 
@@ -274,9 +275,9 @@ namespace pigo {
              * @return true if the reader is at a '0' integer
              */
             bool at_zero() {
-                if (d >= end+1) return false;
+                if (d >= end) return false;
                 if (*d != '0') return false;
-                if (*(d+1) >= '0' && *(d+1) <= '9') return false;
+                if (d+1 < end && *(d+1) >= '0' && *(d+1) <= '9') return false;
                 return true;
             }
 
@@ -334,6 +335,12 @@ namespace pigo {
             FilePos fp_;
             /** The filename */
             std::string fn_;
+
+            /** @brief Ensure that there is enough left in the file
+             *
+             * @param needed the number of bytes about to be accessed
+             */
+            void check_left_(size_t needed);
         public:
             /** @brief Opens the given file
              *
@@ -357,6 +364,9 @@ namespace pigo {
             File(File &&o) {
                 data_ = o.data_;
                 size_ = o.size_;
+                fp_ = o.fp_;
+                fn_ = std::move(o.fn_);
+                o.data_ = nullptr;
             }
 
             /** @brief Move operator */
@@ -593,6 +603,7 @@ namespace pigo {
         struct free_impl_<true, T, true, false, false> {
             static void op_(T& it) {
                 free(it);
+                it = nullptr;
             }
         };
 
@@ -1307,6 +1318,13 @@ namespace pigo {
             /** @brief Allocate the storage for the CSR */
             void allocate_();
 
+            /** @brief The number of rows with stored offsets
+             *
+             * This is the number of labels, or the number of rows if it
+             * is larger: when labels start at one, row zero is empty.
+             */
+            Label stored_rows_() const { return nrows_ > n_ ? nrows_ : n_; }
+
             /** @brief Convert a COO into this CSR
              *
              * @tparam COOLabel the label for the COO format
@@ -1327,7 +1345,8 @@ namespace pigo {
                     coo);
         public:
             /** @brief Initialize an empty CSR */
-            CSR() : n_(0), m_(0), nrows_(0), ncols_(0) { }
+            CSR() : endpoints_(), offsets_(), weights_(),
+                    n_(0), m_(0), nrows_(0), ncols_(0) { }
 
             /** @brief Allocate a CSR for the given size */
             CSR(Label n, Ordinal m, Label nrows, Label ncols) :
@@ -1740,10 +1759,10 @@ namespace pigo {
             }
 
             /** @brief Return the number of rows */
-            Ordinal nrows() { return csr_.nrows(); }
+            Label nrows() { return csr_.nrows(); }
 
             /** @brief Return the number of columns */
-            Ordinal ncols() { return csr_.ncols(); }
+            Label ncols() { return csr_.ncols(); }
 
             /** @brief Return the CSR */
             CSR<
@@ -2053,13 +2072,13 @@ namespace pigo {
             edge_ctr_t m() { return out_.m(); }
 
             /** @brief Return the number of vertices */
-            edge_ctr_t n() { return out_.n(); }
+            vertex_t n() { return out_.n(); }
 
             /** @brief Return the number of rows */
-            edge_ctr_t nrows() { return out_.nrows(); }
+            vertex_t nrows() { return out_.nrows(); }
 
             /** @brief Return the number of columns */
-            edge_ctr_t ncols() { return out_.ncols(); }
+            vertex_t ncols() { return out_.ncols(); }
 
             /** @brief Return the out-edges */
             BaseGraph<
@@ -3013,7 +3032,10 @@ namespace pigo {
         // MMAP the space
         data_ = (char*)mmap(NULL, size_*sizeof(char), prot,
                 MAP_SHARED | MAP_NORESERVE, fd, 0);
-        if (data_ == MAP_FAILED) throw Error("PIGO: MMAP");
+        if (data_ == MAP_FAILED) {
+            fclose(f);
+            throw Error("PIGO: MMAP");
+        }
         if (fclose(f) != 0) throw Error("PIGO: Fclose");
 
         // Advise the mmap for performance
@@ -3038,14 +3060,34 @@ namespace pigo {
                 munmap(data_, size_);
             data_ = o.data_;
             size_ = o.size_;
+            fp_ = o.fp_;
+            fn_ = std::move(o.fn_);
             o.data_ = nullptr;
         }
         return *this;
     }
 
+    namespace detail {
+        /** The size of an object as written in binary */
+        template<class T>
+        inline
+        size_t binary_size_(const T&) { return sizeof(T); }
+
+        /** Strings are written without their terminator */
+        inline
+        size_t binary_size_(const std::string& s) { return s.size(); }
+    }
+
+    inline
+    void File::check_left_(size_t needed) {
+        if ((size_t)(data_ + size_ - fp_) < needed)
+            throw Error("Attempting to go beyond the end of the file");
+    }
+
     template<class T>
     inline
     T File::read() {
+        check_left_(sizeof(T));
         return ::pigo::read<T>(fp_);
     }
 
@@ -3060,16 +3102,19 @@ namespace pigo {
     template<class T>
     inline
     void File::write(T val) {
+        check_left_(detail::binary_size_(val));
         return ::pigo::write(fp_, val);
     }
 
     inline
     void File::parallel_write(char* v, size_t v_size) {
+        check_left_(v_size);
         ::pigo::parallel_write(fp_, v, v_size);
     }
 
     inline
     void File::parallel_read(char* v, size_t v_size) {
+        check_left_(v_size);
         ::pigo::parallel_read(fp_, v, v_size);
     }
 
@@ -3159,18 +3204,6 @@ namespace pigo {
         void write_neg_ascii(FilePos &fp, T obj) {
             if (obj < 0) pigo::write(fp, '-');
         }
-
-        template<typename T, typename std::enable_if<!std::is_signed<T>::value, bool>::type = false>
-        inline
-        T get_positive(T obj) {
-            return obj;
-        }
-        template<typename T, typename std::enable_if<std::is_signed<T>::value, bool>::type = true>
-        inline
-        T get_positive(T obj) {
-            if (obj < 0) return -obj;
-            return obj;
-        }
     }
 
     template<typename T,
@@ -3227,13 +3260,14 @@ namespace pigo {
     inline
     void write_ascii(FilePos &fp, T obj) {
         detail::write_neg_ascii(fp, obj);
-        obj = detail::get_positive(obj);
 
-        size_t num_size = write_size(obj);
+        size_t num_size = write_size(obj) - detail::neg_size(obj);
         size_t pos = num_size-1;
-        // Write out each digit
+        // Write out each digit, without negating the object: the smallest
+        // value has no positive counterpart
         do {
-            *((char*)fp+pos--) = (obj%10)+'0';
+            int digit = (int)(obj%10);
+            *((char*)fp+pos--) = (char)((digit < 0 ? -digit : digit)+'0');
             obj /= 10;
         } while (obj != 0);
         fp += num_size;
@@ -3278,10 +3312,10 @@ namespace pigo {
                     *d == 'E' || *d == '-' || *d == '+' || *d == '.')) ++d;
         // Read the size
         bool positive = true;
-        if (*d == '-') {
+        if (d < end && *d == '-') {
             positive = false;
             ++d;
-        } else if (*d == '+') ++d;
+        } else if (d < end && *d == '+') ++d;
 
         // Support a simple form of floating point integers
         // Note: this is not the most accurate or fastest strategy
@@ -3291,19 +3325,22 @@ namespace pigo {
             res = res*10. + (T)(*d-'0');
             ++d;
         }
-        if (*d == '.') {
+        if (d < end && *d == '.') {
             ++d;
             T fraction = 0.;
             size_t fraction_count = 0;
             // Read the 'B' part
             while (d < end && (*d >= '0' && *d <= '9')) {
-                fraction = fraction*10. + (T)(*d-'0');
+                // Skip digits beyond the precision, to not overflow
+                if (fraction < 1e18) {
+                    fraction = fraction*10. + (T)(*d-'0');
+                    ++fraction_count;
+                }
                 ++d;
-                ++fraction_count;
             }
             res += fraction / std::pow(10., fraction_count);
         }
-        if (*d == 'e' || *d == 'E') {
+        if (d < end && (*d == 'e' || *d == 'E')) {
             ++d;
             T exp = read_fp<T>();
             res *= std::pow(10., exp);
@@ -3344,10 +3381,10 @@ namespace pigo {
     inline
     void FileReader::move_to_first_int() {
         // Move through the non-ints and comments
-        if (*d == '%' || *d == '#') skip_comments();
+        skip_comments();
         while (d < end && (*d < '0' || *d > '9')) {
             ++d;
-            if (*d == '%' || *d == '#') skip_comments();
+            skip_comments();
         }
     }
 
@@ -3362,59 +3399,42 @@ namespace pigo {
 
     inline
     void FileReader::move_to_next_signed_int() {
-        if (*d == '+' || *d == '-') ++d;
+        if (d < end && (*d == '+' || *d == '-')) ++d;
         move_to_non_int();
 
         // Move to the next integer or signed integral value
-        if (*d == '%' || *d == '#') skip_comments();
+        skip_comments();
         while (d < end && (*d < '0' || *d > '9') && *d != '+' && *d != '-') {
             ++d;
-            if (*d == '%' || *d == '#') skip_comments();
+            skip_comments();
         }
     }
 
     inline
     size_t FileReader::count_spaces_to_eol() {
         size_t space_ct = 0;
-        // Loop until a newline
-        while (d < end && *d != '\n') {
-            // Read up to an integer, stopping once it is within an
-            // integer
-            while (d < end && *d != '\n' && *d != '%' && *d != '#' && (*d < '0' || *d > '9')) { ++d; }
-
-            // Make sure this is an integer
+        bool seen = false;
+        // Loop until a newline or a comment
+        while (d < end && *d != '\n' && *d != '%' && *d != '#') {
+            // Read up to a number
             if (*d < '0' || *d > '9') {
-                move_to_eol();
-                break;
-            }
-
-            // Read through the integer
-            while (d < end && ((*d >= '0' && *d <= '9') || *d == '.')) { ++d; }
-
-            if (*d == '\n') break;
-            if (*d == '%' || *d == '#') {
-                move_to_eol();
-                break;
+                ++d;
+                continue;
             }
 
-            // Count this as a space
-            ++space_ct;
+            // Only the space between two numbers counts
+            if (seen) ++space_ct;
+            seen = true;
 
-            // Move passed the space
-            while (*d == ' ') { ++d; };
-
-            // Check if we just counted whitespace at the end; if so,
-            // un-do the count
-            if (*d == '\n') {
-                --space_ct;
-                break;
-            }
-            if (*d == '%' || *d == '#') {
-                --space_ct;
-                move_to_eol();
-                break;
+            // Read through the number and, if there is one, its exponent
+            while (d < end && ((*d >= '0' && *d <= '9') || *d == '.')) { ++d; }
+            if (d < end && (*d == 'e' || *d == 'E')) {
+                ++d;
+                if (d < end && (*d == '+' || *d == '-')) ++d;
+                move_to_non_int();
             }
         }
+        move_to_eol();
         return space_ct;
     }
 
@@ -3427,20 +3447,16 @@ namespace pigo {
         if (d < end && *d == '\n') {
             if (at_int) return;     // We have now reached a newline
             ++d; // Move through a newline
-        }
-
-        if (*d == '%' || *d == '#') {
+            // Move through the lines that only contain a comment
             skip_comments();
-            --d;        // This will end at a newline
-            return;
         }
+
         while (d < end && (*d < '0' || *d > '9') && *d != '\n') {
-            ++d;
             if (*d == '%' || *d == '#') {
-                skip_comments();
-                --d;
+                move_to_eol();
                 return;
             }
+            ++d;
         }
     }
 
@@ -3452,7 +3468,7 @@ namespace pigo {
     inline
     bool FileReader::at_str(std::string s) {
         // Ensure the size is suitable for comparison
-        if (d + s.size() >= end) return false;
+        if (size() < s.size()) return false;
         std::string d_str { d, d+s.size() };
         return s.compare(d_str) == 0;
     }
@@ -3494,19 +3510,14 @@ namespace pigo {
             FileReader rs = r + tid_start_i;
             FileReader re = r + tid_end_i;
 
-            // Next, move to the 'real' starting point
-            re.move_to(c);
-            if (tid != 0)
-                rs.move_to(c);
             rs.smaller_end(re);
 
             FileReader rs_p1 = rs;
 
             // Now, for pass 1, count the number of characters found
             size_t tid_c = 0;
-            while (rs_p1.good()) {
-                rs_p1.move_to(c);
-                if (*rs_p1.d == c)
+            for (; rs_p1.good(); rs_p1 += 1) {
+                if (rs_p1.peek() == c)
                     ++tid_c;
             }
 
@@ -3547,10 +3558,6 @@ namespace pigo {
             FileReader rs = r + tid_start_i;
             FileReader re = r + tid_end_i;
 
-            // Next, move to the 'real' starting point
-            re.move_to(c);
-            if (tid != 0)
-                rs.move_to(c);
             rs.smaller_end(re);
 
             FileReader rs_p1 = rs;
@@ -3559,9 +3566,8 @@ namespace pigo {
             size_t tid_c = 0;
             if (tid > 0)
                 tid_c = c_offsets[tid-1];
-            while (rs_p1.good()) {
-                rs_p1.move_to(c);
-                if (*rs_p1.d == c) {
+            for (; rs_p1.good(); rs_p1 += 1) {
+                if (rs_p1.peek() == c) {
                     detail::set_value_(t_c, tid_c, rs_p1.d-r.d);
                     ++tid_c;
                 }
@@ -3678,7 +3684,7 @@ namespace pigo {
         } else if (ft_used == PIGO_CSR_BIN ||
                 ft_used == GRAPH) {
             // First build a CSR, then convert to a COO
-            CSR<L,O,S,S,wgt,W,WS> csr {f, ft_used};
+            CSR<L,O,L*,O*,wgt,W,W*> csr {f, ft_used};
             convert_csr_(csr);
             csr.free();
         } else {
@@ -3697,9 +3703,23 @@ namespace pigo {
     template <class CL, class CO, class LS, class OS, class CW, class CWS>
     void COO<L,O,S,sym,ut,sl,wgt,W,WS>::convert_csr_(CSR<CL,CO,LS,OS,wgt,CW,CWS>& csr) {
         // First, set our sizes and allocate space
-        n_ = csr.n();
+        L csr_n = csr.n();
+        L csr_rows = csr.nrows();
+        // Labels may start at one, so that there is a row for label n
+        if (csr_rows < csr_n) csr_rows = csr_n;
+        n_ = csr_n;
+        nrows_ = csr.nrows();
+        ncols_ = csr.ncols();
         m_ = csr.m();
 
+        // Mirrored or swapped entries only fit in a square matrix
+        if (detail::if_true_<sym>()) {
+            if (nrows_ < ncols_) nrows_ = ncols_;
+            else ncols_ = nrows_;
+        }
+        // All endpoints are labels as well
+        if (ncols_ > n_) n_ = ncols_;
+
         if (detail::if_true_<sym>() && !detail::if_true_<ut>())
             m_ *= 2;
         else if (!detail::if_true_<sym>() && detail::if_true_<ut>())
@@ -3716,12 +3736,12 @@ namespace pigo {
 
         CW* weights = nullptr;
         if (detail::if_true_<wgt>()) {
-            auto storage_weights = csr.weights();
+            auto& storage_weights = csr.weights();
             weights = (CW*)detail::get_raw_data_(storage_weights);
         }
 
         #pragma omp parallel for schedule(dynamic, 10240)
-        for (L v = 0; v < n_; ++v) {
+        for (L v = 0; v < csr_rows; ++v) {
             auto start = endpoints + offsets[v];
             auto end = endpoints + offsets[v+1];
             size_t coo_cur = offsets[v];
@@ -3860,20 +3880,21 @@ namespace pigo {
         /** Count-only implementation of reading a coord entry */
         template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true> {
-            static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
+            static inline void op_(S&, S&, WS& w_, size_t &coord_pos, FileReader &r, L&, L&) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
+                if (!r.good()) return;
                 L y = r.read_int<L>();
+                // A dropped entry has no position to store its weight in
+                if ((if_true_<sl>() && x == y) ||
+                        (!if_true_<sym>() && if_true_<ut>() && x > y)) {
+                    r.move_to_eol();
+                    r.move_to_next_int();
+                    return;
+                }
                 read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
-                if (!r.good()) return;
                 r.move_to_eol();
                 r.move_to_next_int();
-                if (if_true_<sl>() && x == y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
-                if (!if_true_<sym>() && if_true_<ut>() && x > y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
                 if (if_true_<sym>() && !if_true_<ut>() && x != y) ++coord_pos;
                 ++coord_pos;
             }
@@ -3885,17 +3906,18 @@ namespace pigo {
             static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
+                if (!r.good()) return;
                 L y = r.read_int<L>();
+                // A dropped entry has no position to store its weight in
+                if ((if_true_<sl>() && x == y) ||
+                        (!if_true_<sym>() && if_true_<ut>() && x > y)) {
+                    r.move_to_eol();
+                    r.move_to_next_int();
+                    return;
+                }
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
-                if (!r.good()) return;
                 r.move_to_eol();
                 r.move_to_next_int();
-                if (if_true_<sl>() && x == y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,false>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
-                if (!if_true_<sym>() && if_true_<ut>() && x > y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,false>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
                 if (if_true_<sym>() && if_true_<ut>() && x > y) std::swap(x, y);
                 set_value_(x_, coord_pos, x);
                 set_value_(y_, coord_pos, y);
@@ -3908,6 +3930,9 @@ namespace pigo {
                     set_value_(y_, coord_pos, x);
                     set_value_(x_, coord_pos, y);
                     ++coord_pos;
+                    // The mirrored entry has to fit as well
+                    if (y > max_row) max_row = y;
+                    if (x > max_col) max_col = x;
                 }
                 if (x > max_row) max_row = x;
                 if (y > max_col) max_col = y;
@@ -3933,9 +3958,9 @@ namespace pigo {
             static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
+                if (!r.good()) return;
                 L y = r.read_int<L>();
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
-                if (!r.good()) return;
                 r.move_to_eol();
                 r.move_to_next_int();
                 set_value_(x_, coord_pos, x);
@@ -3976,6 +4001,12 @@ namespace pigo {
         // Now, read out the actual contents
         read_el_(r);
 
+        // Mirrored or swapped entries only fit in a square matrix
+        if (detail::if_true_<sym>()) {
+            if (nrows < ncols) nrows = ncols;
+            else ncols = nrows;
+        }
+
         // Finally, sanity check the file
         if (nrows >= nrows_)
             nrows_ = nrows;
@@ -3990,21 +4021,18 @@ namespace pigo {
             free();
             throw Error("Too many col labels in file contradicting header");
         }
-        if (detail::if_true_<sym>()) {
-            if (nnz > 2*m_) {
-                free();
-                throw Error("Header wants more non-zeros than found");
-            }
-        } else if (detail::if_true_<sl>()) {
-            if (nnz > m_) {
-                free();
-                throw Error("Header wants more non-zeros than read");
-            }
-        } else {
-            if (nnz != m_) {
-                free();
-                throw Error("Header contradicts number of read non-zeros");
-            }
+        // Mirroring can double the entries, while removing self loops or
+        // keeping one triangle can remove any number of them
+        const bool mirrors = detail::if_true_<sym>() && !detail::if_true_<ut>();
+        const bool drops = detail::if_true_<sl>() ||
+            (detail::if_true_<ut>() && !detail::if_true_<sym>());
+        if (!drops && m_ < nnz) {
+            free();
+            throw Error("Header wants more non-zeros than found");
+        }
+        if ((mirrors ? m_/2 : m_) > nnz) {
+            free();
+            throw Error("Header contradicts number of read non-zeros");
         }
 
         if (nrows_ > ncols_) n_ = nrows_;
@@ -4035,8 +4063,9 @@ namespace pigo {
 
         L max_row = 0;
         L max_col = 0;
+        size_t missing = 0;
         #pragma omp parallel reduction(max : max_row) \
-                reduction(max : max_col)
+                reduction(max : max_col) reduction(+ : missing)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -4102,6 +4131,12 @@ namespace pigo {
             while (rs_p2.good()) {
                 read_coord_entry_<false>(coord_pos, rs_p2, max_row, max_col);
             }
+            // Entries are left without values if weights are missing
+            missing += nl_offsets[tid] - coord_pos;
+        }
+        if (missing > 0) {
+            free();
+            throw Error("Found incomplete entries");
         }
 
         // Set the number of labels in the matrix represented by the COO
@@ -4178,6 +4213,12 @@ namespace pigo {
         n_ = f.read<L>();
         m_ = f.read<O>();
 
+        // Do not trust the sizes beyond what the file can hold
+        if ((size_t)m_ > f.size()/sizeof(L)) {
+            m_ = 0;
+            throw Error("Truncated COO binary");
+        }
+
         // Allocate space
         allocate_();
 
@@ -4220,7 +4261,9 @@ namespace pigo {
 
         std::vector<size_t> pos_offsets(num_threads+1);
         std::shared_ptr<File> f;
-        #pragma omp parallel shared(f) shared(pos_offsets)
+        // An exception must not leave the parallel region
+        std::exception_ptr f_error;
+        #pragma omp parallel shared(f) shared(f_error) shared(pos_offsets)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -4262,16 +4305,22 @@ namespace pigo {
                     pos_offsets[thread] = pos_offsets[thread-1] + pos_offsets[thread];
 
                 // Allocate the file
-                f = std::make_shared<File>(fn, WRITE, pos_offsets[num_threads]);
+                try {
+                    f = std::make_shared<File>(fn, WRITE, pos_offsets[num_threads]);
+                } catch (...) {
+                    f_error = std::current_exception();
+                }
             }
 
             #pragma omp barrier
 
-            FilePos my_fp = f->fp()+pos_offsets[tid];
+            // Without a file there is nothing to write to
+            FilePos my_fp = f ? f->fp()+pos_offsets[tid] : nullptr;
+            O write_m = f ? m_ : 0;
 
             // Perform the second pass, actually writing out to the file
             #pragma omp for
-            for (O e = 0; e < m_; ++e) {
+            for (O e = 0; e < write_m; ++e) {
                 auto x = detail::get_value_<S, L>(x_, e);
                 write_ascii(my_fp, x);
                 pigo::write(my_fp, ' ');
@@ -4285,6 +4334,8 @@ namespace pigo {
                 pigo::write(my_fp, '\n');
             }
         }
+
+        if (f_error) std::rethrow_exception(f_error);
     }
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
@@ -4345,7 +4396,7 @@ namespace pigo {
     void CSR<L,O,LS,OS,wgt,W,WS>::allocate_() {
         detail::allocate_mem_<LS>(endpoints_, m_);
         detail::allocate_mem_<WS,wgt>(weights_, m_);
-        detail::allocate_mem_<OS>(offsets_, n_+1);
+        detail::allocate_mem_<OS>(offsets_, stored_rows_()+1);
     }
     namespace detail {
         template<bool wgt, class W, class WS, class COOW, class COOWS, class O>
@@ -4415,15 +4466,18 @@ namespace pigo {
 
         // Temporarily keep track of the degree for each label (this can
         // easily be computed later)
-        O* label_degs = new O[n_];
+        const L rows = stored_rows_();
+        O* label_degs = new O[rows];
 
         // Keep track of the starting offsets for each thread
         O* start_offsets = new O[num_threads];
 
         // Each thread will compute the degrees for each label on its own.
         // This is then used to reduce them all
-        O* all_degs = new O[n_];
-        #pragma omp parallel shared(all_degs) shared(label_degs) shared(start_offsets)
+        O* all_degs = new O[rows];
+        // Labels without a row cannot be stored
+        size_t invalid = 0;
+        #pragma omp parallel shared(invalid) shared(all_degs) shared(label_degs) shared(start_offsets)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -4431,12 +4485,12 @@ namespace pigo {
             size_t tid = 0;
             #endif
 
-            L v_start = (tid*n_)/num_threads;
-            L v_end = ((tid+1)*n_)/num_threads;
+            L v_start = (tid*rows)/num_threads;
+            L v_end = ((tid+1)*rows)/num_threads;
             // We need to initialize degrees to count for zero-degree
             // vertices
             #pragma omp for
-            for (L v = 0; v < n_; ++v)
+            for (L v = 0; v < rows; ++v)
                 all_degs[v] = 0;
 
             auto coo_x = coo.x();
@@ -4446,6 +4500,7 @@ namespace pigo {
             #pragma omp for
             for (O x_id = 0; x_id < m_; ++x_id) {
                 size_t deg_inc = detail::get_value_<COOStorage, L>(coo_x, x_id);
+                if (deg_inc >= (size_t)rows) continue;
                 #pragma omp atomic
                 ++all_degs[deg_inc];
             }
@@ -4492,7 +4547,7 @@ namespace pigo {
             {
                 // Patch the last offset to the end, making for easier
                 // degree computation and iteration
-                detail::set_value_(offsets_, n_, m_);
+                detail::set_value_(offsets_, rows, m_);
             }
 
             #pragma omp barrier
@@ -4503,10 +4558,14 @@ namespace pigo {
             // position
 
             // Finally, copy over the actual endpoints
-            #pragma omp for
+            #pragma omp for reduction(+ : invalid)
             for (O coo_pos = 0; coo_pos < m_; ++coo_pos) {
                 L src = detail::get_value_<COOStorage, L>(coo_x, coo_pos);
                 L dst = detail::get_value_<COOStorage, L>(coo_y, coo_pos);
+                if ((size_t)src >= (size_t)rows) {
+                    ++invalid;
+                    continue;
+                }
 
                 O this_offset_pos;
                 #pragma omp atomic capture
@@ -4525,6 +4584,10 @@ namespace pigo {
         delete [] start_offsets;
         delete [] all_degs;
 
+        if (invalid > 0) {
+            free();
+            throw Error("Found labels without a row");
+        }
     }
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
@@ -4549,7 +4612,8 @@ namespace pigo {
         r.move_to_next_int();
         O read_m = r.read_int<O>();
         r.move_to_eol();
-        r.move_to_next_int();
+        // The first row starts right after the header and may be empty
+        r.move_to_next_int_or_nl();
 
         // This takes two passes:
         // first, count the number of newlines and integers to allocate
@@ -4559,7 +4623,8 @@ namespace pigo {
         std::vector<size_t> nl_offsets(num_threads);
         std::vector<size_t> int_offsets(num_threads);
         std::vector<L> max_labels(num_threads);
-        std::vector<bool> have_zeros(num_threads, false);
+        // Separate objects, unlike the bits of a std::vector<bool>
+        std::vector<char> have_zeros(num_threads, false);
         bool have_zero;
         #pragma omp parallel shared(have_zero) shared(have_zeros)
         {
@@ -4576,12 +4641,14 @@ namespace pigo {
             FileReader rs = r + tid_start_i;
             FileReader re = r + tid_end_i;
 
-            // Now, move to the appropriate starting point
+            // Now, move to the appropriate starting point. Moving off of
+            // the current line first ensures that it is not in a comment
+            re.move_to_eol();
             re.move_to_next_int();
             if (tid != 0) {
+                rs.move_to_eol();
                 rs.move_to_next_int();
-            } else
-                rs.move_to_first_int();
+            }
 
             // Set our file reader to end either at the full end or at
             // the thread id local end
@@ -4592,11 +4659,13 @@ namespace pigo {
             size_t tid_nls = 0;
             size_t tid_ints = 0;
             bool my_have_zero = false;
+            bool in_row = false;
             while (rs_p1.good()) {
-                if (rs_p1.at_nl_or_eol())
-                    ++tid_nls;
-                else
+                in_row = !rs_p1.at_nl_or_eol();
+                if (in_row)
                     ++tid_ints;
+                else
+                    ++tid_nls;
                 // Determine if this is a 0
                 if (rs_p1.at_zero() && !my_have_zero)
                     my_have_zero = true;
@@ -4606,6 +4675,9 @@ namespace pigo {
             if (my_have_zero) {
                 have_zeros[tid] = true;
             }
+            // The last row may not have a newline
+            if (in_row && rs_p1.d == r.d + size)
+                ++tid_nls;
 
             #pragma omp barrier
             #pragma omp single
@@ -4673,22 +4745,31 @@ namespace pigo {
                     detail::set_value_(offsets_, ++offset_pos, endpoint_pos);
                     rs_p2.move_to_next_int_or_nl();
                 } else {
-                    // Set the actual value
-                    L endpoint = rs_p2.read_int<L>();
+                    // Set the actual value, moving as in the first pass
+                    FileReader rs_val = rs_p2;
+                    L endpoint = rs_val.read_int<L>();
                     if (endpoint > my_max)
                         my_max = endpoint;
                     detail::set_value_(endpoints_, endpoint_pos++, endpoint);
-                    if (!rs_p2.at_nl_or_eol())
-                        rs_p2.move_to_next_int_or_nl();
+                    rs_p2.move_to_next_int_or_nl();
                 }
             }
             max_labels[tid] = my_max;
         }
 
-        if (m_ == 2*read_m) {}
-        else if (m_ != read_m) throw Error("Mismatch in CSR nonzeros and header");
-        if (n_ < read_n) throw Error("Mismatch in CSR newlines and header");
-        else n_ = read_n;
+        if (m_ != 2*read_m && m_ != read_m) {
+            free();
+            throw Error("Mismatch in CSR nonzeros and header");
+        }
+        // Row zero is added when the labels start at one
+        L base = have_zero ? 0 : 1;
+        if (n_ < read_n + base) {
+            free();
+            throw Error("Mismatch in CSR newlines and header");
+        }
+        // Any further rows are not a part of the graph
+        n_ = read_n;
+        nrows_ = read_n + base;
 
         L col_max = max_labels[0];
         for (size_t thread = 1; thread < num_threads; ++thread) {
@@ -4708,7 +4789,7 @@ namespace pigo {
         // Find the size of the size of the CSR
         out_size += sizeof(L)*3+sizeof(O);
         // Finally, find the actual CSR size
-        size_t voff_size = sizeof(O)*(n_+1);
+        size_t voff_size = sizeof(O)*(stored_rows_()+1);
         size_t vend_size = sizeof(L)*m_;
         size_t w_size = detail::weight_size_<wgt, W, O>(m_);
         out_size += voff_size + vend_size + w_size;
@@ -4746,13 +4827,16 @@ namespace pigo {
         w.write(nrows_);
         w.write(ncols_);
 
-        size_t voff_size = sizeof(O)*(n_+1);
+        size_t voff_size = sizeof(O)*(stored_rows_()+1);
         size_t vend_size = sizeof(L)*m_;
         size_t w_size = detail::weight_size_<wgt, W, O>(m_);
 
         // Output the data
         char* voff = detail::get_raw_data_<OS>(offsets_);
-        w.parallel_write(voff, voff_size);
+        if (voff != nullptr)
+            w.parallel_write(voff, voff_size);
+        else
+            w.write((O)0);                  // an empty CSR has no storage
 
         char* vend = detail::get_raw_data_<LS>(endpoints_);
         w.parallel_write(vend, vend_size);
@@ -4782,10 +4866,14 @@ namespace pigo {
         nrows_ = f.read<L>();
         ncols_ = f.read<L>();
 
+        // Do not trust the sizes beyond what the file can hold
+        if ((size_t)m_ > f.size()/sizeof(L) || (size_t)stored_rows_() > f.size()/sizeof(O))
+            throw Error("Truncated CSR binary");
+
         // Allocate space
         allocate_();
 
-        size_t voff_size = sizeof(O)*(n_+1);
+        size_t voff_size = sizeof(O)*(stored_rows_()+1);
         size_t vend_size = sizeof(L)*m_;
 
         // Read out the vectors
@@ -4800,12 +4888,30 @@ namespace pigo {
             char* wend = detail::get_raw_data_<WS>(weights_);
             f.parallel_read(wend, w_size);
         }
+
+        // The rows have to cover all of the endpoints in order
+        const L rows = stored_rows_();
+        size_t invalid = 0;
+        if (detail::get_value_<OS, O>(offsets_, 0) != 0 ||
+                detail::get_value_<OS, O>(offsets_, rows) != m_)
+            ++invalid;
+        #pragma omp parallel for reduction(+ : invalid)
+        for (L v = 0; v < rows; ++v) {
+            if (detail::get_value_<OS, O>(offsets_, v) >
+                    detail::get_value_<OS, O>(offsets_, (size_t)v+1))
+                ++invalid;
+        }
+        if (invalid > 0) {
+            free();
+            throw Error("Invalid offsets in CSR binary");
+        }
     }
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
     void CSR<L,O,LS,OS,wgt,W,WS>::sort() {
+        const L rows = stored_rows_();
         #pragma omp parallel for schedule(dynamic, 10240)
-        for (L v = 0; v < n_; ++v) {
+        for (L v = 0; v < rows; ++v) {
             // Get the start and end range
             O start = detail::get_value_<OS, O>(offsets_, v);
             O end = detail::get_value_<OS, O>(offsets_, v+1);
@@ -4851,13 +4957,14 @@ namespace pigo {
 
         // Next, count the degrees for each vertex, excluding duplicates
         std::shared_ptr<L> degs_storage;
-        detail::allocate_mem_(degs_storage, n_);
+        const L rows = stored_rows_();
+        detail::allocate_mem_(degs_storage, rows);
         L* degs = degs_storage.get();
 
         nO new_m = 0;
 
         #pragma omp parallel for schedule(dynamic, 10240) shared(degs) reduction(+ : new_m)
-        for (L v = 0; v < n_; ++v) {
+        for (L v = 0; v < rows; ++v) {
             O start = detail::get_value_<OS, O>(offsets_, v);
             O end = detail::get_value_<OS, O>(offsets_, v+1);
             if (end-start == 0) {
@@ -4915,8 +5022,8 @@ namespace pigo {
             size_t tid = 0;
             #endif
 
-            L v_start = (tid*n_)/num_threads;
-            L v_end = ((tid+1)*n_)/num_threads;
+            L v_start = (tid*rows)/num_threads;
+            L v_end = ((tid+1)*rows)/num_threads;
 
             O my_degs = 0;
             for (L c = v_start; c < v_end; ++c) {
@@ -4954,7 +5061,7 @@ namespace pigo {
             {
                 // Patch the last offset to the end, making for easier
                 // degree computation and iteration
-                detail::set_value_(new_offsets, (nL)n_, new_m);
+                detail::set_value_(new_offsets, (nL)rows, new_m);
             }
 
             // Now, all new offsets have been assigned
@@ -4962,7 +5069,7 @@ namespace pigo {
 
         // Repeat going through the edges, copying out the endpoints
         #pragma omp parallel for schedule(dynamic, 10240)
-        for (L v = 0; v < n_; ++v) {
+        for (L v = 0; v < rows; ++v) {
             O o_start = detail::get_value_<OS, O>(offsets_, v);
             O o_end = detail::get_value_<OS, O>(offsets_, v+1);
             if (o_end-o_start == 0) continue;
@@ -5026,7 +5133,7 @@ namespace pigo {
                         weighted,
                         Weight,
                         WeightStorage
-                    > { f, AUTO };
+                    > { f, PIGO_CSR_BIN };
             out_ = BaseGraph<
                         vertex_t,
                         edge_ctr_t,
@@ -5035,7 +5142,7 @@ namespace pigo {
                         weighted,
                         Weight,
                         WeightStorage
-                    > { f, AUTO };
+                    > { f, PIGO_CSR_BIN };
         } else {
             // Build a COO, then load ourselves from it
             COO<
@@ -5131,11 +5238,13 @@ namespace pigo {
         struct read_tensor_entry_i_<L,O,S,W,WS,wgt,true> {
             static inline void op_(O order_, S&, WS&, size_t &coord_pos, FileReader &r) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    if (detail::if_true_<wgt>()) {
-                        r.move_to_next_int();
-                    } else {
-                        r.read_int<L>();
-                    }
+                    r.move_to_first_int();
+                    if (!r.good()) return;
+                    r.move_to_non_int();
+                }
+                // An entry is only complete with its weight
+                if (detail::if_true_<wgt>()) {
+                    r.move_to_first_int();
                     if (!r.good()) return;
                 }
                 r.move_to_eol();
@@ -5149,8 +5258,9 @@ namespace pigo {
         struct read_tensor_entry_i_<L,O,S,W,WS,wgt,false> {
             static inline void op_(O order_, S& c_, WS& w_, size_t &coord_pos, FileReader &r) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    L v = r.read_int<L>();
+                    r.move_to_first_int();
                     if (!r.good()) return;
+                    L v = r.read_int<L>();
                     set_value_(c_, coord_pos*order_+idx, v);
                 }
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
@@ -5197,7 +5307,8 @@ namespace pigo {
 
         std::vector<size_t> nl_offsets(num_threads);
 
-        #pragma omp parallel
+        size_t missing = 0;
+        #pragma omp parallel reduction(+ : missing)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -5259,9 +5370,16 @@ namespace pigo {
             if (tid > 0)
                 coord_pos = nl_offsets[tid-1];
 
-            while (rs_p2.good()) {
+            // An incomplete last entry is not counted and has no space
+            while (rs_p2.good() && coord_pos < nl_offsets[tid]) {
                 read_coord_entry_<false>(coord_pos, rs_p2);
             }
+            // Entries are left without values if they are incomplete
+            missing += nl_offsets[tid] - coord_pos;
+        }
+        if (missing > 0) {
+            free();
+            throw Error("Found incomplete entries");
         }
     }
 
@@ -5336,6 +5454,13 @@ namespace pigo {
         order_ = f.read<O>();
         m_ = f.read<O>();
 
+        // Do not trust the sizes beyond what the file can hold
+        if ((order_ != 0 && (size_t)m_ > f.size()/sizeof(L)/(size_t)order_) ||
+                detail::weight_size_<wgt, W, size_t>(m_) > f.size()) {
+            m_ = 0;
+            throw Error("Truncated Tensor binary");
+        }
+
         // Allocate space
         allocate_();
 
@@ -5374,7 +5499,9 @@ namespace pigo {
 
         std::vector<size_t> pos_offsets(num_threads+1);
         std::shared_ptr<File> f;
-        #pragma omp parallel shared(f) shared(pos_offsets)
+        // An exception must not leave the parallel region
+        std::exception_ptr f_error;
+        #pragma omp parallel shared(f) shared(f_error) shared(pos_offsets)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -5412,16 +5539,22 @@ namespace pigo {
                     pos_offsets[thread] = pos_offsets[thread-1] + pos_offsets[thread];
 
                 // Allocate the file
-                f = std::make_shared<File>(fn, WRITE, pos_offsets[num_threads]);
+                try {
+                    f = std::make_shared<File>(fn, WRITE, pos_offsets[num_threads]);
+                } catch (...) {
+                    f_error = std::current_exception();
+                }
             }
 
             #pragma omp barrier
 
-            FilePos my_fp = f->fp()+pos_offsets[tid];
+            // Without a file there is nothing to write to
+            FilePos my_fp = f ? f->fp()+pos_offsets[tid] : nullptr;
+            O write_m = f ? m_ : 0;
 
             // Perform the second pass, actually writing out to the file
             #pragma omp for
-            for (O e = 0; e < m_; ++e) {
+            for (O e = 0; e < write_m; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
                     auto x = detail::get_value_<S, L>(c_, e*order_+idx);
                     write_ascii(my_fp, x);
@@ -5436,6 +5569,8 @@ namespace pigo {
                 pigo::write(my_fp, '\n');
             }
         }
+
+        if (f_error) std::rethrow_exception(f_error);
     }
 
     template<class L, class O, class S, class W, class WS, bool wgt>
-- 
2.43.0


From 4ee0331183a60644dea32e56c4b18a1b2129f40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:16 +0000
Subject: [PATCH 34/56] fix: refuse an adjacency file with numbers after the
 line of its last vertex

The numbers counted as entries, but were in no row: such a CSR could not be
converted or saved and loaded again.
---
 include/pigo/impl/csr.impl.hpp | 6 +++++-
 release/pigo.hpp               | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 441ca33..fbd231b 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -441,9 +441,13 @@ namespace pigo {
             free();
             throw Error("Mismatch in CSR newlines and header");
         }
-        // Any further rows are not a part of the graph
+        // Any further rows are not a part of the graph, and so must be empty
         n_ = read_n;
         nrows_ = read_n + base;
+        if (detail::get_value_<OS, O>(offsets_, nrows_) != m_) {
+            free();
+            throw Error("Mismatch in CSR rows and header");
+        }
 
         L col_max = max_labels[0];
         for (size_t thread = 1; thread < num_threads; ++thread) {
diff --git a/release/pigo.hpp b/release/pigo.hpp
index e1ab3f9..1d3c0a1 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -4767,9 +4767,13 @@ namespace pigo {
             free();
             throw Error("Mismatch in CSR newlines and header");
         }
-        // Any further rows are not a part of the graph
+        // Any further rows are not a part of the graph, and so must be empty
         n_ = read_n;
         nrows_ = read_n + base;
+        if (detail::get_value_<OS, O>(offsets_, nrows_) != m_) {
+            free();
+            throw Error("Mismatch in CSR rows and header");
+        }
 
         L col_max = max_labels[0];
         for (size_t thread = 1; thread < num_threads; ++thread) {
-- 
2.43.0


From dcb4be82eaf4d52c0ee16238cb2f2af43e20a077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:26 +0000
Subject: [PATCH 35/56] fix: count the coordinates of a tensor in size_t

order_*m_ was computed in the type of ordinals: a copy of a tensor whose
product exceeds it lost coordinates (any 8-bit ordinal with more than 255).
---
 include/pigo/impl/tensor.impl.hpp |  8 ++++----
 include/pigo/tensor.hpp           |  2 +-
 release/pigo.hpp                  | 10 +++++-----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index f1f9533..1088a5f 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -50,7 +50,7 @@ namespace pigo {
 
     template<class L, class O, class S, class W, class WS, bool wgt>
     void Tensor<L,O,S,W,WS,wgt>::allocate_() {
-        detail::allocate_mem_<S>(c_, order_*m_);
+        detail::allocate_mem_<S>(c_, (size_t)order_*m_);
         detail::allocate_mem_<WS,wgt>(w_, m_);
     }
 
@@ -339,7 +339,7 @@ namespace pigo {
             #pragma omp for
             for (O e = 0; e < m_; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    auto x = detail::get_value_<S, L>(c_, e*order_+idx);
+                    auto x = detail::get_value_<S, L>(c_, (size_t)e*order_+idx);
                     my_size += write_size(x);
                     // Account for the separating space or newline
                     my_size += 1;
@@ -382,7 +382,7 @@ namespace pigo {
             #pragma omp for
             for (O e = 0; e < write_m; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    auto x = detail::get_value_<S, L>(c_, e*order_+idx);
+                    auto x = detail::get_value_<S, L>(c_, (size_t)e*order_+idx);
                     write_ascii(my_fp, x);
                     if (idx < order_-1)
                         pigo::write(my_fp, ' ');
@@ -429,7 +429,7 @@ namespace pigo {
             #pragma omp for
             for (O e = 0; e < m_; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    L val = c[e*order_+idx];
+                    L val = c[(size_t)e*order_+idx];
                     if (val > my_maxes[idx]) my_maxes[idx] = val;
                 }
             }
diff --git a/include/pigo/tensor.hpp b/include/pigo/tensor.hpp
index 43a1aef..55d7be8 100644
--- a/include/pigo/tensor.hpp
+++ b/include/pigo/tensor.hpp
@@ -106,7 +106,7 @@ namespace pigo {
             /** @brief Copies values from the other tensor */
             void copy_(const Tensor& other) {
                 #pragma omp parallel for
-                for (Ordinal pos = 0; pos < order_*m_; ++pos) {
+                for (size_t pos = 0; pos < (size_t)order_*m_; ++pos) {
                     Label val = detail::get_value_<
                                 Storage,
                                 Label
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 1d3c0a1..db43cb0 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -2207,7 +2207,7 @@ namespace pigo {
             /** @brief Copies values from the other tensor */
             void copy_(const Tensor& other) {
                 #pragma omp parallel for
-                for (Ordinal pos = 0; pos < order_*m_; ++pos) {
+                for (size_t pos = 0; pos < (size_t)order_*m_; ++pos) {
                     Label val = detail::get_value_<
                                 Storage,
                                 Label
@@ -5228,7 +5228,7 @@ namespace pigo {
 
     template<class L, class O, class S, class W, class WS, bool wgt>
     void Tensor<L,O,S,W,WS,wgt>::allocate_() {
-        detail::allocate_mem_<S>(c_, order_*m_);
+        detail::allocate_mem_<S>(c_, (size_t)order_*m_);
         detail::allocate_mem_<WS,wgt>(w_, m_);
     }
 
@@ -5517,7 +5517,7 @@ namespace pigo {
             #pragma omp for
             for (O e = 0; e < m_; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    auto x = detail::get_value_<S, L>(c_, e*order_+idx);
+                    auto x = detail::get_value_<S, L>(c_, (size_t)e*order_+idx);
                     my_size += write_size(x);
                     // Account for the separating space or newline
                     my_size += 1;
@@ -5560,7 +5560,7 @@ namespace pigo {
             #pragma omp for
             for (O e = 0; e < write_m; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    auto x = detail::get_value_<S, L>(c_, e*order_+idx);
+                    auto x = detail::get_value_<S, L>(c_, (size_t)e*order_+idx);
                     write_ascii(my_fp, x);
                     if (idx < order_-1)
                         pigo::write(my_fp, ' ');
@@ -5607,7 +5607,7 @@ namespace pigo {
             #pragma omp for
             for (O e = 0; e < m_; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    L val = c[e*order_+idx];
+                    L val = c[(size_t)e*order_+idx];
                     if (val > my_maxes[idx]) my_maxes[idx] = val;
                 }
             }
-- 
2.43.0


From 48a73b8d194554a0a8423b1360d530ccd66d2433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:39 +0000
Subject: [PATCH 36/56] fix: let go of the descriptor and the mapping of a file
 that cannot be opened in full

---
 include/pigo/impl/pigo.impl.hpp | 39 ++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index d0b9617..d31bdf1 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -37,8 +37,14 @@ namespace pigo {
             // Set the file to the given size
             FILE *w_f = fopen(fn.c_str(), "w");
             if (w_f == NULL) throw Error("PIGO: Unable to open file for writing");
-            if (fseeko(w_f, max_size-1, SEEK_SET) != 0) throw Error("PIGO: Seek to set size");
-            if (fputc(1, w_f) != 1) throw Error("PIGO: Unable to set size");
+            if (fseeko(w_f, max_size-1, SEEK_SET) != 0) {
+                fclose(w_f);
+                throw Error("PIGO: Seek to set size");
+            }
+            if (fputc(1, w_f) != 1) {
+                fclose(w_f);
+                throw Error("PIGO: Unable to set size");
+            }
             if (fclose(w_f) != 0) throw Error("PIGO: Unable to close new file");
         }
 
@@ -53,15 +59,26 @@ namespace pigo {
         #endif
         if (fd < 0) throw Error("Unable to open file");
         FILE *f = fdopen(fd, fopen_mode);
-        if (f == NULL) throw Error("PIGO: fdopen file");
+        if (f == NULL) {
+            close(fd);
+            throw Error("PIGO: fdopen file");
+        }
 
         // Find the file size
-        if (fseeko(f, 0 , SEEK_END) != 0)  throw Error("PIGO: Unable to seek to end");
+        if (fseeko(f, 0 , SEEK_END) != 0) {
+            fclose(f);
+            throw Error("PIGO: Unable to seek to end");
+        }
         size_ = ftello(f);
-        if (size_ == (size_t)(-1)) throw Error("PIGO: Invalid size");
+        if (size_ == (size_t)(-1)) {
+            fclose(f);
+            throw Error("PIGO: Invalid size");
+        }
 
-        if (mode == WRITE && size_ != max_size)
+        if (mode == WRITE && size_ != max_size) {
+            fclose(f);
             throw Error("PIGO: Wrong file size of new file");
+        }
 
         // MMAP the space
         data_ = (char*)mmap(NULL, size_*sizeof(char), prot,
@@ -70,10 +87,16 @@ namespace pigo {
             fclose(f);
             throw Error("PIGO: MMAP");
         }
-        if (fclose(f) != 0) throw Error("PIGO: Fclose");
+        if (fclose(f) != 0) {
+            munmap(data_, size_);
+            throw Error("PIGO: Fclose");
+        }
 
         // Advise the mmap for performance
-        if (madvise(data_, size_, MADV_WILLNEED) != 0) throw Error("PIGO: madvise");
+        if (madvise(data_, size_, MADV_WILLNEED) != 0) {
+            munmap(data_, size_);
+            throw Error("PIGO: madvise");
+        }
 
         // Finally, set the file position
         seek(0);
-- 
2.43.0


From dfd347c887e0a5523ee85bf031a38abca45c499e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:39 +0000
Subject: [PATCH 37/56] fix: report a failed allocation while reading text to
 the caller instead of terminating

---
 include/pigo/impl/coo.impl.hpp    | 14 +++++++++++---
 include/pigo/impl/csr.impl.hpp    | 22 +++++++++++++++-------
 include/pigo/impl/tensor.impl.hpp | 13 ++++++++++---
 3 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 9d53f55..783f061 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -428,8 +428,11 @@ namespace pigo {
         L max_row = 0;
         L max_col = 0;
         size_t missing = 0;
+        // An exception must not leave the parallel region
+        std::exception_ptr alloc_error;
         #pragma omp parallel reduction(max : max_row) \
-                reduction(max : max_col) reduction(+ : missing)
+                reduction(max : max_col) reduction(+ : missing) \
+                shared(alloc_error)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -481,7 +484,11 @@ namespace pigo {
 
                 // Now, allocate the space appropriately
                 m_ = nl_offsets[num_threads-1];
-                allocate_();
+                try {
+                    allocate_();
+                } catch (...) {
+                    alloc_error = std::current_exception();
+                }
             }
             #pragma omp barrier
 
@@ -492,12 +499,13 @@ namespace pigo {
             if (tid > 0)
                 coord_pos = nl_offsets[tid-1];
 
-            while (rs_p2.good()) {
+            while (!alloc_error && rs_p2.good()) {
                 read_coord_entry_<false>(coord_pos, rs_p2, max_row, max_col);
             }
             // Entries are left without values if weights are missing
             missing += nl_offsets[tid] - coord_pos;
         }
+        if (alloc_error) std::rethrow_exception(alloc_error);
         if (missing > 0) {
             free();
             throw Error("Found incomplete entries");
diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index fbd231b..9a2e918 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -5,6 +5,7 @@
 
 #include <algorithm>
 #include <atomic>
+#include <exception>
 #include <vector>
 #include <string>
 #ifdef _OPENMP
@@ -300,7 +301,9 @@ namespace pigo {
         // Separate objects, unlike the bits of a std::vector<bool>
         std::vector<char> have_zeros(num_threads, false);
         bool have_zero;
-        #pragma omp parallel shared(have_zero) shared(have_zeros)
+        // An exception must not leave the parallel region
+        std::exception_ptr alloc_error;
+        #pragma omp parallel shared(have_zero) shared(have_zeros) shared(alloc_error)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -389,11 +392,15 @@ namespace pigo {
                 m_ = int_offsets[num_threads-1];
                 n_ = nl_offsets[num_threads-1];
                 nrows_ = n_;
-                allocate_();
-                detail::set_value_(offsets_, 0, 0);
-                if (!have_zero)
-                    detail::set_value_(offsets_, 1, 0);
-                detail::set_value_(offsets_, n_, m_);
+                try {
+                    allocate_();
+                    detail::set_value_(offsets_, 0, 0);
+                    if (!have_zero)
+                        detail::set_value_(offsets_, 1, 0);
+                    detail::set_value_(offsets_, n_, m_);
+                } catch (...) {
+                    alloc_error = std::current_exception();
+                }
             }
             #pragma omp barrier
 
@@ -409,7 +416,7 @@ namespace pigo {
             } else if (!have_zero)
                 offset_pos = 1;
 
-            while (rs_p2.good()) {
+            while (!alloc_error && rs_p2.good()) {
                 // Ignore any trailing data in the file
                 if (offset_pos >= n_) break;
 
@@ -431,6 +438,7 @@ namespace pigo {
             max_labels[tid] = my_max;
         }
 
+        if (alloc_error) std::rethrow_exception(alloc_error);
         if (m_ != 2*read_m && m_ != read_m) {
             free();
             throw Error("Mismatch in CSR nonzeros and header");
diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 1088a5f..21e3bf3 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -134,7 +134,9 @@ namespace pigo {
         std::vector<size_t> nl_offsets(num_threads);
 
         size_t missing = 0;
-        #pragma omp parallel reduction(+ : missing)
+        // An exception must not leave the parallel region
+        std::exception_ptr alloc_error;
+        #pragma omp parallel reduction(+ : missing) shared(alloc_error)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -185,7 +187,11 @@ namespace pigo {
 
                 // Now, allocate the space appropriately
                 m_ = nl_offsets[num_threads-1];
-                allocate_();
+                try {
+                    allocate_();
+                } catch (...) {
+                    alloc_error = std::current_exception();
+                }
             }
             #pragma omp barrier
 
@@ -197,12 +203,13 @@ namespace pigo {
                 coord_pos = nl_offsets[tid-1];
 
             // An incomplete last entry is not counted and has no space
-            while (rs_p2.good() && coord_pos < nl_offsets[tid]) {
+            while (!alloc_error && rs_p2.good() && coord_pos < nl_offsets[tid]) {
                 read_coord_entry_<false>(coord_pos, rs_p2);
             }
             // Entries are left without values if they are incomplete
             missing += nl_offsets[tid] - coord_pos;
         }
+        if (alloc_error) std::rethrow_exception(alloc_error);
         if (missing > 0) {
             free();
             throw Error("Found incomplete entries");
-- 
2.43.0


From 178eeacf7cfcd2c379e0f9b52a2fdf2fcd993514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:39 +0000
Subject: [PATCH 38/56] fix: report a failed allocation while sorting to the
 caller instead of terminating

---
 include/pigo/impl/csr.impl.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 9a2e918..97069e0 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -596,7 +596,9 @@ namespace pigo {
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
     void CSR<L,O,LS,OS,wgt,W,WS>::sort() {
         const L rows = stored_rows_();
-        #pragma omp parallel for schedule(dynamic, 10240)
+        // An exception must not leave the parallel region
+        std::exception_ptr sort_error;
+        #pragma omp parallel for schedule(dynamic, 10240) shared(sort_error)
         for (L v = 0; v < rows; ++v) {
             // Get the start and end range
             O start = detail::get_value_<OS, O>(offsets_, v);
@@ -608,7 +610,13 @@ namespace pigo {
                 // everything. For now, make a joint array, sort that, and
                 // then pull out the resulting data
                 std::vector<std::pair<L, W>> vec;
-                vec.reserve(end-start);
+                try {
+                    vec.reserve(end-start);
+                } catch (...) {
+                    #pragma omp critical
+                    sort_error = std::current_exception();
+                    continue;
+                }
                 for (O cur = start; cur < end; ++cur) {
                     L l = detail::get_value_<LS, L>(endpoints_, cur);
                     W w = detail::get_value_<WS, W>(weights_, cur);
@@ -633,6 +641,8 @@ namespace pigo {
                 std::sort(range_start, range_end);
             }
         }
+
+        if (sort_error) std::rethrow_exception(sort_error);
     }
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
-- 
2.43.0


From 461f6a7ab0a6ff594ada6927e376c262e5613a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:39 +0000
Subject: [PATCH 39/56] fix: report a failed allocation in max_labels to the
 caller instead of terminating

---
 include/pigo/impl/tensor.impl.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 21e3bf3..20f71f4 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -421,7 +421,9 @@ namespace pigo {
         }
         #endif
 
-        std::vector<L*> maxes(num_threads);
+        // Allocate for each thread outside of the parallel region, which an
+        // exception must not leave
+        std::vector<std::vector<L>> maxes(num_threads, std::vector<L>(order_));
         #pragma omp parallel
         {
             #ifdef _OPENMP
@@ -429,8 +431,7 @@ namespace pigo {
             #else
             size_t tid = 0;
             #endif
-            L* my_maxes = new L[order_];
-            for (O idx = 0; idx < order_; ++idx) my_maxes[idx] = 0;
+            L* my_maxes = maxes[tid].data();
 
             const L* c = (const L*)detail::get_const_data_<S>(c_);
             #pragma omp for
@@ -440,15 +441,12 @@ namespace pigo {
                     if (val > my_maxes[idx]) my_maxes[idx] = val;
                 }
             }
-
-            maxes[tid] = my_maxes;
         }
 
         std::vector<L> ret(order_);
         for (size_t tid = 0; tid < num_threads; ++tid) {
             for (O idx = 0; idx < order_; ++idx)
                 if (maxes[tid][idx] > ret[idx]) ret[idx] = maxes[tid][idx];
-            delete [] maxes[tid];
         }
 
         return ret;
-- 
2.43.0


From 6194ec34a7b8e6b64e0f9edd6bebf1593b0a5dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:39 +0000
Subject: [PATCH 40/56] fix: leave a COO or Tensor empty when its storage
 cannot be allocated

---
 include/pigo/coo.hpp              |  6 +++---
 include/pigo/impl/coo.impl.hpp    | 12 +++++++++---
 include/pigo/impl/tensor.impl.hpp | 10 ++++++++--
 include/pigo/tensor.hpp           |  4 ++--
 4 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/include/pigo/coo.hpp b/include/pigo/coo.hpp
index 649a665..a7e5eb4 100644
--- a/include/pigo/coo.hpp
+++ b/include/pigo/coo.hpp
@@ -74,13 +74,13 @@ namespace pigo {
     class COO {
         private:
             /** The X value of the coordinate */
-            Storage x_;
+            Storage x_ {};
 
             /** The Y value of the coordinate */
-            Storage y_;
+            Storage y_ {};
 
             /** The weight values */
-            WeightStorage w_;
+            WeightStorage w_ {};
 
             /** The number of labels in the matrix represented */
             Label n_;
diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 783f061..6528c5d 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -145,9 +145,15 @@ namespace pigo {
 
     template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
     void COO<L,O,S,sym,ut,sl,wgt,W,WS>::allocate_() {
-        detail::allocate_mem_<S>(x_, m_);
-        detail::allocate_mem_<S>(y_, m_);
-        detail::allocate_mem_<WS,wgt>(w_, m_);
+        try {
+            detail::allocate_mem_<S>(x_, m_);
+            detail::allocate_mem_<S>(y_, m_);
+            detail::allocate_mem_<WS,wgt>(w_, m_);
+        } catch (...) {
+            // Without all of its storage, the COO is empty
+            free();
+            throw;
+        }
     }
 
     namespace detail {
diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 20f71f4..ccb6e40 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -50,8 +50,14 @@ namespace pigo {
 
     template<class L, class O, class S, class W, class WS, bool wgt>
     void Tensor<L,O,S,W,WS,wgt>::allocate_() {
-        detail::allocate_mem_<S>(c_, (size_t)order_*m_);
-        detail::allocate_mem_<WS,wgt>(w_, m_);
+        try {
+            detail::allocate_mem_<S>(c_, (size_t)order_*m_);
+            detail::allocate_mem_<WS,wgt>(w_, m_);
+        } catch (...) {
+            // Without all of its storage, the tensor is empty
+            free();
+            throw;
+        }
     }
 
     namespace detail {
diff --git a/include/pigo/tensor.hpp b/include/pigo/tensor.hpp
index 55d7be8..7234861 100644
--- a/include/pigo/tensor.hpp
+++ b/include/pigo/tensor.hpp
@@ -45,10 +45,10 @@ namespace pigo {
     class Tensor {
         private:
             /** The coordinate values */
-            Storage c_;
+            Storage c_ {};
 
             /** The weight values */
-            WeightStorage w_;
+            WeightStorage w_ {};
 
             /** The order of the tensor */
             Ordinal order_;
-- 
2.43.0


From e73d98a327afee360d45cb2d9b68ee8390661880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:39 +0000
Subject: [PATCH 41/56] fix: do not copy the storage of a COO in every thread
 when converting it

---
 include/pigo/impl/csr.impl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 97069e0..ca21ccd 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -168,9 +168,9 @@ namespace pigo {
             for (L v = 0; v < rows; ++v)
                 all_degs[v] = 0;
 
-            auto coo_x = coo.x();
-            auto coo_y = coo.y();
-            auto coo_w = coo.w();
+            auto& coo_x = coo.x();
+            auto& coo_y = coo.y();
+            auto& coo_w = coo.w();
 
             #pragma omp for
             for (O x_id = 0; x_id < m_; ++x_id) {
-- 
2.43.0


From 2a97473547eb3f83b6c1b9133485b5f274ff9a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:09 +0000
Subject: [PATCH 42/56] fix: bring the single-header release up to date with
 the sources

---
 release/pigo.hpp | 149 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 107 insertions(+), 42 deletions(-)

diff --git a/release/pigo.hpp b/release/pigo.hpp
index db43cb0..3c52a67 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -906,13 +906,13 @@ namespace pigo {
     class COO {
         private:
             /** The X value of the coordinate */
-            Storage x_;
+            Storage x_ {};
 
             /** The Y value of the coordinate */
-            Storage y_;
+            Storage y_ {};
 
             /** The weight values */
-            WeightStorage w_;
+            WeightStorage w_ {};
 
             /** The number of labels in the matrix represented */
             Label n_;
@@ -2146,10 +2146,10 @@ namespace pigo {
     class Tensor {
         private:
             /** The coordinate values */
-            Storage c_;
+            Storage c_ {};
 
             /** The weight values */
-            WeightStorage w_;
+            WeightStorage w_ {};
 
             /** The order of the tensor */
             Ordinal order_;
@@ -3003,8 +3003,14 @@ namespace pigo {
             // Set the file to the given size
             FILE *w_f = fopen(fn.c_str(), "w");
             if (w_f == NULL) throw Error("PIGO: Unable to open file for writing");
-            if (fseeko(w_f, max_size-1, SEEK_SET) != 0) throw Error("PIGO: Seek to set size");
-            if (fputc(1, w_f) != 1) throw Error("PIGO: Unable to set size");
+            if (fseeko(w_f, max_size-1, SEEK_SET) != 0) {
+                fclose(w_f);
+                throw Error("PIGO: Seek to set size");
+            }
+            if (fputc(1, w_f) != 1) {
+                fclose(w_f);
+                throw Error("PIGO: Unable to set size");
+            }
             if (fclose(w_f) != 0) throw Error("PIGO: Unable to close new file");
         }
 
@@ -3019,15 +3025,26 @@ namespace pigo {
         #endif
         if (fd < 0) throw Error("Unable to open file");
         FILE *f = fdopen(fd, fopen_mode);
-        if (f == NULL) throw Error("PIGO: fdopen file");
+        if (f == NULL) {
+            close(fd);
+            throw Error("PIGO: fdopen file");
+        }
 
         // Find the file size
-        if (fseeko(f, 0 , SEEK_END) != 0)  throw Error("PIGO: Unable to seek to end");
+        if (fseeko(f, 0 , SEEK_END) != 0) {
+            fclose(f);
+            throw Error("PIGO: Unable to seek to end");
+        }
         size_ = ftello(f);
-        if (size_ == (size_t)(-1)) throw Error("PIGO: Invalid size");
+        if (size_ == (size_t)(-1)) {
+            fclose(f);
+            throw Error("PIGO: Invalid size");
+        }
 
-        if (mode == WRITE && size_ != max_size)
+        if (mode == WRITE && size_ != max_size) {
+            fclose(f);
             throw Error("PIGO: Wrong file size of new file");
+        }
 
         // MMAP the space
         data_ = (char*)mmap(NULL, size_*sizeof(char), prot,
@@ -3036,10 +3053,16 @@ namespace pigo {
             fclose(f);
             throw Error("PIGO: MMAP");
         }
-        if (fclose(f) != 0) throw Error("PIGO: Fclose");
+        if (fclose(f) != 0) {
+            munmap(data_, size_);
+            throw Error("PIGO: Fclose");
+        }
 
         // Advise the mmap for performance
-        if (madvise(data_, size_, MADV_WILLNEED) != 0) throw Error("PIGO: madvise");
+        if (madvise(data_, size_, MADV_WILLNEED) != 0) {
+            munmap(data_, size_);
+            throw Error("PIGO: madvise");
+        }
 
         // Finally, set the file position
         seek(0);
@@ -3781,9 +3804,15 @@ namespace pigo {
 
     template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
     void COO<L,O,S,sym,ut,sl,wgt,W,WS>::allocate_() {
-        detail::allocate_mem_<S>(x_, m_);
-        detail::allocate_mem_<S>(y_, m_);
-        detail::allocate_mem_<WS,wgt>(w_, m_);
+        try {
+            detail::allocate_mem_<S>(x_, m_);
+            detail::allocate_mem_<S>(y_, m_);
+            detail::allocate_mem_<WS,wgt>(w_, m_);
+        } catch (...) {
+            // Without all of its storage, the COO is empty
+            free();
+            throw;
+        }
     }
 
     namespace detail {
@@ -4064,8 +4093,11 @@ namespace pigo {
         L max_row = 0;
         L max_col = 0;
         size_t missing = 0;
+        // An exception must not leave the parallel region
+        std::exception_ptr alloc_error;
         #pragma omp parallel reduction(max : max_row) \
-                reduction(max : max_col) reduction(+ : missing)
+                reduction(max : max_col) reduction(+ : missing) \
+                shared(alloc_error)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -4117,7 +4149,11 @@ namespace pigo {
 
                 // Now, allocate the space appropriately
                 m_ = nl_offsets[num_threads-1];
-                allocate_();
+                try {
+                    allocate_();
+                } catch (...) {
+                    alloc_error = std::current_exception();
+                }
             }
             #pragma omp barrier
 
@@ -4128,12 +4164,13 @@ namespace pigo {
             if (tid > 0)
                 coord_pos = nl_offsets[tid-1];
 
-            while (rs_p2.good()) {
+            while (!alloc_error && rs_p2.good()) {
                 read_coord_entry_<false>(coord_pos, rs_p2, max_row, max_col);
             }
             // Entries are left without values if weights are missing
             missing += nl_offsets[tid] - coord_pos;
         }
+        if (alloc_error) std::rethrow_exception(alloc_error);
         if (missing > 0) {
             free();
             throw Error("Found incomplete entries");
@@ -4493,9 +4530,9 @@ namespace pigo {
             for (L v = 0; v < rows; ++v)
                 all_degs[v] = 0;
 
-            auto coo_x = coo.x();
-            auto coo_y = coo.y();
-            auto coo_w = coo.w();
+            auto& coo_x = coo.x();
+            auto& coo_y = coo.y();
+            auto& coo_w = coo.w();
 
             #pragma omp for
             for (O x_id = 0; x_id < m_; ++x_id) {
@@ -4626,7 +4663,9 @@ namespace pigo {
         // Separate objects, unlike the bits of a std::vector<bool>
         std::vector<char> have_zeros(num_threads, false);
         bool have_zero;
-        #pragma omp parallel shared(have_zero) shared(have_zeros)
+        // An exception must not leave the parallel region
+        std::exception_ptr alloc_error;
+        #pragma omp parallel shared(have_zero) shared(have_zeros) shared(alloc_error)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -4715,11 +4754,15 @@ namespace pigo {
                 m_ = int_offsets[num_threads-1];
                 n_ = nl_offsets[num_threads-1];
                 nrows_ = n_;
-                allocate_();
-                detail::set_value_(offsets_, 0, 0);
-                if (!have_zero)
-                    detail::set_value_(offsets_, 1, 0);
-                detail::set_value_(offsets_, n_, m_);
+                try {
+                    allocate_();
+                    detail::set_value_(offsets_, 0, 0);
+                    if (!have_zero)
+                        detail::set_value_(offsets_, 1, 0);
+                    detail::set_value_(offsets_, n_, m_);
+                } catch (...) {
+                    alloc_error = std::current_exception();
+                }
             }
             #pragma omp barrier
 
@@ -4735,7 +4778,7 @@ namespace pigo {
             } else if (!have_zero)
                 offset_pos = 1;
 
-            while (rs_p2.good()) {
+            while (!alloc_error && rs_p2.good()) {
                 // Ignore any trailing data in the file
                 if (offset_pos >= n_) break;
 
@@ -4757,6 +4800,7 @@ namespace pigo {
             max_labels[tid] = my_max;
         }
 
+        if (alloc_error) std::rethrow_exception(alloc_error);
         if (m_ != 2*read_m && m_ != read_m) {
             free();
             throw Error("Mismatch in CSR nonzeros and header");
@@ -4914,7 +4958,9 @@ namespace pigo {
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
     void CSR<L,O,LS,OS,wgt,W,WS>::sort() {
         const L rows = stored_rows_();
-        #pragma omp parallel for schedule(dynamic, 10240)
+        // An exception must not leave the parallel region
+        std::exception_ptr sort_error;
+        #pragma omp parallel for schedule(dynamic, 10240) shared(sort_error)
         for (L v = 0; v < rows; ++v) {
             // Get the start and end range
             O start = detail::get_value_<OS, O>(offsets_, v);
@@ -4926,7 +4972,13 @@ namespace pigo {
                 // everything. For now, make a joint array, sort that, and
                 // then pull out the resulting data
                 std::vector<std::pair<L, W>> vec;
-                vec.reserve(end-start);
+                try {
+                    vec.reserve(end-start);
+                } catch (...) {
+                    #pragma omp critical
+                    sort_error = std::current_exception();
+                    continue;
+                }
                 for (O cur = start; cur < end; ++cur) {
                     L l = detail::get_value_<LS, L>(endpoints_, cur);
                     W w = detail::get_value_<WS, W>(weights_, cur);
@@ -4951,6 +5003,8 @@ namespace pigo {
                 std::sort(range_start, range_end);
             }
         }
+
+        if (sort_error) std::rethrow_exception(sort_error);
     }
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
@@ -5228,8 +5282,14 @@ namespace pigo {
 
     template<class L, class O, class S, class W, class WS, bool wgt>
     void Tensor<L,O,S,W,WS,wgt>::allocate_() {
-        detail::allocate_mem_<S>(c_, (size_t)order_*m_);
-        detail::allocate_mem_<WS,wgt>(w_, m_);
+        try {
+            detail::allocate_mem_<S>(c_, (size_t)order_*m_);
+            detail::allocate_mem_<WS,wgt>(w_, m_);
+        } catch (...) {
+            // Without all of its storage, the tensor is empty
+            free();
+            throw;
+        }
     }
 
     namespace detail {
@@ -5312,7 +5372,9 @@ namespace pigo {
         std::vector<size_t> nl_offsets(num_threads);
 
         size_t missing = 0;
-        #pragma omp parallel reduction(+ : missing)
+        // An exception must not leave the parallel region
+        std::exception_ptr alloc_error;
+        #pragma omp parallel reduction(+ : missing) shared(alloc_error)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -5363,7 +5425,11 @@ namespace pigo {
 
                 // Now, allocate the space appropriately
                 m_ = nl_offsets[num_threads-1];
-                allocate_();
+                try {
+                    allocate_();
+                } catch (...) {
+                    alloc_error = std::current_exception();
+                }
             }
             #pragma omp barrier
 
@@ -5375,12 +5441,13 @@ namespace pigo {
                 coord_pos = nl_offsets[tid-1];
 
             // An incomplete last entry is not counted and has no space
-            while (rs_p2.good() && coord_pos < nl_offsets[tid]) {
+            while (!alloc_error && rs_p2.good() && coord_pos < nl_offsets[tid]) {
                 read_coord_entry_<false>(coord_pos, rs_p2);
             }
             // Entries are left without values if they are incomplete
             missing += nl_offsets[tid] - coord_pos;
         }
+        if (alloc_error) std::rethrow_exception(alloc_error);
         if (missing > 0) {
             free();
             throw Error("Found incomplete entries");
@@ -5592,7 +5659,9 @@ namespace pigo {
         }
         #endif
 
-        std::vector<L*> maxes(num_threads);
+        // Allocate for each thread outside of the parallel region, which an
+        // exception must not leave
+        std::vector<std::vector<L>> maxes(num_threads, std::vector<L>(order_));
         #pragma omp parallel
         {
             #ifdef _OPENMP
@@ -5600,8 +5669,7 @@ namespace pigo {
             #else
             size_t tid = 0;
             #endif
-            L* my_maxes = new L[order_];
-            for (O idx = 0; idx < order_; ++idx) my_maxes[idx] = 0;
+            L* my_maxes = maxes[tid].data();
 
             const L* c = (const L*)detail::get_const_data_<S>(c_);
             #pragma omp for
@@ -5611,15 +5679,12 @@ namespace pigo {
                     if (val > my_maxes[idx]) my_maxes[idx] = val;
                 }
             }
-
-            maxes[tid] = my_maxes;
         }
 
         std::vector<L> ret(order_);
         for (size_t tid = 0; tid < num_threads; ++tid) {
             for (O idx = 0; idx < order_; ++idx)
                 if (maxes[tid][idx] > ret[idx]) ret[idx] = maxes[tid][idx];
-            delete [] maxes[tid];
         }
 
         return ret;
-- 
2.43.0


From 97feed6185b52fee463ddfe151a5e7ad8b90a252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:53 +0000
Subject: [PATCH 43/56] fix: free the storage of a COO or Tensor without
 entries

---
 include/pigo/coo.hpp    | 11 +++++------
 include/pigo/tensor.hpp |  5 +++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/pigo/coo.hpp b/include/pigo/coo.hpp
index a7e5eb4..9122e79 100644
--- a/include/pigo/coo.hpp
+++ b/include/pigo/coo.hpp
@@ -303,12 +303,11 @@ namespace pigo {
              * cleanup directly and then this can be used.
              */
             void free() {
-                if (m_ > 0) {
-                    detail::free_mem_(x_);
-                    detail::free_mem_(y_);
-                    detail::free_mem_<WeightStorage, weighted>(w_);
-                    m_ = 0;
-                }
+                // Without entries there can be storage as well
+                detail::free_mem_(x_);
+                detail::free_mem_(y_);
+                detail::free_mem_<WeightStorage, weighted>(w_);
+                m_ = 0;
             }
 
             /** @brief The copy constructor for creating a new COO */
diff --git a/include/pigo/tensor.hpp b/include/pigo/tensor.hpp
index 7234861..120eb0a 100644
--- a/include/pigo/tensor.hpp
+++ b/include/pigo/tensor.hpp
@@ -191,9 +191,10 @@ namespace pigo {
 
             /** @brief Free consumed memory */
             void free() {
+                // Without entries there can be storage as well
+                detail::free_mem_(c_);
+                detail::free_mem_<WeightStorage, weighted>(w_);
                 if (m_ > 0) {
-                    detail::free_mem_(c_);
-                    detail::free_mem_<WeightStorage, weighted>(w_);
                     order_ = 0;
                     m_ = 0;
                 }
-- 
2.43.0


From 32d7550e49b7dd0871cb8db6bc344e5bd574d83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:26 +0000
Subject: [PATCH 44/56] fix: give back what a failed construction or conversion
 holds

---
 include/pigo.hpp                  | 19 +++++++++++++++++++
 include/pigo/csr.hpp              |  6 +++---
 include/pigo/graph.hpp            |  5 ++++-
 include/pigo/impl/coo.impl.hpp    |  5 ++++-
 include/pigo/impl/csr.impl.hpp    | 29 ++++++++++++++++++-----------
 include/pigo/impl/graph.impl.hpp  |  5 ++++-
 include/pigo/impl/tensor.impl.hpp |  3 +++
 include/pigo/matrix.hpp           |  7 +++++--
 8 files changed, 60 insertions(+), 19 deletions(-)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index 11b10a6..b4611e9 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -595,6 +595,25 @@ namespace pigo {
             >::op_(it);
         }
 
+        /** @brief Frees an object at the end of the scope
+         *
+         * This includes leaving the scope through an exception. Call keep()
+         * when the object should outlive the scope.
+         *
+         * @tparam T the type of the object
+         */
+        template<class T>
+        class FreeGuard_ {
+            private:
+                T* it_;
+                FreeGuard_(const FreeGuard_&) = delete;
+                FreeGuard_& operator=(const FreeGuard_&) = delete;
+            public:
+                explicit FreeGuard_(T& it) : it_(&it) { }
+                ~FreeGuard_() { if (it_ != nullptr) it_->free(); }
+                void keep() { it_ = nullptr; }
+        };
+
         /** The raw data retrieval implementation */
         template<typename T, bool ptr_flag, bool vec_flag, bool sptr_flag>
         struct get_raw_data_impl_;
diff --git a/include/pigo/csr.hpp b/include/pigo/csr.hpp
index 46f6c17..a9aebe6 100644
--- a/include/pigo/csr.hpp
+++ b/include/pigo/csr.hpp
@@ -57,13 +57,13 @@ namespace pigo {
     class CSR {
         protected:
             /** The endpoints hold the labels (e.g., representing edges) */
-            LabelStorage endpoints_;
+            LabelStorage endpoints_ {};
 
             /** The offsets into the endpoints */
-            OrdinalStorage offsets_;
+            OrdinalStorage offsets_ {};
 
             /** The weight values */
-            WeightStorage weights_;
+            WeightStorage weights_ {};
 
         private:
             /** The number of labels */
diff --git a/include/pigo/graph.hpp b/include/pigo/graph.hpp
index 8131862..980ee7e 100644
--- a/include/pigo/graph.hpp
+++ b/include/pigo/graph.hpp
@@ -211,7 +211,10 @@ namespace pigo {
                      class COOW, class COOWS>
             void from_coo_(COO<COOvertex_t, COOedge_ctr_t, COOStorage, COOsym, COOut,
                     COOsl, weighted, COOW, COOWS>& coo) {
+                // Nothing stays allocated when this fails
+                detail::FreeGuard_<DiGraph> guard {*this};
                 auto coo_copy = coo;
+                detail::FreeGuard_<decltype(coo_copy)> copy_guard {coo_copy};
                 coo_copy.transpose();
 
                 in_ = BaseGraph<
@@ -223,7 +226,6 @@ namespace pigo {
                             Weight,
                             WeightStorage
                         > { coo_copy };
-                coo_copy.free();
 
                 out_ = BaseGraph<
                             vertex_t,
@@ -234,6 +236,7 @@ namespace pigo {
                             Weight,
                             WeightStorage
                         > { coo };
+                guard.keep();
             }
 
 
diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 6528c5d..3501313 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -31,6 +31,8 @@ namespace pigo {
 
     template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
     void COO<L,O,S,sym,ut,sl,wgt,W,WS>::read_(File& f, FileType ft) {
+        // Nothing stays allocated when this fails
+        detail::FreeGuard_<COO> guard {*this};
         FileType ft_used = ft;
         // If the file type is AUTO, then try to detect it
         if (ft_used == AUTO) {
@@ -49,12 +51,13 @@ namespace pigo {
                 ft_used == GRAPH) {
             // First build a CSR, then convert to a COO
             CSR<L,O,L*,O*,wgt,W,W*> csr {f, ft_used};
+            detail::FreeGuard_<decltype(csr)> csr_guard {csr};
             convert_csr_(csr);
-            csr.free();
         } else {
             // We need to first build a CSR, then move back to a COO
             throw NotYetImplemented("Coming in v0.6");
         }
+        guard.keep();
     }
 
     template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index ca21ccd..f0e27c0 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -6,6 +6,7 @@
 #include <algorithm>
 #include <atomic>
 #include <exception>
+#include <memory>
 #include <vector>
 #include <string>
 #ifdef _OPENMP
@@ -45,6 +46,8 @@ namespace pigo {
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
     void CSR<L,O,LS,OS,wgt,W,WS>::read_(File& f, FileType ft) {
+        // Nothing stays allocated when this fails
+        detail::FreeGuard_<CSR> guard {*this};
         FileType ft_used = ft;
         // If the file type is AUTO, then try to detect it
         if (ft_used == AUTO) {
@@ -55,8 +58,8 @@ namespace pigo {
                 ft_used == PIGO_COO_BIN) {
             // First build a COO, then load here
             COO<L,O,L*, false, false, false, wgt, W, WS> coo { f, ft_used };
+            detail::FreeGuard_<decltype(coo)> coo_guard {coo};
             convert_coo_(coo);
-            coo.free();
         } else if (ft_used == PIGO_CSR_BIN) {
             read_bin_(f);
         } else if (ft_used == GRAPH) {
@@ -65,13 +68,16 @@ namespace pigo {
             read_graph_(r);
         } else
             throw NotYetImplemented("This file type is not yet supported");
+        guard.keep();
     }
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
     void CSR<L,O,LS,OS,wgt,W,WS>::allocate_() {
+        detail::FreeGuard_<CSR> guard {*this};
         detail::allocate_mem_<LS>(endpoints_, m_);
         detail::allocate_mem_<WS,wgt>(weights_, m_);
         detail::allocate_mem_<OS>(offsets_, stored_rows_()+1);
+        guard.keep();
     }
     namespace detail {
         template<bool wgt, class W, class WS, class COOW, class COOWS, class O>
@@ -119,6 +125,7 @@ namespace pigo {
 
         // Allocate the offsets and endpoints
         allocate_();
+        detail::FreeGuard_<CSR> guard {*this};
 
         // This is a multi pass algorithm.
         // First, we need to count each vertex's degree and allocate the
@@ -142,14 +149,17 @@ namespace pigo {
         // Temporarily keep track of the degree for each label (this can
         // easily be computed later)
         const L rows = stored_rows_();
-        O* label_degs = new O[rows];
+        std::unique_ptr<O[]> label_degs_storage {new O[rows]};
+        O* label_degs = label_degs_storage.get();
 
         // Keep track of the starting offsets for each thread
-        O* start_offsets = new O[num_threads];
+        std::unique_ptr<O[]> start_offsets_storage {new O[num_threads]};
+        O* start_offsets = start_offsets_storage.get();
 
         // Each thread will compute the degrees for each label on its own.
         // This is then used to reduce them all
-        O* all_degs = new O[rows];
+        std::unique_ptr<O[]> all_degs_storage {new O[rows]};
+        O* all_degs = all_degs_storage.get();
         // Labels without a row cannot be stored
         size_t invalid = 0;
         #pragma omp parallel shared(invalid) shared(all_degs) shared(label_degs) shared(start_offsets)
@@ -255,14 +265,9 @@ namespace pigo {
 
         }
 
-        delete [] label_degs;
-        delete [] start_offsets;
-        delete [] all_degs;
-
-        if (invalid > 0) {
-            free();
+        if (invalid > 0)
             throw Error("Found labels without a row");
-        }
+        guard.keep();
     }
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
@@ -685,6 +690,7 @@ namespace pigo {
 
         // Allocate the new CSR
         CSR<nL, nO, nLS, nOS, nw, nW, nWS> ret { (nL)n_, new_m, (nL)nrows_, (nL)ncols_ };
+        detail::FreeGuard_<decltype(ret)> guard {ret};
 
         auto& new_endpoints = ret.endpoints();
         auto& new_offsets = ret.offsets();
@@ -792,6 +798,7 @@ namespace pigo {
             }
         }
 
+        guard.keep();
         return ret;
     }
 
diff --git a/include/pigo/impl/graph.impl.hpp b/include/pigo/impl/graph.impl.hpp
index 1787990..d4b0d58 100644
--- a/include/pigo/impl/graph.impl.hpp
+++ b/include/pigo/impl/graph.impl.hpp
@@ -21,6 +21,8 @@ namespace pigo {
 
     template<class vertex_t, class edge_ctr_t, class edge_storage, class edge_ctr_storage, bool weighted, class Weight, class WeightStorage>
     void DiGraph<vertex_t, edge_ctr_t, edge_storage, edge_ctr_storage, weighted, Weight, WeightStorage>::read_(File& f, FileType ft) {
+        // Nothing stays allocated when this fails
+        detail::FreeGuard_<DiGraph> guard {*this};
         FileType ft_used = ft;
         // If the file type is AUTO, then try to detect it
         if (ft_used == AUTO) {
@@ -55,9 +57,10 @@ namespace pigo {
                     false, false, false,
                     weighted, Weight, WeightStorage
                 > coo { f, ft };
+            detail::FreeGuard_<decltype(coo)> coo_guard {coo};
             from_coo_(coo);
-            coo.free();
         }
+        guard.keep();
     }
 
     template<class vertex_t, class edge_ctr_t, class edge_storage, class edge_ctr_storage, bool weighted, class Weight, class WeightStorage>
diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index ccb6e40..03315dc 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -32,6 +32,8 @@ namespace pigo {
 
     template<class L, class O, class S, class W, class WS, bool wgt>
     void Tensor<L,O,S,W,WS,wgt>::read_(File& f, FileType ft) {
+        // Nothing stays allocated when this fails
+        detail::FreeGuard_<Tensor> guard {*this};
         FileType ft_used = ft;
         // If the file type is AUTO, then try to detect it
         if (ft_used == AUTO) {
@@ -46,6 +48,7 @@ namespace pigo {
         } else {
             throw NotYetImplemented("Unknown file format");
         }
+        guard.keep();
     }
 
     template<class L, class O, class S, class W, class WS, bool wgt>
diff --git a/include/pigo/matrix.hpp b/include/pigo/matrix.hpp
index 674915b..21b14f1 100644
--- a/include/pigo/matrix.hpp
+++ b/include/pigo/matrix.hpp
@@ -130,7 +130,10 @@ namespace pigo {
                      class COOW, class COOWS>
             void from_coo_(COO<COOLabel, COOOrdinal, COOStorage, COOsym, COOut,
                     COOsl, weighted, COOW, COOWS>& coo) {
+                // Nothing stays allocated when this fails
+                detail::FreeGuard_<Matrix> guard {*this};
                 auto coo_copy = coo;
+                detail::FreeGuard_<decltype(coo_copy)> copy_guard {coo_copy};
                 coo_copy.transpose();
 
                 csc_ = CSC<
@@ -142,7 +145,6 @@ namespace pigo {
                             Weight,
                             WeightStorage
                         > { coo_copy };
-                coo_copy.free();
 
                 csr_ = CSR<
                             Label,
@@ -153,6 +155,7 @@ namespace pigo {
                             Weight,
                             WeightStorage
                         > { coo };
+                guard.keep();
             }
 
         public:
@@ -191,8 +194,8 @@ namespace pigo {
                     false, false, false,
                     weighted, Weight, WeightStorage
                 > coo {filename};
+                detail::FreeGuard_<decltype(coo)> coo_guard {coo};
                 from_coo_(coo);
-                coo.free();
             }
 
             /** @brief Free the associated memory */
-- 
2.43.0


From 3cd3eda3b966d020484d8c49e398f80cd2006572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:26 +0000
Subject: [PATCH 45/56] fix: bring the single-header release up to date with
 the sources

---
 release/pigo.hpp | 94 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 67 insertions(+), 27 deletions(-)

diff --git a/release/pigo.hpp b/release/pigo.hpp
index 3c52a67..f6e5d0d 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -636,6 +636,25 @@ namespace pigo {
             >::op_(it);
         }
 
+        /** @brief Frees an object at the end of the scope
+         *
+         * This includes leaving the scope through an exception. Call keep()
+         * when the object should outlive the scope.
+         *
+         * @tparam T the type of the object
+         */
+        template<class T>
+        class FreeGuard_ {
+            private:
+                T* it_;
+                FreeGuard_(const FreeGuard_&) = delete;
+                FreeGuard_& operator=(const FreeGuard_&) = delete;
+            public:
+                explicit FreeGuard_(T& it) : it_(&it) { }
+                ~FreeGuard_() { if (it_ != nullptr) it_->free(); }
+                void keep() { it_ = nullptr; }
+        };
+
         /** The raw data retrieval implementation */
         template<typename T, bool ptr_flag, bool vec_flag, bool sptr_flag>
         struct get_raw_data_impl_;
@@ -1135,12 +1154,11 @@ namespace pigo {
              * cleanup directly and then this can be used.
              */
             void free() {
-                if (m_ > 0) {
-                    detail::free_mem_(x_);
-                    detail::free_mem_(y_);
-                    detail::free_mem_<WeightStorage, weighted>(w_);
-                    m_ = 0;
-                }
+                // Without entries there can be storage as well
+                detail::free_mem_(x_);
+                detail::free_mem_(y_);
+                detail::free_mem_<WeightStorage, weighted>(w_);
+                m_ = 0;
             }
 
             /** @brief The copy constructor for creating a new COO */
@@ -1269,13 +1287,13 @@ namespace pigo {
     class CSR {
         protected:
             /** The endpoints hold the labels (e.g., representing edges) */
-            LabelStorage endpoints_;
+            LabelStorage endpoints_ {};
 
             /** The offsets into the endpoints */
-            OrdinalStorage offsets_;
+            OrdinalStorage offsets_ {};
 
             /** The weight values */
-            WeightStorage weights_;
+            WeightStorage weights_ {};
 
         private:
             /** The number of labels */
@@ -1687,7 +1705,10 @@ namespace pigo {
                      class COOW, class COOWS>
             void from_coo_(COO<COOLabel, COOOrdinal, COOStorage, COOsym, COOut,
                     COOsl, weighted, COOW, COOWS>& coo) {
+                // Nothing stays allocated when this fails
+                detail::FreeGuard_<Matrix> guard {*this};
                 auto coo_copy = coo;
+                detail::FreeGuard_<decltype(coo_copy)> copy_guard {coo_copy};
                 coo_copy.transpose();
 
                 csc_ = CSC<
@@ -1699,7 +1720,6 @@ namespace pigo {
                             Weight,
                             WeightStorage
                         > { coo_copy };
-                coo_copy.free();
 
                 csr_ = CSR<
                             Label,
@@ -1710,6 +1730,7 @@ namespace pigo {
                             Weight,
                             WeightStorage
                         > { coo };
+                guard.keep();
             }
 
         public:
@@ -1748,8 +1769,8 @@ namespace pigo {
                     false, false, false,
                     weighted, Weight, WeightStorage
                 > coo {filename};
+                detail::FreeGuard_<decltype(coo)> coo_guard {coo};
                 from_coo_(coo);
-                coo.free();
             }
 
             /** @brief Free the associated memory */
@@ -1987,7 +2008,10 @@ namespace pigo {
                      class COOW, class COOWS>
             void from_coo_(COO<COOvertex_t, COOedge_ctr_t, COOStorage, COOsym, COOut,
                     COOsl, weighted, COOW, COOWS>& coo) {
+                // Nothing stays allocated when this fails
+                detail::FreeGuard_<DiGraph> guard {*this};
                 auto coo_copy = coo;
+                detail::FreeGuard_<decltype(coo_copy)> copy_guard {coo_copy};
                 coo_copy.transpose();
 
                 in_ = BaseGraph<
@@ -1999,7 +2023,6 @@ namespace pigo {
                             Weight,
                             WeightStorage
                         > { coo_copy };
-                coo_copy.free();
 
                 out_ = BaseGraph<
                             vertex_t,
@@ -2010,6 +2033,7 @@ namespace pigo {
                             Weight,
                             WeightStorage
                         > { coo };
+                guard.keep();
             }
 
 
@@ -2292,9 +2316,10 @@ namespace pigo {
 
             /** @brief Free consumed memory */
             void free() {
+                // Without entries there can be storage as well
+                detail::free_mem_(c_);
+                detail::free_mem_<WeightStorage, weighted>(w_);
                 if (m_ > 0) {
-                    detail::free_mem_(c_);
-                    detail::free_mem_<WeightStorage, weighted>(w_);
                     order_ = 0;
                     m_ = 0;
                 }
@@ -3690,6 +3715,8 @@ namespace pigo {
 
     template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
     void COO<L,O,S,sym,ut,sl,wgt,W,WS>::read_(File& f, FileType ft) {
+        // Nothing stays allocated when this fails
+        detail::FreeGuard_<COO> guard {*this};
         FileType ft_used = ft;
         // If the file type is AUTO, then try to detect it
         if (ft_used == AUTO) {
@@ -3708,12 +3735,13 @@ namespace pigo {
                 ft_used == GRAPH) {
             // First build a CSR, then convert to a COO
             CSR<L,O,L*,O*,wgt,W,W*> csr {f, ft_used};
+            detail::FreeGuard_<decltype(csr)> csr_guard {csr};
             convert_csr_(csr);
-            csr.free();
         } else {
             // We need to first build a CSR, then move back to a COO
             throw NotYetImplemented("Coming in v0.6");
         }
+        guard.keep();
     }
 
     template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
@@ -4407,6 +4435,8 @@ namespace pigo {
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
     void CSR<L,O,LS,OS,wgt,W,WS>::read_(File& f, FileType ft) {
+        // Nothing stays allocated when this fails
+        detail::FreeGuard_<CSR> guard {*this};
         FileType ft_used = ft;
         // If the file type is AUTO, then try to detect it
         if (ft_used == AUTO) {
@@ -4417,8 +4447,8 @@ namespace pigo {
                 ft_used == PIGO_COO_BIN) {
             // First build a COO, then load here
             COO<L,O,L*, false, false, false, wgt, W, WS> coo { f, ft_used };
+            detail::FreeGuard_<decltype(coo)> coo_guard {coo};
             convert_coo_(coo);
-            coo.free();
         } else if (ft_used == PIGO_CSR_BIN) {
             read_bin_(f);
         } else if (ft_used == GRAPH) {
@@ -4427,13 +4457,16 @@ namespace pigo {
             read_graph_(r);
         } else
             throw NotYetImplemented("This file type is not yet supported");
+        guard.keep();
     }
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
     void CSR<L,O,LS,OS,wgt,W,WS>::allocate_() {
+        detail::FreeGuard_<CSR> guard {*this};
         detail::allocate_mem_<LS>(endpoints_, m_);
         detail::allocate_mem_<WS,wgt>(weights_, m_);
         detail::allocate_mem_<OS>(offsets_, stored_rows_()+1);
+        guard.keep();
     }
     namespace detail {
         template<bool wgt, class W, class WS, class COOW, class COOWS, class O>
@@ -4481,6 +4514,7 @@ namespace pigo {
 
         // Allocate the offsets and endpoints
         allocate_();
+        detail::FreeGuard_<CSR> guard {*this};
 
         // This is a multi pass algorithm.
         // First, we need to count each vertex's degree and allocate the
@@ -4504,14 +4538,17 @@ namespace pigo {
         // Temporarily keep track of the degree for each label (this can
         // easily be computed later)
         const L rows = stored_rows_();
-        O* label_degs = new O[rows];
+        std::unique_ptr<O[]> label_degs_storage {new O[rows]};
+        O* label_degs = label_degs_storage.get();
 
         // Keep track of the starting offsets for each thread
-        O* start_offsets = new O[num_threads];
+        std::unique_ptr<O[]> start_offsets_storage {new O[num_threads]};
+        O* start_offsets = start_offsets_storage.get();
 
         // Each thread will compute the degrees for each label on its own.
         // This is then used to reduce them all
-        O* all_degs = new O[rows];
+        std::unique_ptr<O[]> all_degs_storage {new O[rows]};
+        O* all_degs = all_degs_storage.get();
         // Labels without a row cannot be stored
         size_t invalid = 0;
         #pragma omp parallel shared(invalid) shared(all_degs) shared(label_degs) shared(start_offsets)
@@ -4617,14 +4654,9 @@ namespace pigo {
 
         }
 
-        delete [] label_degs;
-        delete [] start_offsets;
-        delete [] all_degs;
-
-        if (invalid > 0) {
-            free();
+        if (invalid > 0)
             throw Error("Found labels without a row");
-        }
+        guard.keep();
     }
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
@@ -5047,6 +5079,7 @@ namespace pigo {
 
         // Allocate the new CSR
         CSR<nL, nO, nLS, nOS, nw, nW, nWS> ret { (nL)n_, new_m, (nL)nrows_, (nL)ncols_ };
+        detail::FreeGuard_<decltype(ret)> guard {ret};
 
         auto& new_endpoints = ret.endpoints();
         auto& new_offsets = ret.offsets();
@@ -5154,6 +5187,7 @@ namespace pigo {
             }
         }
 
+        guard.keep();
         return ret;
     }
 
@@ -5174,6 +5208,8 @@ namespace pigo {
 
     template<class vertex_t, class edge_ctr_t, class edge_storage, class edge_ctr_storage, bool weighted, class Weight, class WeightStorage>
     void DiGraph<vertex_t, edge_ctr_t, edge_storage, edge_ctr_storage, weighted, Weight, WeightStorage>::read_(File& f, FileType ft) {
+        // Nothing stays allocated when this fails
+        detail::FreeGuard_<DiGraph> guard {*this};
         FileType ft_used = ft;
         // If the file type is AUTO, then try to detect it
         if (ft_used == AUTO) {
@@ -5208,9 +5244,10 @@ namespace pigo {
                     false, false, false,
                     weighted, Weight, WeightStorage
                 > coo { f, ft };
+            detail::FreeGuard_<decltype(coo)> coo_guard {coo};
             from_coo_(coo);
-            coo.free();
         }
+        guard.keep();
     }
 
     template<class vertex_t, class edge_ctr_t, class edge_storage, class edge_ctr_storage, bool weighted, class Weight, class WeightStorage>
@@ -5264,6 +5301,8 @@ namespace pigo {
 
     template<class L, class O, class S, class W, class WS, bool wgt>
     void Tensor<L,O,S,W,WS,wgt>::read_(File& f, FileType ft) {
+        // Nothing stays allocated when this fails
+        detail::FreeGuard_<Tensor> guard {*this};
         FileType ft_used = ft;
         // If the file type is AUTO, then try to detect it
         if (ft_used == AUTO) {
@@ -5278,6 +5317,7 @@ namespace pigo {
         } else {
             throw NotYetImplemented("Unknown file format");
         }
+        guard.keep();
     }
 
     template<class L, class O, class S, class W, class WS, bool wgt>
-- 
2.43.0


From d3640083e4d98e668c3078366733bab763b3a291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:13 +0000
Subject: [PATCH 46/56] fix: refuse a graph file whose rows the label type
 cannot number

---
 include/pigo.hpp               | 16 ++++++++++++++++
 include/pigo/impl/csr.impl.hpp | 29 ++++++++++++++---------------
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index b4611e9..99da79e 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -9,6 +9,7 @@
 #ifndef PIGO_HPP
 #define PIGO_HPP
 
+#include <limits>
 #include <stdexcept>
 #include <memory>
 #include <vector>
@@ -551,6 +552,21 @@ namespace pigo {
             >::op_(it, nmemb);
         }
 
+        /** @brief Convert a count to the type that holds it
+        *
+        * @tparam T the type of labels or ordinals
+        * @param count the count to convert
+        * @return the count, as T
+        * @throws Error if it is too large for the type
+        */
+        template<class T>
+        inline
+        T checked_count_(size_t count) {
+            if (count > (size_t)std::numeric_limits<T>::max())
+                throw Error("Too many items for the type that counts them");
+            return (T)count;
+        }
+
         /** A holder for freeing implementations */
         template<bool do_free, typename T, bool ptr_flag, bool vec_flag, bool sptr_flag>
         struct free_impl_ {
diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index f0e27c0..74fe330 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -393,16 +393,22 @@ namespace pigo {
                     int_offsets[tid] = sum_ints;
                 }
 
-                // Now, allocate the space appropriately
-                m_ = int_offsets[num_threads-1];
-                n_ = nl_offsets[num_threads-1];
-                nrows_ = n_;
                 try {
+                    // Row zero is added when the labels start at one
+                    const size_t base = have_zero ? 0 : 1;
+                    if (sum_nl-base < (size_t)read_n)
+                        throw Error("Mismatch in CSR newlines and header");
+
+                    // Now, allocate the space appropriately. Any further
+                    // lines are not a part of the graph
+                    m_ = detail::checked_count_<O>(sum_ints);
+                    n_ = detail::checked_count_<L>(read_n+base);
+                    nrows_ = n_;
                     allocate_();
+                    detail::set_value_(offsets_, n_, m_);
                     detail::set_value_(offsets_, 0, 0);
                     if (!have_zero)
                         detail::set_value_(offsets_, 1, 0);
-                    detail::set_value_(offsets_, n_, m_);
                 } catch (...) {
                     alloc_error = std::current_exception();
                 }
@@ -414,7 +420,7 @@ namespace pigo {
             L my_max = 0;
             FileReader rs_p2 = rs;
             O endpoint_pos = 0;
-            L offset_pos = 0;
+            size_t offset_pos = 0;
             if (tid > 0) {
                 offset_pos = nl_offsets[tid-1];
                 endpoint_pos = int_offsets[tid-1];
@@ -423,7 +429,7 @@ namespace pigo {
 
             while (!alloc_error && rs_p2.good()) {
                 // Ignore any trailing data in the file
-                if (offset_pos >= n_) break;
+                if (offset_pos >= (size_t)n_) break;
 
                 // Copy and set the endpoint
                 if (rs_p2.at_nl_or_eol()) {
@@ -448,15 +454,8 @@ namespace pigo {
             free();
             throw Error("Mismatch in CSR nonzeros and header");
         }
-        // Row zero is added when the labels start at one
-        L base = have_zero ? 0 : 1;
-        if (n_ < read_n + base) {
-            free();
-            throw Error("Mismatch in CSR newlines and header");
-        }
-        // Any further rows are not a part of the graph, and so must be empty
+        // Any further lines must not have numbers
         n_ = read_n;
-        nrows_ = read_n + base;
         if (detail::get_value_<OS, O>(offsets_, nrows_) != m_) {
             free();
             throw Error("Mismatch in CSR rows and header");
-- 
2.43.0


From df022c824e9e34628bf1c92c41c84d56c4db644c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:13 +0000
Subject: [PATCH 47/56] fix: refuse a file with more entries than the ordinal
 type can count

---
 include/pigo/impl/coo.impl.hpp    | 2 +-
 include/pigo/impl/tensor.impl.hpp | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 3501313..b308d98 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -492,8 +492,8 @@ namespace pigo {
                 }
 
                 // Now, allocate the space appropriately
-                m_ = nl_offsets[num_threads-1];
                 try {
+                    m_ = detail::checked_count_<O>(sum_nl);
                     allocate_();
                 } catch (...) {
                     alloc_error = std::current_exception();
diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 03315dc..6b173e5 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -131,9 +131,10 @@ namespace pigo {
         // Find the order by reading the first line
         auto first_line = r;
         first_line.move_to_first_int();
-        order_ = first_line.count_spaces_to_eol();
+        size_t order = first_line.count_spaces_to_eol();
         if (!(detail::if_true_<wgt>()))
-            ++order_;
+            ++order;
+        order_ = detail::checked_count_<O>(order);
 
         // This takes two passes:
         // first, count the number of newlines to determine how to
@@ -195,8 +196,8 @@ namespace pigo {
                 }
 
                 // Now, allocate the space appropriately
-                m_ = nl_offsets[num_threads-1];
                 try {
+                    m_ = detail::checked_count_<O>(sum_nl);
                     allocate_();
                 } catch (...) {
                     alloc_error = std::current_exception();
-- 
2.43.0


From c502e438cfa97ce8219cb2636ffbbb2e7ec0d9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:47 +0000
Subject: [PATCH 48/56] fix: refuse to convert to types too narrow for the
 sizes

---
 include/pigo/impl/coo.impl.hpp | 11 ++++++-----
 include/pigo/impl/csr.impl.hpp | 16 +++++++++-------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index b308d98..dead363 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -70,14 +70,14 @@ namespace pigo {
     template <class CL, class CO, class LS, class OS, class CW, class CWS>
     void COO<L,O,S,sym,ut,sl,wgt,W,WS>::convert_csr_(CSR<CL,CO,LS,OS,wgt,CW,CWS>& csr) {
         // First, set our sizes and allocate space
-        L csr_n = csr.n();
+        L csr_n = detail::checked_count_<L>(csr.n());
         L csr_rows = csr.nrows();
         // Labels may start at one, so that there is a row for label n
         if (csr_rows < csr_n) csr_rows = csr_n;
         n_ = csr_n;
-        nrows_ = csr.nrows();
-        ncols_ = csr.ncols();
-        m_ = csr.m();
+        nrows_ = detail::checked_count_<L>(csr.nrows());
+        ncols_ = detail::checked_count_<L>(csr.ncols());
+        size_t entries = csr.m();
 
         // Mirrored or swapped entries only fit in a square matrix
         if (detail::if_true_<sym>()) {
@@ -88,12 +88,13 @@ namespace pigo {
         if (ncols_ > n_) n_ = ncols_;
 
         if (detail::if_true_<sym>() && !detail::if_true_<ut>())
-            m_ *= 2;
+            entries *= 2;
         else if (!detail::if_true_<sym>() && detail::if_true_<ut>())
             throw NotYetImplemented("Keeping triangle only from CSR not yet implemented");
         if (detail::if_true_<sl>())
             throw NotYetImplemented("Removing self loops from CSR not yet implemented");
 
+        m_ = detail::checked_count_<O>(entries);
         allocate_();
 
         auto storage_offsets = csr.offsets();
diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 74fe330..be626be 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -118,10 +118,10 @@ namespace pigo {
             COOL,COOO,COOStorage,COOsym,COOut,COOsl,wgt,COOW,COOWS>&
             coo) {
         // Set the sizes first
-        n_ = coo.n();
-        m_ = coo.m();
-        nrows_ = coo.nrows();
-        ncols_ = coo.ncols();
+        n_ = detail::checked_count_<L>(coo.n());
+        m_ = detail::checked_count_<O>(coo.m());
+        nrows_ = detail::checked_count_<L>(coo.nrows());
+        ncols_ = detail::checked_count_<L>(coo.ncols());
 
         // Allocate the offsets and endpoints
         allocate_();
@@ -661,7 +661,7 @@ namespace pigo {
         detail::allocate_mem_(degs_storage, rows);
         L* degs = degs_storage.get();
 
-        nO new_m = 0;
+        size_t new_m = 0;
 
         #pragma omp parallel for schedule(dynamic, 10240) shared(degs) reduction(+ : new_m)
         for (L v = 0; v < rows; ++v) {
@@ -688,7 +688,9 @@ namespace pigo {
         }
 
         // Allocate the new CSR
-        CSR<nL, nO, nLS, nOS, nw, nW, nWS> ret { (nL)n_, new_m, (nL)nrows_, (nL)ncols_ };
+        CSR<nL, nO, nLS, nOS, nw, nW, nWS> ret { detail::checked_count_<nL>(n_),
+            detail::checked_count_<nO>(new_m), detail::checked_count_<nL>(nrows_),
+            detail::checked_count_<nL>(ncols_) };
         detail::FreeGuard_<decltype(ret)> guard {ret};
 
         auto& new_endpoints = ret.endpoints();
@@ -762,7 +764,7 @@ namespace pigo {
             {
                 // Patch the last offset to the end, making for easier
                 // degree computation and iteration
-                detail::set_value_(new_offsets, (nL)rows, new_m);
+                detail::set_value_(new_offsets, rows, (nO)new_m);
             }
 
             // Now, all new offsets have been assigned
-- 
2.43.0


From fbadefbb4b0df1199b65550b1a6166cc3af71db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:17 +0000
Subject: [PATCH 49/56] fix: count the row starts of a CSR with as many rows as
 labels

---
 include/pigo/impl/csr.impl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index be626be..e3c8ae9 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -76,7 +76,7 @@ namespace pigo {
         detail::FreeGuard_<CSR> guard {*this};
         detail::allocate_mem_<LS>(endpoints_, m_);
         detail::allocate_mem_<WS,wgt>(weights_, m_);
-        detail::allocate_mem_<OS>(offsets_, stored_rows_()+1);
+        detail::allocate_mem_<OS>(offsets_, (size_t)stored_rows_()+1);
         guard.keep();
     }
     namespace detail {
@@ -479,7 +479,7 @@ namespace pigo {
         // Find the size of the size of the CSR
         out_size += sizeof(L)*3+sizeof(O);
         // Finally, find the actual CSR size
-        size_t voff_size = sizeof(O)*(stored_rows_()+1);
+        size_t voff_size = sizeof(O)*((size_t)stored_rows_()+1);
         size_t vend_size = sizeof(L)*m_;
         size_t w_size = detail::weight_size_<wgt, W, O>(m_);
         out_size += voff_size + vend_size + w_size;
@@ -517,7 +517,7 @@ namespace pigo {
         w.write(nrows_);
         w.write(ncols_);
 
-        size_t voff_size = sizeof(O)*(stored_rows_()+1);
+        size_t voff_size = sizeof(O)*((size_t)stored_rows_()+1);
         size_t vend_size = sizeof(L)*m_;
         size_t w_size = detail::weight_size_<wgt, W, O>(m_);
 
@@ -563,7 +563,7 @@ namespace pigo {
         // Allocate space
         allocate_();
 
-        size_t voff_size = sizeof(O)*(stored_rows_()+1);
+        size_t voff_size = sizeof(O)*((size_t)stored_rows_()+1);
         size_t vend_size = sizeof(L)*m_;
 
         // Read out the vectors
-- 
2.43.0


From a51c6e5859390d0feb23a8928233e23aab293849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:43 +0000
Subject: [PATCH 50/56] fix: refuse a graph header whose number of edges only
 matches after wrapping

---
 include/pigo/impl/csr.impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index e3c8ae9..ce67de9 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -450,7 +450,8 @@ namespace pigo {
         }
 
         if (alloc_error) std::rethrow_exception(alloc_error);
-        if (m_ != 2*read_m && m_ != read_m) {
+        // Half of the numbers are compared, as twice of read_m may not fit
+        if (m_ != read_m && (m_%2 != 0 || m_/2 != read_m)) {
             free();
             throw Error("Mismatch in CSR nonzeros and header");
         }
-- 
2.43.0


From 0bec9c479c85f9a2d3f08750378293ffdb828a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:14 +0000
Subject: [PATCH 51/56] fix: read any number of exponents without recursion

---
 include/pigo.hpp                | 3 ++-
 include/pigo/impl/pigo.impl.hpp | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index 99da79e..942808b 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -79,10 +79,11 @@ namespace pigo {
 
             /** @brief Read a floating point value from the file
             *
+            * @param allow_exponent whether an exponent may follow
             * @return the newly read floating point
             */
             template<typename T>
-            T read_fp();
+            T read_fp(bool allow_exponent = true);
 
             /** @brief Read the sign value from an integer
              *
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index d31bdf1..e532693 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -363,7 +363,7 @@ namespace pigo {
 
     template<typename T>
     inline
-    T FileReader::read_fp() {
+    T FileReader::read_fp(bool allow_exponent) {
         T res = 0.0;
         while (d < end && !((*d >= '0' && *d <= '9') || *d == 'e' ||
                     *d == 'E' || *d == '-' || *d == '+' || *d == '.')) ++d;
@@ -397,9 +397,10 @@ namespace pigo {
             }
             res += fraction / std::pow(10., fraction_count);
         }
-        if (d < end && (*d == 'e' || *d == 'E')) {
+        // An exponent has no exponent of its own
+        if (allow_exponent && d < end && (*d == 'e' || *d == 'E')) {
             ++d;
-            T exp = read_fp<T>();
+            T exp = read_fp<T>(false);
             res *= std::pow(10., exp);
         }
 
-- 
2.43.0


From 9638e78dc237321c659226fc5ffa16e9b9d5401d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:14 +0000
Subject: [PATCH 52/56] fix: bring the single-header release up to date with
 the sources

---
 release/pigo.hpp | 102 ++++++++++++++++++++++++++++-------------------
 1 file changed, 62 insertions(+), 40 deletions(-)

diff --git a/release/pigo.hpp b/release/pigo.hpp
index f6e5d0d..86babff 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -43,6 +43,7 @@
 #include <cstring>
 #include <exception>
 #include <fcntl.h>
+#include <limits>
 #include <memory>
 #include <omp.h>
 #include <stdexcept>
@@ -119,10 +120,11 @@ namespace pigo {
 
             /** @brief Read a floating point value from the file
             *
+            * @param allow_exponent whether an exponent may follow
             * @return the newly read floating point
             */
             template<typename T>
-            T read_fp();
+            T read_fp(bool allow_exponent = true);
 
             /** @brief Read the sign value from an integer
              *
@@ -592,6 +594,21 @@ namespace pigo {
             >::op_(it, nmemb);
         }
 
+        /** @brief Convert a count to the type that holds it
+        *
+        * @tparam T the type of labels or ordinals
+        * @param count the count to convert
+        * @return the count, as T
+        * @throws Error if it is too large for the type
+        */
+        template<class T>
+        inline
+        T checked_count_(size_t count) {
+            if (count > (size_t)std::numeric_limits<T>::max())
+                throw Error("Too many items for the type that counts them");
+            return (T)count;
+        }
+
         /** A holder for freeing implementations */
         template<bool do_free, typename T, bool ptr_flag, bool vec_flag, bool sptr_flag>
         struct free_impl_ {
@@ -3354,7 +3371,7 @@ namespace pigo {
 
     template<typename T>
     inline
-    T FileReader::read_fp() {
+    T FileReader::read_fp(bool allow_exponent) {
         T res = 0.0;
         while (d < end && !((*d >= '0' && *d <= '9') || *d == 'e' ||
                     *d == 'E' || *d == '-' || *d == '+' || *d == '.')) ++d;
@@ -3388,9 +3405,10 @@ namespace pigo {
             }
             res += fraction / std::pow(10., fraction_count);
         }
-        if (d < end && (*d == 'e' || *d == 'E')) {
+        // An exponent has no exponent of its own
+        if (allow_exponent && d < end && (*d == 'e' || *d == 'E')) {
             ++d;
-            T exp = read_fp<T>();
+            T exp = read_fp<T>(false);
             res *= std::pow(10., exp);
         }
 
@@ -3754,14 +3772,14 @@ namespace pigo {
     template <class CL, class CO, class LS, class OS, class CW, class CWS>
     void COO<L,O,S,sym,ut,sl,wgt,W,WS>::convert_csr_(CSR<CL,CO,LS,OS,wgt,CW,CWS>& csr) {
         // First, set our sizes and allocate space
-        L csr_n = csr.n();
+        L csr_n = detail::checked_count_<L>(csr.n());
         L csr_rows = csr.nrows();
         // Labels may start at one, so that there is a row for label n
         if (csr_rows < csr_n) csr_rows = csr_n;
         n_ = csr_n;
-        nrows_ = csr.nrows();
-        ncols_ = csr.ncols();
-        m_ = csr.m();
+        nrows_ = detail::checked_count_<L>(csr.nrows());
+        ncols_ = detail::checked_count_<L>(csr.ncols());
+        size_t entries = csr.m();
 
         // Mirrored or swapped entries only fit in a square matrix
         if (detail::if_true_<sym>()) {
@@ -3772,12 +3790,13 @@ namespace pigo {
         if (ncols_ > n_) n_ = ncols_;
 
         if (detail::if_true_<sym>() && !detail::if_true_<ut>())
-            m_ *= 2;
+            entries *= 2;
         else if (!detail::if_true_<sym>() && detail::if_true_<ut>())
             throw NotYetImplemented("Keeping triangle only from CSR not yet implemented");
         if (detail::if_true_<sl>())
             throw NotYetImplemented("Removing self loops from CSR not yet implemented");
 
+        m_ = detail::checked_count_<O>(entries);
         allocate_();
 
         auto storage_offsets = csr.offsets();
@@ -4176,8 +4195,8 @@ namespace pigo {
                 }
 
                 // Now, allocate the space appropriately
-                m_ = nl_offsets[num_threads-1];
                 try {
+                    m_ = detail::checked_count_<O>(sum_nl);
                     allocate_();
                 } catch (...) {
                     alloc_error = std::current_exception();
@@ -4465,7 +4484,7 @@ namespace pigo {
         detail::FreeGuard_<CSR> guard {*this};
         detail::allocate_mem_<LS>(endpoints_, m_);
         detail::allocate_mem_<WS,wgt>(weights_, m_);
-        detail::allocate_mem_<OS>(offsets_, stored_rows_()+1);
+        detail::allocate_mem_<OS>(offsets_, (size_t)stored_rows_()+1);
         guard.keep();
     }
     namespace detail {
@@ -4507,10 +4526,10 @@ namespace pigo {
             COOL,COOO,COOStorage,COOsym,COOut,COOsl,wgt,COOW,COOWS>&
             coo) {
         // Set the sizes first
-        n_ = coo.n();
-        m_ = coo.m();
-        nrows_ = coo.nrows();
-        ncols_ = coo.ncols();
+        n_ = detail::checked_count_<L>(coo.n());
+        m_ = detail::checked_count_<O>(coo.m());
+        nrows_ = detail::checked_count_<L>(coo.nrows());
+        ncols_ = detail::checked_count_<L>(coo.ncols());
 
         // Allocate the offsets and endpoints
         allocate_();
@@ -4782,16 +4801,22 @@ namespace pigo {
                     int_offsets[tid] = sum_ints;
                 }
 
-                // Now, allocate the space appropriately
-                m_ = int_offsets[num_threads-1];
-                n_ = nl_offsets[num_threads-1];
-                nrows_ = n_;
                 try {
+                    // Row zero is added when the labels start at one
+                    const size_t base = have_zero ? 0 : 1;
+                    if (sum_nl-base < (size_t)read_n)
+                        throw Error("Mismatch in CSR newlines and header");
+
+                    // Now, allocate the space appropriately. Any further
+                    // lines are not a part of the graph
+                    m_ = detail::checked_count_<O>(sum_ints);
+                    n_ = detail::checked_count_<L>(read_n+base);
+                    nrows_ = n_;
                     allocate_();
+                    detail::set_value_(offsets_, n_, m_);
                     detail::set_value_(offsets_, 0, 0);
                     if (!have_zero)
                         detail::set_value_(offsets_, 1, 0);
-                    detail::set_value_(offsets_, n_, m_);
                 } catch (...) {
                     alloc_error = std::current_exception();
                 }
@@ -4803,7 +4828,7 @@ namespace pigo {
             L my_max = 0;
             FileReader rs_p2 = rs;
             O endpoint_pos = 0;
-            L offset_pos = 0;
+            size_t offset_pos = 0;
             if (tid > 0) {
                 offset_pos = nl_offsets[tid-1];
                 endpoint_pos = int_offsets[tid-1];
@@ -4812,7 +4837,7 @@ namespace pigo {
 
             while (!alloc_error && rs_p2.good()) {
                 // Ignore any trailing data in the file
-                if (offset_pos >= n_) break;
+                if (offset_pos >= (size_t)n_) break;
 
                 // Copy and set the endpoint
                 if (rs_p2.at_nl_or_eol()) {
@@ -4833,19 +4858,13 @@ namespace pigo {
         }
 
         if (alloc_error) std::rethrow_exception(alloc_error);
-        if (m_ != 2*read_m && m_ != read_m) {
+        // Half of the numbers are compared, as twice of read_m may not fit
+        if (m_ != read_m && (m_%2 != 0 || m_/2 != read_m)) {
             free();
             throw Error("Mismatch in CSR nonzeros and header");
         }
-        // Row zero is added when the labels start at one
-        L base = have_zero ? 0 : 1;
-        if (n_ < read_n + base) {
-            free();
-            throw Error("Mismatch in CSR newlines and header");
-        }
-        // Any further rows are not a part of the graph, and so must be empty
+        // Any further lines must not have numbers
         n_ = read_n;
-        nrows_ = read_n + base;
         if (detail::get_value_<OS, O>(offsets_, nrows_) != m_) {
             free();
             throw Error("Mismatch in CSR rows and header");
@@ -4869,7 +4888,7 @@ namespace pigo {
         // Find the size of the size of the CSR
         out_size += sizeof(L)*3+sizeof(O);
         // Finally, find the actual CSR size
-        size_t voff_size = sizeof(O)*(stored_rows_()+1);
+        size_t voff_size = sizeof(O)*((size_t)stored_rows_()+1);
         size_t vend_size = sizeof(L)*m_;
         size_t w_size = detail::weight_size_<wgt, W, O>(m_);
         out_size += voff_size + vend_size + w_size;
@@ -4907,7 +4926,7 @@ namespace pigo {
         w.write(nrows_);
         w.write(ncols_);
 
-        size_t voff_size = sizeof(O)*(stored_rows_()+1);
+        size_t voff_size = sizeof(O)*((size_t)stored_rows_()+1);
         size_t vend_size = sizeof(L)*m_;
         size_t w_size = detail::weight_size_<wgt, W, O>(m_);
 
@@ -4953,7 +4972,7 @@ namespace pigo {
         // Allocate space
         allocate_();
 
-        size_t voff_size = sizeof(O)*(stored_rows_()+1);
+        size_t voff_size = sizeof(O)*((size_t)stored_rows_()+1);
         size_t vend_size = sizeof(L)*m_;
 
         // Read out the vectors
@@ -5051,7 +5070,7 @@ namespace pigo {
         detail::allocate_mem_(degs_storage, rows);
         L* degs = degs_storage.get();
 
-        nO new_m = 0;
+        size_t new_m = 0;
 
         #pragma omp parallel for schedule(dynamic, 10240) shared(degs) reduction(+ : new_m)
         for (L v = 0; v < rows; ++v) {
@@ -5078,7 +5097,9 @@ namespace pigo {
         }
 
         // Allocate the new CSR
-        CSR<nL, nO, nLS, nOS, nw, nW, nWS> ret { (nL)n_, new_m, (nL)nrows_, (nL)ncols_ };
+        CSR<nL, nO, nLS, nOS, nw, nW, nWS> ret { detail::checked_count_<nL>(n_),
+            detail::checked_count_<nO>(new_m), detail::checked_count_<nL>(nrows_),
+            detail::checked_count_<nL>(ncols_) };
         detail::FreeGuard_<decltype(ret)> guard {ret};
 
         auto& new_endpoints = ret.endpoints();
@@ -5152,7 +5173,7 @@ namespace pigo {
             {
                 // Patch the last offset to the end, making for easier
                 // degree computation and iteration
-                detail::set_value_(new_offsets, (nL)rows, new_m);
+                detail::set_value_(new_offsets, rows, (nO)new_m);
             }
 
             // Now, all new offsets have been assigned
@@ -5400,9 +5421,10 @@ namespace pigo {
         // Find the order by reading the first line
         auto first_line = r;
         first_line.move_to_first_int();
-        order_ = first_line.count_spaces_to_eol();
+        size_t order = first_line.count_spaces_to_eol();
         if (!(detail::if_true_<wgt>()))
-            ++order_;
+            ++order;
+        order_ = detail::checked_count_<O>(order);
 
         // This takes two passes:
         // first, count the number of newlines to determine how to
@@ -5464,8 +5486,8 @@ namespace pigo {
                 }
 
                 // Now, allocate the space appropriately
-                m_ = nl_offsets[num_threads-1];
                 try {
+                    m_ = detail::checked_count_<O>(sum_nl);
                     allocate_();
                 } catch (...) {
                     alloc_error = std::current_exception();
-- 
2.43.0


From c04b01652f422a41ed7078a73d922d1041550c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:21 +0000
Subject: [PATCH 53/56] fix: refuse labels whose number the label type cannot
 hold

---
 include/pigo/impl/coo.impl.hpp | 17 +++++++++++++++--
 include/pigo/impl/csr.impl.hpp |  5 +++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index dead363..dc70606 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -364,9 +364,15 @@ namespace pigo {
 
         // Read out the first line
         r.move_to_next_int();
-        L nrows = r.read_int<L>()+1;        // account for MM starting at 1
+        L nrows = r.read_int<L>();
         r.move_to_next_int();
-        L ncols = r.read_int<L>()+1;        // account for MM starting at 1
+        L ncols = r.read_int<L>();
+        if (nrows == std::numeric_limits<L>::max() ||
+                ncols == std::numeric_limits<L>::max())
+            throw Error("Too many labels for the type that counts them");
+        // account for MM starting at 1
+        ++nrows;
+        ++ncols;
         r.move_to_next_int();
         O nnz = r.read_int<O>();
         r.move_to_eol();
@@ -521,6 +527,13 @@ namespace pigo {
             throw Error("Found incomplete entries");
         }
 
+        // The number of labels is one more than the largest label
+        if (max_row == std::numeric_limits<L>::max() ||
+                max_col == std::numeric_limits<L>::max()) {
+            free();
+            throw Error("Too many labels for the type that counts them");
+        }
+
         // Set the number of labels in the matrix represented by the COO
         nrows_ = max_row + 1;
         ncols_ = max_col + 1;
diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index ce67de9..5d3d581 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -467,6 +467,11 @@ namespace pigo {
             if (max_labels[thread] > col_max)
                 col_max = max_labels[thread];
         }
+        // The number of labels is one more than the largest label
+        if (col_max == std::numeric_limits<L>::max()) {
+            free();
+            throw Error("Too many labels for the type that counts them");
+        }
         ncols_ = col_max+1;
     }
 
-- 
2.43.0


From a0ba22df2deb20052a080824a43ff23a207fca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:55 +0000
Subject: [PATCH 54/56] fix: bring the single-header release up to date with
 the sources

---
 release/pigo.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/release/pigo.hpp b/release/pigo.hpp
index 86babff..38b7808 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -4066,9 +4066,15 @@ namespace pigo {
 
         // Read out the first line
         r.move_to_next_int();
-        L nrows = r.read_int<L>()+1;        // account for MM starting at 1
+        L nrows = r.read_int<L>();
         r.move_to_next_int();
-        L ncols = r.read_int<L>()+1;        // account for MM starting at 1
+        L ncols = r.read_int<L>();
+        if (nrows == std::numeric_limits<L>::max() ||
+                ncols == std::numeric_limits<L>::max())
+            throw Error("Too many labels for the type that counts them");
+        // account for MM starting at 1
+        ++nrows;
+        ++ncols;
         r.move_to_next_int();
         O nnz = r.read_int<O>();
         r.move_to_eol();
@@ -4223,6 +4229,13 @@ namespace pigo {
             throw Error("Found incomplete entries");
         }
 
+        // The number of labels is one more than the largest label
+        if (max_row == std::numeric_limits<L>::max() ||
+                max_col == std::numeric_limits<L>::max()) {
+            free();
+            throw Error("Too many labels for the type that counts them");
+        }
+
         // Set the number of labels in the matrix represented by the COO
         nrows_ = max_row + 1;
         ncols_ = max_col + 1;
@@ -4875,6 +4888,11 @@ namespace pigo {
             if (max_labels[thread] > col_max)
                 col_max = max_labels[thread];
         }
+        // The number of labels is one more than the largest label
+        if (col_max == std::numeric_limits<L>::max()) {
+            free();
+            throw Error("Too many labels for the type that counts them");
+        }
         ncols_ = col_max+1;
     }
 
-- 
2.43.0


From af6f9be9c79d7ce30087bea424cae5269e5ca1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:56 +0000
Subject: [PATCH 55/56] fix: refuse to write a file that the disk has no space
 for

---
 include/pigo/impl/pigo.impl.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index e532693..70023fe 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -5,6 +5,7 @@
  */
 
 #include <cmath>
+#include <errno.h>
 #include <stdlib.h>
 #include <sys/mman.h>
 #include <sys/types.h>
@@ -37,6 +38,15 @@ namespace pigo {
             // Set the file to the given size
             FILE *w_f = fopen(fn.c_str(), "w");
             if (w_f == NULL) throw Error("PIGO: Unable to open file for writing");
+            #ifdef __linux__
+            // Take the space now, as a full disk cannot be reported when
+            // it is written to through the mapping
+            if (fallocate(fileno(w_f), 0, 0, max_size) != 0 &&
+                    (errno == ENOSPC || errno == EDQUOT)) {
+                fclose(w_f);
+                throw Error("PIGO: No space for the new file");
+            }
+            #endif
             if (fseeko(w_f, max_size-1, SEEK_SET) != 0) {
                 fclose(w_f);
                 throw Error("PIGO: Seek to set size");
-- 
2.43.0


From 67e5d94c9c223a387794af29b353f7e994b766a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:49 +0000
Subject: [PATCH 56/56] fix: bring the single-header release up to date with
 the sources

---
 release/pigo.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/release/pigo.hpp b/release/pigo.hpp
index 38b7808..f230866 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -41,6 +41,7 @@
 #include <atomic>
 #include <cmath>
 #include <cstring>
+#include <errno.h>
 #include <exception>
 #include <fcntl.h>
 #include <limits>
@@ -3045,6 +3046,15 @@ namespace pigo {
             // Set the file to the given size
             FILE *w_f = fopen(fn.c_str(), "w");
             if (w_f == NULL) throw Error("PIGO: Unable to open file for writing");
+            #ifdef __linux__
+            // Take the space now, as a full disk cannot be reported when
+            // it is written to through the mapping
+            if (fallocate(fileno(w_f), 0, 0, max_size) != 0 &&
+                    (errno == ENOSPC || errno == EDQUOT)) {
+                fclose(w_f);
+                throw Error("PIGO: No space for the new file");
+            }
+            #endif
             if (fseeko(w_f, max_size-1, SEEK_SET) != 0) {
                 fclose(w_f);
                 throw Error("PIGO: Seek to set size");
-- 
2.43.0

