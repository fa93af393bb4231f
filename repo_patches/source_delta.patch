From a34ce451eac78480fdd9e79a89cba325a56131ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 01/56] fix: lock the cache while clearing it

Cache::clear() modified the map without taking cache_mutex, racing with
concurrent save() and restore() calls.
---
 pairinteraction/Cache.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/Cache.hpp b/pairinteraction/Cache.hpp
index af917fb..356dd24 100644
--- a/pairinteraction/Cache.hpp
+++ b/pairinteraction/Cache.hpp
@@ -97,7 +97,10 @@ public:
      *
      * Delete all elements in the cache
      */
-    void clear() { cache.clear(); }
+    void clear() {
+        std::lock_guard<std::mutex> lock(cache_mutex);
+        cache.clear();
+    }
 };
 
 #endif // CACHE_H
-- 
2.43.0


From b8801106dd799a59faa577a36f3a3fffdd2a9b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 02/56] fix: look quantum defects up in the requested database
 only

The cache of quantum defects was shared by all databases and cleared whenever
another database was used, through an unsynchronised static string: concurrent
lookups could return values of the wrong database or fail with 'Cache smashing
detected!'. A database file that could not be read silently gave the tables of
the database loaded before, and a damaged one left a transaction open, so that
every later lookup failed.

Make the database part of the cache key, load user databases into a connection
of their own, and report unreadable files.
---
 pairinteraction/QuantumDefect.cpp | 23 +++++++++++++----------
 pairinteraction/QuantumDefect.hpp |  5 ++++-
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/pairinteraction/QuantumDefect.cpp b/pairinteraction/QuantumDefect.cpp
index b3fd1d6..3ed63f1 100644
--- a/pairinteraction/QuantumDefect.cpp
+++ b/pairinteraction/QuantumDefect.cpp
@@ -28,6 +28,7 @@
 #include <exception>
 #include <fstream>
 #include <iostream>
+#include <mutex>
 #include <sstream>
 #include <string>
 #include <utility>
@@ -73,11 +74,14 @@ QuantumDefect::QuantumDefect(std::string const &species, int n, int l, double j,
         static thread_local EmbeddedDatabase embedded_database{};
         setup(embedded_database, database);
     } else {
-        static thread_local sqlite::handle db(":memory:");
-        sqlite::statement stmt(db);
         std::ifstream ifs(database);
         std::stringstream buffer;
         buffer << ifs.rdbuf();
+        if (!ifs || !buffer) {
+            throw std::runtime_error("Could not read the quantum defect database " + database);
+        }
+        sqlite::handle db(":memory:");
+        sqlite::statement stmt(db);
         stmt.exec(buffer.str());
         setup(db, database);
     }
@@ -85,14 +89,9 @@ QuantumDefect::QuantumDefect(std::string const &species, int n, int l, double j,
 
 void QuantumDefect::setup(sqlite3 *db, std::string const &db_name) {
     static Cache<Key, Element, Hash> cache;
-    static std::string used_db_name;
+    static std::mutex save_mutex;
 
-    if (used_db_name != db_name) {
-        used_db_name = db_name;
-        cache.clear(); // Clear cache
-    }
-
-    Key const key{species, n, l, j};
+    Key const key{db_name, species, n, l, j};
     if (auto oe = cache.restore(key)) {
         e = oe.value(); // Restore cache
         return;         // Return early
@@ -193,7 +192,11 @@ void QuantumDefect::setup(sqlite3 *db, std::string const &db_name) {
 
     e.energy = -.5 * (Ry / Ry_inf) / (e.nstar * e.nstar) * au2GHz;
 
-    cache.save(key, e);
+    // Another thread might have looked up the same state in the meantime
+    std::lock_guard<std::mutex> lock(save_mutex);
+    if (!cache.restore(key)) {
+        cache.save(key, e);
+    }
 }
 
 double energy_level(std::string const &species, int n, int l, double j,
diff --git a/pairinteraction/QuantumDefect.hpp b/pairinteraction/QuantumDefect.hpp
index 891a46b..e31d595 100644
--- a/pairinteraction/QuantumDefect.hpp
+++ b/pairinteraction/QuantumDefect.hpp
@@ -53,6 +53,7 @@ class QuantumDefect {
 private:
     /** \brief Key type for quantum defect cache */
     struct Key {
+        std::string database;
         std::string species;
         int n;
         int l;
@@ -60,7 +61,8 @@ private:
 
         /** \brief Comparison for keys */
         bool operator==(Key const &o) const {
-            return (species == o.species && n == o.n && l == o.l && j == o.j);
+            return (database == o.database && species == o.species && n == o.n && l == o.l &&
+                    j == o.j);
         }
     };
 
@@ -69,6 +71,7 @@ private:
         /** \brief Hash the key using utils::hash_combine */
         std::size_t operator()(Key const &key) const {
             std::size_t seed = 0;
+            utils::hash_combine(seed, key.database);
             utils::hash_combine(seed, key.species);
             utils::hash_combine(seed, key.n);
             utils::hash_combine(seed, key.l);
-- 
2.43.0


From e7c8817e2a17f75a3c2f3c0d66b0d3e75da40a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 03/56] fix: visit every row exactly once when iterating over a
 statement

---
 pairinteraction/SQLite.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pairinteraction/SQLite.hpp b/pairinteraction/SQLite.hpp
index 7ee0b6e..8939d75 100644
--- a/pairinteraction/SQLite.hpp
+++ b/pairinteraction/SQLite.hpp
@@ -259,13 +259,12 @@ public:
     class iterator {
     private:
         statement *m_stmt;
-        bool m_done;
         bool m_end;
 
     public:
-        iterator() : m_stmt{nullptr}, m_done{true}, m_end{true} {}
+        iterator() : m_stmt{nullptr}, m_end{true} {}
 
-        explicit iterator(statement *p) : m_stmt{p}, m_done{false}, m_end{false} { m_stmt->step(); }
+        explicit iterator(statement *p) : m_stmt{p}, m_end{!p->step()} {}
 
         statement &operator*() const {
 #ifndef NDEBUG
@@ -275,10 +274,8 @@ public:
             return *m_stmt;
         }
         iterator &operator++() {
-            if (!m_done) {
-                m_done = m_stmt->step();
-            } else {
-                m_end = true;
+            if (!m_end) {
+                m_end = !m_stmt->step();
             }
             return *this;
         }
-- 
2.43.0


From c2d235fee1b73899f76069d83438beb36195bcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 04/56] fix: make a statement usable again after a failed or
 finished run

---
 pairinteraction/SQLite.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/SQLite.hpp b/pairinteraction/SQLite.hpp
index 8939d75..8273dd3 100644
--- a/pairinteraction/SQLite.hpp
+++ b/pairinteraction/SQLite.hpp
@@ -128,6 +128,8 @@ public:
      * \throws sqlite::error
      */
     void prepare() {
+        m_prepared = false;
+
         sqlite3_stmt *pStmt; // is managed below
         auto err = sqlite3_prepare_v2(m_db, m_sql.c_str(), -1, &pStmt, nullptr);
         m_stmt.reset(pStmt);
@@ -135,6 +137,7 @@ public:
         handle_error(err);
 
         m_prepared = true;
+        m_valid = true;
     }
 
     /** \brief Step the statement
@@ -176,7 +179,8 @@ public:
      * \throws sqlite::error
      */
     void reset() {
-        handle_error(sqlite3_reset(m_stmt.get()));
+        // the return value only repeats the error of the previous step
+        sqlite3_reset(m_stmt.get());
         m_valid = true;
     }
 
-- 
2.43.0


From 21283d8b726ec54e0d0ef276a705c73dc379dbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 05/56] fix: read NULL and text with embedded zeros from a
 statement

---
 pairinteraction/SQLite.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/SQLite.hpp b/pairinteraction/SQLite.hpp
index 8273dd3..e961c13 100644
--- a/pairinteraction/SQLite.hpp
+++ b/pairinteraction/SQLite.hpp
@@ -248,8 +248,11 @@ public:
     template <typename T,
               typename = typename std::enable_if<std::is_same<T, std::string>::value>::type>
     std::string get(int field) {
-        return std::string(
-            reinterpret_cast<char const *>(sqlite3_column_text(m_stmt.get(), field)));
+        auto text = reinterpret_cast<char const *>(sqlite3_column_text(m_stmt.get(), field));
+        if (text == nullptr) {
+            return {};
+        }
+        return std::string(text, sqlite3_column_bytes(m_stmt.get(), field));
     }
 #endif
 
-- 
2.43.0


From 3c2692ad178ccee48baf857101b093f1860dbbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 06/56] fix: serialise the current entries after a matrix is
 compressed again

---
 pairinteraction/Hamiltonianmatrix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index 5ca7da1..f142c89 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -84,6 +84,7 @@ void Hamiltonianmatrix<Scalar>::addEntries(idx_t row, idx_t col, Scalar val) {
 
 template <typename Scalar>
 void Hamiltonianmatrix<Scalar>::compress(size_t nBasis, size_t nCoordinates) {
+    bytes.clear();
     basis_.resize(nCoordinates, nBasis);
     entries_.resize(nBasis, nBasis);
     basis_.setFromTriplets(triplets_basis.begin(), triplets_basis.end());
-- 
2.43.0


From 4a683e51f84ac465b514ca5bae0a917538e3c6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 07/56] fix: report when a matrix could not be written to its
 file

---
 pairinteraction/Hamiltonianmatrix.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index f142c89..c6e7354 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -498,12 +498,19 @@ void Hamiltonianmatrix<Scalar>::save(const std::string &fname) {
     // open file
     FILE *pFile;
     pFile = fopen(fname.c_str(), "wb");
+    if (pFile == nullptr) {
+        throw std::runtime_error("Matrix could not be written to file " + fname + ".");
+    }
 
     // write
-    fwrite(&bytes[0], 1, sizeof(byte_t) * bytes.size(), pFile);
+    size_t size_result = fwrite(&bytes[0], 1, sizeof(byte_t) * bytes.size(), pFile);
 
     // close file
-    fclose(pFile);
+    int close_result = fclose(pFile);
+
+    if (size_result != sizeof(byte_t) * bytes.size() || close_result != 0) {
+        throw std::runtime_error("Matrix could not be written to file " + fname + ".");
+    }
 }
 
 template <typename Scalar>
-- 
2.43.0


From adae3bf08e274fa4705f9383ee45a84e8fa71c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 08/56] fix: keep a matrix usable and close its file after a
 failed load

---
 pairinteraction/Hamiltonianmatrix.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index c6e7354..557b2b6 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -517,21 +517,22 @@ template <typename Scalar>
 bool Hamiltonianmatrix<Scalar>::load(const std::string &fname) {
     try {
         // open file
-        if (FILE *pFile = fopen(fname.c_str(), "rb")) {
+        std::unique_ptr<FILE, int (*)(FILE *)> pFile(fopen(fname.c_str(), "rb"), fclose);
+        if (pFile) {
             // obtain file size:
-            fseek(pFile, 0, SEEK_END);
-            size_t size_file = ftell(pFile);
-            rewind(pFile);
+            fseek(pFile.get(), 0, SEEK_END);
+            size_t size_file = ftell(pFile.get());
+            rewind(pFile.get());
 
             // read
             bytes.resize(size_file / sizeof(byte_t));
-            size_t size_result = fread(&bytes[0], 1, sizeof(byte_t) * bytes.size(), pFile);
+            size_t size_result = fread(bytes.data(), 1, sizeof(byte_t) * bytes.size(), pFile.get());
             if (size_result != size_file) {
                 throw std::runtime_error("Matrix could not be read from file.");
             }
 
             // close file
-            fclose(pFile);
+            pFile.reset();
 
             doDeserialization();
 
@@ -540,6 +541,8 @@ bool Hamiltonianmatrix<Scalar>::load(const std::string &fname) {
         return false;
 
     } catch (std::exception &e) {
+        // the bytes do not belong to the entries and the basis of this object
+        bytes.clear();
 #pragma omp critical(textoutput)
         std::cerr << e.what() << std::endl;
         return false;
-- 
2.43.0


From 6c5326af96d460734ccf50b769d0312cf2727b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 09/56] fix: restore every column of a matrix file and refuse
 damaged ones

---
 pairinteraction/Hamiltonianmatrix.cpp | 55 ++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index 557b2b6..f0732f7 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -411,6 +411,38 @@ void Hamiltonianmatrix<Scalar>::deserialize(bytes_t &bytesin) {
     doDeserialization();
 }
 
+namespace {
+template <typename Scalar>
+Eigen::SparseMatrix<Scalar> buildSparse(storage_idx_t rows, storage_idx_t cols,
+                                        const std::vector<Scalar> &data,
+                                        const std::vector<idx_t> &indices,
+                                        const std::vector<idx_t> &indptr) {
+    // check that the vectors describe a sparse matrix, the file they come from might be damaged
+    bool valid = rows >= 0 && cols >= 0 && indices.size() == data.size() &&
+        indptr.size() == static_cast<size_t>(cols) && (cols > 0 || data.empty()) &&
+        (indptr.empty() || indptr.front() == 0);
+    for (size_t col = 0; valid && col < indptr.size(); ++col) {
+        size_t end = (col + 1 < indptr.size()) ? indptr[col + 1] : data.size();
+        valid = indptr[col] <= end && end <= data.size();
+        for (size_t i = indptr[col]; valid && i < end; ++i) {
+            valid = indices[i] < static_cast<idx_t>(rows);
+        }
+    }
+    if (!valid) {
+        throw std::runtime_error("Corrupted data discovered.");
+    }
+
+    Eigen::SparseMatrix<Scalar> matrix(rows, cols);
+    matrix.makeCompressed();
+    matrix.resizeNonZeros(data.size());
+    std::copy(data.begin(), data.end(), matrix.valuePtr());
+    std::copy(indices.begin(), indices.end(), matrix.innerIndexPtr());
+    std::copy(indptr.begin(), indptr.end(), matrix.outerIndexPtr());
+    matrix.outerIndexPtr()[cols] = data.size();
+    return matrix;
+}
+} // namespace
+
 template <typename Scalar>
 void Hamiltonianmatrix<Scalar>::doDeserialization() {
     // deserialize vectors of primitive data types
@@ -453,28 +485,23 @@ void Hamiltonianmatrix<Scalar>::doDeserialization() {
         std::cout << fmt::format(">>ERR{:s}", msg.c_str()) << std::endl;
         throw std::runtime_error(msg);
     }
+    if (utils::is_complex<Scalar>::value &&
+        (entries_data_imag.size() != entries_data_real.size() ||
+         basis_data_imag.size() != basis_data_real.size())) {
+        throw std::runtime_error("Corrupted data discovered.");
+    }
 
     // build matrix "entries_"
     std::vector<Scalar> entries_data;
     mergeComplex(entries_data_real, entries_data_imag, entries_data);
-    entries_ = Eigen::SparseMatrix<Scalar>(entries_rows, entries_cols);
-    entries_.makeCompressed();
-    entries_.resizeNonZeros(entries_data.size());
-    std::copy(entries_data.begin(), entries_data.end(), entries_.valuePtr());
-    std::copy(entries_indices.begin(), entries_indices.end(), entries_.innerIndexPtr());
-    std::copy(entries_indptr.begin(), entries_indptr.end(), entries_.outerIndexPtr());
-    entries_.finalize();
+    auto entries =
+        buildSparse(entries_rows, entries_cols, entries_data, entries_indices, entries_indptr);
 
     // build matrix "basis_"
     std::vector<Scalar> basis_data;
     mergeComplex(basis_data_real, basis_data_imag, basis_data);
-    basis_ = Eigen::SparseMatrix<Scalar>(basis_rows, basis_cols);
-    basis_.makeCompressed();
-    basis_.resizeNonZeros(basis_data.size());
-    std::copy(basis_data.begin(), basis_data.end(), basis_.valuePtr());
-    std::copy(basis_indices.begin(), basis_indices.end(), basis_.innerIndexPtr());
-    std::copy(basis_indptr.begin(), basis_indptr.end(), basis_.outerIndexPtr());
-    basis_.finalize();
+    basis_ = buildSparse(basis_rows, basis_cols, basis_data, basis_indices, basis_indptr);
+    entries_ = std::move(entries);
 }
 
 template <typename Scalar>
-- 
2.43.0


From 85277560dab1c625c0aa04f71accd88a27dce17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 10/56] fix: keep configuration keys that contain dots

---
 pairinteraction/ConfParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/ConfParser.cpp b/pairinteraction/ConfParser.cpp
index 1b80465..9c01110 100644
--- a/pairinteraction/ConfParser.cpp
+++ b/pairinteraction/ConfParser.cpp
@@ -41,7 +41,8 @@ void Configuration::save_to_json(std::string const &filename) const {
     ptree pt;
 
     for (auto const &p : *this) {
-        pt.put(p.first, p.second.str());
+        // not put(), which splits the key at dots
+        pt.push_back({p.first, ptree{p.second.str()}});
     }
 
     write_json(filename, pt);
-- 
2.43.0


From d2e4027eeb4b0ad5bb10ca41fd7442e12645859c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 11/56] fix: keep all digits of the numbers in a configuration

---
 pairinteraction/ConfParser.hpp | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/pairinteraction/ConfParser.hpp b/pairinteraction/ConfParser.hpp
index 833b9a2..32dc7d4 100644
--- a/pairinteraction/ConfParser.hpp
+++ b/pairinteraction/ConfParser.hpp
@@ -20,9 +20,12 @@
 #ifndef CONF_PARSER_H
 #define CONF_PARSER_H
 
+#include <iomanip>
+#include <limits>
 #include <map>
 #include <sstream>
 #include <string>
+#include <type_traits>
 
 /** \brief %Configuration storage
  *
@@ -37,6 +40,30 @@ private:
     class value {
         std::string m_value;
 
+        template <typename T>
+        static std::string to_string(T const &rhs, std::false_type /*is_floating_point*/) {
+            std::ostringstream os;
+            os << rhs;
+            return os.str();
+        }
+
+        // uses as many digits as are needed to get the same number back
+        template <typename T>
+        static std::string to_string(T const &rhs, std::true_type /*is_floating_point*/) {
+            std::string str;
+            for (int digits = std::numeric_limits<T>::digits10;
+                 digits <= std::numeric_limits<T>::max_digits10; ++digits) {
+                std::ostringstream os;
+                os << std::setprecision(digits) << rhs;
+                str = os.str();
+                T parsed{};
+                if ((std::istringstream{str} >> parsed) && parsed == rhs) {
+                    break;
+                }
+            }
+            return str;
+        }
+
     public:
         value() = default;
 
@@ -46,9 +73,7 @@ private:
 
         template <typename T>
         value &operator<<(T const &rhs) {
-            std::ostringstream os;
-            os << rhs;
-            m_value = os.str();
+            m_value = to_string(rhs, std::is_floating_point<T>{});
             return *this;
         }
 
-- 
2.43.0


From 5d5a0a2e3d55d1a3e212e3f56a442d4d72a16397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 12/56] fix: leave a configuration unchanged when loading fails
 half-way

---
 pairinteraction/ConfParser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/ConfParser.cpp b/pairinteraction/ConfParser.cpp
index 9c01110..c4c911d 100644
--- a/pairinteraction/ConfParser.cpp
+++ b/pairinteraction/ConfParser.cpp
@@ -29,9 +29,12 @@ void Configuration::load_from_json(std::string const &filename) {
     ptree pt;
     read_json(filename, pt);
 
+    // keep the present parameters in case of an error
+    auto loaded = params;
     for (auto const &itr : pt) {
-        params[itr.first] << itr.second.data();
+        loaded[itr.first] << itr.second.data();
     }
+    params.swap(loaded);
 }
 
 void Configuration::save_to_json(std::string const &filename) const {
-- 
2.43.0


From 310a1f10337f5f77f745146432a7e04e7dad0847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:26 +0000
Subject: [PATCH 13/56] fix: leave a matrix unchanged when memory runs out
 while loading

---
 pairinteraction/Hamiltonianmatrix.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index f0732f7..714d69d 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -500,8 +500,11 @@ void Hamiltonianmatrix<Scalar>::doDeserialization() {
     // build matrix "basis_"
     std::vector<Scalar> basis_data;
     mergeComplex(basis_data_real, basis_data_imag, basis_data);
-    basis_ = buildSparse(basis_rows, basis_cols, basis_data, basis_indices, basis_indptr);
-    entries_ = std::move(entries);
+    auto basis = buildSparse(basis_rows, basis_cols, basis_data, basis_indices, basis_indptr);
+
+    // nothing can fail from here on
+    entries_.swap(entries);
+    basis_.swap(basis);
 }
 
 template <typename Scalar>
-- 
2.43.0


From 8ff9b89707d2e7df518e7905b07a15063251a942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:53 +0000
Subject: [PATCH 14/56] fix: do not parse a line that a dying backend left
 incomplete

---
 pairinteraction_gui/worker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pairinteraction_gui/worker.py b/pairinteraction_gui/worker.py
index 1a62e91..ce04850 100644
--- a/pairinteraction_gui/worker.py
+++ b/pairinteraction_gui/worker.py
@@ -48,6 +48,9 @@ class Worker(QThread):
         for line in iter(self.stdout.readline, b""):
             if self.exiting or not line or self.all_queues.finishedgracefully:
                 break
+            if not line.endswith(b"\n"):
+                # the backend died while it was writing this line
+                break
             self.all_queues.processOneLine(line)
 
         # Clear data queue if thread has aborted
-- 
2.43.0


From 37a22758b39f2dbb455c68fe691753fd79c584d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:53 +0000
Subject: [PATCH 15/56] fix: deliver the backend's error messages to the GUI

---
 pairinteraction_gui/worker.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pairinteraction_gui/worker.py b/pairinteraction_gui/worker.py
index ce04850..a51adec 100644
--- a/pairinteraction_gui/worker.py
+++ b/pairinteraction_gui/worker.py
@@ -31,6 +31,7 @@ class Worker(QThread):
     def __init__(self, all_queues, parent=None):
         super().__init__(parent)
         self.all_queues = all_queues
+        self.all_queues.criticalsignal = self.criticalsignal
         self.exiting = False
 
     def __del__(self):
@@ -63,6 +64,7 @@ class Worker(QThread):
 class AllQueues:
     def __init__(self):
         self.dataqueues = [Queue(), Queue(), Queue()]  # field1, field2, potential
+        self.criticalsignal = None  # set by the worker that reads the output
         self.clear()
 
     def clear(self):
@@ -126,7 +128,8 @@ class AllQueues:
             self.dataqueues[self._type % 3].put([filestep, blocks, blocknumber, filename])
 
         elif line[:5] == ">>ERR":
-            self.criticalsignal.emit(line[5:].strip())
+            if self.criticalsignal is not None:
+                self.criticalsignal.emit(line[5:].strip())
 
         elif line[:5] == ">>END":
             self.finishedgracefully = True
-- 
2.43.0


From 184abe153a2406001ef55a70dad3e206d7e2938f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:13 +0000
Subject: [PATCH 16/56] fix: allow to abort a calculation before its thread
 began

---
 pairinteraction_gui/pipy_thread.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pairinteraction_gui/pipy_thread.py b/pairinteraction_gui/pipy_thread.py
index 10eb90a..6eb1d60 100755
--- a/pairinteraction_gui/pipy_thread.py
+++ b/pairinteraction_gui/pipy_thread.py
@@ -103,7 +103,8 @@ class PipyThread(QThread):
                 if current_time < os.path.getmtime(f):
                     os.remove(f)
 
-        atom = self._kwargs.get("atom", None)
+        # the thread may have been stopped before it began
+        atom = None if self._kwargs is None else self._kwargs.get("atom", None)
         if atom is not None:
             atom.delete()
 
-- 
2.43.0


From 7e09152714095be969bd4bd83b7b418d75413bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:51 +0000
Subject: [PATCH 17/56] fix: do not share basis files between GUI processes

---
 pairinteraction_gui/pipy_thread.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pairinteraction_gui/pipy_thread.py b/pairinteraction_gui/pipy_thread.py
index 6eb1d60..9311e8b 100755
--- a/pairinteraction_gui/pipy_thread.py
+++ b/pairinteraction_gui/pipy_thread.py
@@ -147,7 +147,8 @@ class PipyThread(QThread):
         info(f"basis size with restrictions: {len(allQunumbers)}", kwargs)
         _name = f"{'one' if atom.nAtoms == 1 else 'two'}_{atom.config.toHash()}"
         path_tmp = tempfile.gettempdir()
-        path_basis = os.path.join(path_tmp, f"basis_{_name}_blocknumber_{settings['blocknumber']}.csv")
+        # the directory is shared with other processes, which might do the same calculation
+        path_basis = os.path.join(path_tmp, f"basis_{_name}_{os.getpid()}_blocknumber_{settings['blocknumber']}.csv")
         basis = np.insert(allQunumbers, 0, np.arange(len(allQunumbers)), axis=1)
         np.savetxt(path_basis, basis, delimiter="\t", fmt=["%d"] + ["%d", "%d", "%.1f", "%.1f"] * atom.nAtoms)
         info(f"save {type(atom).__name__} basis", kwargs)
-- 
2.43.0


From 173260e8fdf1f6d690ab1acb35e500644c3ad82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:46 +0000
Subject: [PATCH 18/56] fix: update the fields of both atoms of a pair

---
 pairinteraction_gui/pipy/atom.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pairinteraction_gui/pipy/atom.py b/pairinteraction_gui/pipy/atom.py
index 7b38c45..86d5c0a 100755
--- a/pairinteraction_gui/pipy/atom.py
+++ b/pairinteraction_gui/pipy/atom.py
@@ -539,9 +539,14 @@ class AtomTwo(Atom):
             raise ValueError(f"Invalid key {k} in AtomTwo updateFromParams")
 
         config = self.config
-        update = {
-            **{f"atom{i}": atom.updateFromParams(atom_new) for i, atom in enumerate(self.atoms, 1)},
-        }
+        # the atoms share the fields stored in the config, but each one has to be updated starting from the old fields
+        old_fields = [(atom.config.Efield(), atom.config.Bfield()) for atom in self.atoms]
+        update = {}
+        for i, (atom, (Efield, Bfield)) in enumerate(zip(self.atoms, old_fields), 1):
+            if i > 1:
+                config.setEfield(Efield, "")
+                config.setBfield(Bfield, "")
+            update[f"atom{i}"] = atom.updateFromParams(atom_new)
         for k in ["angle", "distance", "inversion", "permutation", "reflection"]:
             if k in new:
                 update[k] = new[k] != getattr(config, k)()
-- 
2.43.0


From aaa76b73a5eded21611877e155eb4c83ada035ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:25 +0000
Subject: [PATCH 19/56] fix: distinguish cached results that differ in the
 reference energy

---
 pairinteraction_gui/pipy/config.py | 1 +
 pairinteraction_gui/pipy_thread.py | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pairinteraction_gui/pipy/config.py b/pairinteraction_gui/pipy/config.py
index d7b42de..620e2dd 100755
--- a/pairinteraction_gui/pipy/config.py
+++ b/pairinteraction_gui/pipy/config.py
@@ -231,6 +231,7 @@ class Config:
 
     def toOutDictSingle(self, part=None) -> "dict[str, Any]":
         """Get a dictionary with all the output parameters for one AtomOne."""
+        part = getattr(self, "iAtom", 1) if part is None else part
         output = {
             "species": self.species(part),
             "momenta": self.momentaSingle(part),
diff --git a/pairinteraction_gui/pipy_thread.py b/pairinteraction_gui/pipy_thread.py
index 9311e8b..cf29ceb 100755
--- a/pairinteraction_gui/pipy_thread.py
+++ b/pairinteraction_gui/pipy_thread.py
@@ -240,6 +240,8 @@ class PipyThread(QThread):
         real_complex = "real" if config.isReal() else "complex"
         pathCacheMatrix = os.path.join(config.pathCache(), f"cache_matrix_{real_complex}_new")
         os.makedirs(pathCacheMatrix, exist_ok=True)
+        # the saved energies are relative to these energies, thus they have to be known when the hash is calculated
+        energies0 = config.getEnergiesPair() if atom.nAtoms == 2 else config.getEnergiesSingle()
         _name = f"{'one' if atom.nAtoms == 1 else 'two'}_{config.toHash()}"
         filename = os.path.join(pathCacheMatrix, _name + ".pkl")
         filename_json = os.path.join(pathCacheMatrix, _name + ".json")
@@ -247,7 +249,6 @@ class PipyThread(QThread):
         pirealcomplex = "pireal" if config.isReal() else "picomplex"
         if not os.path.exists(filename) or not os.path.exists(filename_json):
             atom.calcEnergies()
-            energies0 = config.getEnergiesPair() if atom.nAtoms == 2 else config.getEnergiesSingle()
             data = {
                 "energies": atom.energies - np.mean(energies0),
                 "basis": atom.vectors,
-- 
2.43.0


From 6da15a506761c568838464a6f6cf947db9d1e0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:31 +0000
Subject: [PATCH 20/56] fix: write cached results atomically

---
 pairinteraction_gui/pipy_thread.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pairinteraction_gui/pipy_thread.py b/pairinteraction_gui/pipy_thread.py
index cf29ceb..fbd8610 100755
--- a/pairinteraction_gui/pipy_thread.py
+++ b/pairinteraction_gui/pipy_thread.py
@@ -6,7 +6,6 @@ import multiprocessing
 import os
 import pickle
 import tempfile
-import time
 
 import numpy as np
 from PyQt5.QtCore import QThread
@@ -84,24 +83,21 @@ class PipyThread(QThread):
         # but also might be slower and introduces bugs, where the gui does not close, althoug the terminal terminated
         print("Terminate PipyThread")
         self.terminating = True
-        current_time = time.time()
+        pids = [os.getpid()] + [process.pid for process in multiprocessing.active_children()]
         self.killPool()
         super().terminate()
         self.wait()
         # FIXME, in some instances wait will wait forever.
         # For some reason using a QDeadlineTimer also did not work
 
-        # delete files, that where changed during pool.terminate was called
+        # delete the temporary files that were left behind by killing the processes
         for real_complex in ["real", "complex"]:
             pathCacheMatrix = os.path.join(self.params["pathCache"], f"cache_matrix_{real_complex}_new")
             if not os.path.isdir(pathCacheMatrix):
                 continue
             for fn in os.listdir(pathCacheMatrix):
-                f = os.path.join(pathCacheMatrix, fn)
-                if not os.path.isfile(f):
-                    continue
-                if current_time < os.path.getmtime(f):
-                    os.remove(f)
+                if any(fn.endswith(f".{pid}.tmp") for pid in pids):
+                    os.remove(os.path.join(pathCacheMatrix, fn))
 
         # the thread may have been stopped before it began
         atom = None if self._kwargs is None else self._kwargs.get("atom", None)
@@ -259,10 +255,15 @@ class PipyThread(QThread):
                 f"{pirealcomplex}: {ip+1}. Hamiltonian diagonalized ({dimension}x{dimension})"
                 f"({multiprocessing.current_process().name})"
             )
-            with open(filename, "wb") as f:
+            # other processes might use the same files, so they have to appear complete and must never be changed
+            filename_tmp = f"{filename}.{os.getpid()}.tmp"
+            with open(filename_tmp, "wb") as f:
                 pickle.dump(data, f)
-            with open(filename_json, "w") as f:
+            os.replace(filename_tmp, filename)
+            filename_tmp = f"{filename_json}.{os.getpid()}.tmp"
+            with open(filename_tmp, "w") as f:
                 json.dump(data["params"], f, indent=4)
+            os.replace(filename_tmp, filename_json)
         else:
             print(f"{pirealcomplex}: {ip+1}. Hamiltonian loaded")
 
-- 
2.43.0


From 7982724be612c112c9f78c1bf618318911462386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:52 +0000
Subject: [PATCH 21/56] fix: cache matrix elements with all their digits

---
 pairinteraction/MatrixElements.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pairinteraction/MatrixElements.cpp b/pairinteraction/MatrixElements.cpp
index 88edc3b..9f4992a 100644
--- a/pairinteraction/MatrixElements.cpp
+++ b/pairinteraction/MatrixElements.cpp
@@ -252,6 +252,7 @@ void MatrixElements::precalculate(const std::shared_ptr<const BasisnamesOne> &ba
     // --- determine elements ---
 
     std::stringstream ss;
+    ss.precision(std::numeric_limits<double>::max_digits10);
 
     stmt.exec("begin transaction;");
 
-- 
2.43.0


From 8651f82c9bfdf1d0c7f8dc38694359c6f0fea4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:14 +0000
Subject: [PATCH 22/56] fix: tolerate matrix elements that another process
 cached meanwhile

---
 pairinteraction/MatrixElements.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pairinteraction/MatrixElements.cpp b/pairinteraction/MatrixElements.cpp
index 9f4992a..46caad1 100644
--- a/pairinteraction/MatrixElements.cpp
+++ b/pairinteraction/MatrixElements.cpp
@@ -462,8 +462,8 @@ void MatrixElements::precalculate(const std::shared_ptr<const BasisnamesOne> &ba
                 cache.second = calcRadialElement(qd1, kappar, qd2);
 
                 ss.str(std::string());
-                ss << "insert into cache_radial (method, species, k, n1, l1, j1, n2, l2, j2, "
-                      "value) values ("
+                ss << "insert or ignore into cache_radial (method, species, k, n1, l1, j1, n2, l2, "
+                      "j2, value) values ("
                    << "'" << method << "'"
                    << ","
                    << "'" << species << "'"
@@ -486,8 +486,8 @@ void MatrixElements::precalculate(const std::shared_ptr<const BasisnamesOne> &ba
                                             state.m[1]);
 
                 ss.str(std::string());
-                ss << "insert into cache_angular (k, j1, m1, j2, m2, value) values (" << kappa
-                   << "," << state.j[0] << "," << state.m[0] << "," << state.j[1] << ","
+                ss << "insert or ignore into cache_angular (k, j1, m1, j2, m2, value) values ("
+                   << kappa << "," << state.j[0] << "," << state.m[0] << "," << state.j[1] << ","
                    << state.m[1] << "," << cache.second << ");";
                 stmt.exec(ss.str());
             }
@@ -516,7 +516,8 @@ void MatrixElements::precalculate(const std::shared_ptr<const BasisnamesOne> &ba
                 }
 
                 ss.str(std::string());
-                ss << "insert into cache_reduced_commutes_s (k, l1, j1, l2, j2, value) values ("
+                ss << "insert or ignore into cache_reduced_commutes_s (k, l1, j1, l2, j2, value) "
+                      "values ("
                    << kappa << "," << state.l[0] << "," << state.j[0] << "," << state.l[1] << ","
                    << state.j[1] << "," << cache.second << ");";
                 stmt.exec(ss.str());
@@ -534,7 +535,8 @@ void MatrixElements::precalculate(const std::shared_ptr<const BasisnamesOne> &ba
                     WignerSymbols::wigner6j(0.5, state.j[0], state.l[0], state.j[1], 0.5, kappa);
 
                 ss.str(std::string());
-                ss << "insert into cache_reduced_commutes_l (k, l1, j1, l2, j2, value) values ("
+                ss << "insert or ignore into cache_reduced_commutes_l (k, l1, j1, l2, j2, value) "
+                      "values ("
                    << kappa << "," << state.l[0] << "," << state.j[0] << "," << state.l[1] << ","
                    << state.j[1] << "," << cache.second << ");";
                 stmt.exec(ss.str());
@@ -552,8 +554,8 @@ void MatrixElements::precalculate(const std::shared_ptr<const BasisnamesOne> &ba
                     WignerSymbols::wigner3j(state.l[0], kappa, state.l[1], 0, 0, 0);
 
                 ss.str(std::string());
-                ss << "insert into cache_reduced_multipole (k, l1, l2, value) values (" << kappa
-                   << "," << state.l[0] << "," << state.l[1] << "," << cache.second << ");";
+                ss << "insert or ignore into cache_reduced_multipole (k, l1, l2, value) values ("
+                   << kappa << "," << state.l[0] << "," << state.l[1] << "," << cache.second << ");";
                 stmt.exec(ss.str());
             }
         }
-- 
2.43.0


From 9927f7fd64178e664909b6c81b7295d445373932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:14 +0000
Subject: [PATCH 23/56] fix: report when a basis could not be written to its
 file

---
 pairinteraction/Basisnames.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pairinteraction/Basisnames.cpp b/pairinteraction/Basisnames.cpp
index d33ce83..3561b2f 100644
--- a/pairinteraction/Basisnames.cpp
+++ b/pairinteraction/Basisnames.cpp
@@ -290,6 +290,9 @@ void BasisnamesOne::save(const std::string &path) {
                 << state.m << std::endl;
     }
     csvfile.close();
+    if (!csvfile) {
+        throw std::runtime_error("Basis could not be written to file " + path + ".");
+    }
 }
 
 BasisnamesTwo::BasisnamesTwo(const std::shared_ptr<const BasisnamesOne> &basis_one1) {
@@ -438,4 +441,7 @@ void BasisnamesTwo::save(const std::string &path) {
                 << state.j[1] << "\t" << state.m[1] << std::endl;
     }
     csvfile.close();
+    if (!csvfile) {
+        throw std::runtime_error("Basis could not be written to file " + path + ".");
+    }
 }
-- 
2.43.0


From 1bf58db1e14ab71a3fa86b5291a31f0daf42c14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:25 +0000
Subject: [PATCH 24/56] fix: recompute a cached result whose parameter file is
 damaged

---
 pairinteraction/HamiltonianOne.cpp | 8 +++++---
 pairinteraction/HamiltonianTwo.cpp | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/pairinteraction/HamiltonianOne.cpp b/pairinteraction/HamiltonianOne.cpp
index 2a8a45b..cd7b581 100644
--- a/pairinteraction/HamiltonianOne.cpp
+++ b/pairinteraction/HamiltonianOne.cpp
@@ -580,9 +580,11 @@ void HamiltonianOne<Scalar>::build() {
         if (fs::exists(path_mat)) {
             if (fs::exists(path_json)) {
                 Configuration params_loaded;
-                params_loaded.load_from_json(path_json.string());
-                if (conf == params_loaded) {
-                    is_existing = true;
+                try {
+                    params_loaded.load_from_json(path_json.string());
+                    is_existing = (conf == params_loaded);
+                } catch (std::exception const & /* unused */) {
+                    is_existing = false; // the file is damaged and gets rewritten
                 }
             }
         }
diff --git a/pairinteraction/HamiltonianTwo.cpp b/pairinteraction/HamiltonianTwo.cpp
index a3136de..9eb80fc 100644
--- a/pairinteraction/HamiltonianTwo.cpp
+++ b/pairinteraction/HamiltonianTwo.cpp
@@ -801,9 +801,11 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
             if (fs::exists(path_mat)) {
                 if (fs::exists(path_json)) {
                     Configuration params_loaded;
-                    params_loaded.load_from_json(path_json.string());
-                    if (conf == params_loaded) {
-                        is_existing = true;
+                    try {
+                        params_loaded.load_from_json(path_json.string());
+                        is_existing = (conf == params_loaded);
+                    } catch (std::exception const & /* unused */) {
+                        is_existing = false; // the file is damaged and gets rewritten
                     }
                 }
             }
-- 
2.43.0


From 779034ff84c959a36862bceced0cff7623d8bf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:39 +0000
Subject: [PATCH 25/56] fix: let no thread use the table of results before it
 exists

---
 pairinteraction/HamiltonianOne.cpp | 6 +++---
 pairinteraction/HamiltonianTwo.cpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pairinteraction/HamiltonianOne.cpp b/pairinteraction/HamiltonianOne.cpp
index cd7b581..fab9847 100644
--- a/pairinteraction/HamiltonianOne.cpp
+++ b/pairinteraction/HamiltonianOne.cpp
@@ -498,6 +498,7 @@ void HamiltonianOne<Scalar>::build() {
         std::stringstream query;
         std::string spacer;
 
+#pragma omp critical(database)
         if (flag_perhapsmissingtable) {
             query << "CREATE TABLE IF NOT EXISTS cache_one (uuid text NOT NULL PRIMARY KEY, "
                      "created TIMESTAMP DEFAULT CURRENT_TIMESTAMP, "
@@ -512,10 +513,9 @@ void HamiltonianOne<Scalar>::build() {
             }
             query << "));";
 
-            flag_perhapsmissingtable = false;
-
-#pragma omp critical(database)
             stmt.exec(query.str());
+
+            flag_perhapsmissingtable = false;
         }
 
         // === Get uuid as filename === // TODO put code in its own method
diff --git a/pairinteraction/HamiltonianTwo.cpp b/pairinteraction/HamiltonianTwo.cpp
index 9eb80fc..34463e2 100644
--- a/pairinteraction/HamiltonianTwo.cpp
+++ b/pairinteraction/HamiltonianTwo.cpp
@@ -719,6 +719,7 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
             std::stringstream query;
             std::string spacer;
 
+#pragma omp critical(database)
             if (flag_perhapsmissingtable) {
                 query << "CREATE TABLE IF NOT EXISTS cache_two (uuid text NOT NULL PRIMARY KEY, "
                          "created TIMESTAMP DEFAULT CURRENT_TIMESTAMP, "
@@ -733,7 +734,6 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
                 }
                 query << "));";
 
-#pragma omp critical(database)
                 stmt.exec(query.str());
 
                 flag_perhapsmissingtable = false;
-- 
2.43.0


From 070ba5efba166cc4e2187f9811b17b702289384a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:03 +0000
Subject: [PATCH 26/56] fix: let concurrent calculations agree on the file of a
 result

---
 pairinteraction/HamiltonianOne.cpp | 16 +++++++++++++---
 pairinteraction/HamiltonianTwo.cpp | 16 +++++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/pairinteraction/HamiltonianOne.cpp b/pairinteraction/HamiltonianOne.cpp
index fab9847..509ffcf 100644
--- a/pairinteraction/HamiltonianOne.cpp
+++ b/pairinteraction/HamiltonianOne.cpp
@@ -528,10 +528,11 @@ void HamiltonianOne<Scalar>::build() {
             spacer = " AND ";
         }
         query << ";";
+        std::string query_uuid = query.str();
 
 #pragma omp critical(database)
         {
-            sqlite::statement stmt(db, query.str());
+            sqlite::statement stmt(db, query_uuid);
             stmt.prepare();
             if (stmt.step()) {
                 uuid = stmt.get<std::string>(0);
@@ -550,7 +551,7 @@ void HamiltonianOne<Scalar>::build() {
             boost::algorithm::hex(u.begin(), u.end(), std::back_inserter(uuid));
 
             query.str(std::string());
-            query << "INSERT INTO cache_one (uuid";
+            query << "INSERT OR IGNORE INTO cache_one (uuid";
             for (auto p : conf) {
                 query << ", " << p.first;
             }
@@ -561,7 +562,16 @@ void HamiltonianOne<Scalar>::build() {
             }
             query << ");";
 #pragma omp critical(database)
-            stmt.exec(query.str());
+            {
+                stmt.exec(query.str());
+
+                // adopt the uuid of another process or thread that inserted the same row first
+                sqlite::statement stmt(db, query_uuid);
+                stmt.prepare();
+                if (stmt.step()) {
+                    uuid = stmt.get<std::string>(0);
+                }
+            }
         }
 
         // === Check existence of files === // TODO put code in its own method
diff --git a/pairinteraction/HamiltonianTwo.cpp b/pairinteraction/HamiltonianTwo.cpp
index 34463e2..048ca5c 100644
--- a/pairinteraction/HamiltonianTwo.cpp
+++ b/pairinteraction/HamiltonianTwo.cpp
@@ -749,10 +749,11 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
                 spacer = " AND ";
             }
             query << ";";
+            std::string query_uuid = query.str();
 
 #pragma omp critical(database)
             {
-                sqlite::statement stmt(db, query.str());
+                sqlite::statement stmt(db, query_uuid);
                 stmt.prepare();
                 if (stmt.step()) {
                     uuid = stmt.get<std::string>(0);
@@ -771,7 +772,7 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
                 boost::algorithm::hex(u.begin(), u.end(), std::back_inserter(uuid));
 
                 query.str(std::string());
-                query << "INSERT INTO cache_two (uuid";
+                query << "INSERT OR IGNORE INTO cache_two (uuid";
                 for (auto p : conf) {
                     query << ", " << p.first;
                 }
@@ -782,7 +783,16 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
                 }
                 query << ");";
 #pragma omp critical(database)
-                stmt.exec(query.str());
+                {
+                    stmt.exec(query.str());
+
+                    // adopt the uuid of another process or thread that inserted the same row first
+                    sqlite::statement stmt(db, query_uuid);
+                    stmt.prepare();
+                    if (stmt.step()) {
+                        uuid = stmt.get<std::string>(0);
+                    }
+                }
             }
 
             // === Check existence of files ===
-- 
2.43.0


From 26b1070ab8dc7be7f82e71024c496f6c61f327e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:17 +0000
Subject: [PATCH 27/56] fix: never leave or show incomplete cached results

---
 pairinteraction/Hamiltonian.hpp    | 24 ++++++++++++++++++++++++
 pairinteraction/HamiltonianOne.cpp |  6 ++++--
 pairinteraction/HamiltonianTwo.cpp |  6 ++++--
 3 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/pairinteraction/Hamiltonian.hpp b/pairinteraction/Hamiltonian.hpp
index 98a8508..195872a 100644
--- a/pairinteraction/Hamiltonian.hpp
+++ b/pairinteraction/Hamiltonian.hpp
@@ -21,7 +21,15 @@
 #define HAMILTONIAN_H
 
 #include "Hamiltonianmatrix.hpp"
+#include "filesystem.hpp"
 
+#include <boost/uuid/uuid.hpp>
+#include <boost/uuid/uuid_generators.hpp>
+#include <boost/uuid/uuid_io.hpp>
+
+#include <memory>
+#include <string>
+#include <system_error>
 #include <vector>
 
 template <typename Scalar, class Basisnames>
@@ -43,6 +51,22 @@ public:
     }
 
 protected:
+    // Let the function write to a temporary file which then replaces the target at once, so that
+    // nobody ever sees an incomplete file, even if the program is killed
+    template <typename Function>
+    static void writeAtomically(const fs::path &target, Function &&write) {
+        fs::path tmp = target;
+        tmp += "." + boost::uuids::to_string(boost::uuids::random_generator()()) + ".tmp";
+        try {
+            write(tmp.string());
+            fs::rename(tmp, target);
+        } catch (...) {
+            std::error_code ec;
+            fs::remove(tmp, ec);
+            throw;
+        }
+    }
+
     std::vector<std::shared_ptr<Hamiltonianmatrix<Scalar>>> matrix_diag;
     std::vector<std::string> matrix_path;
     std::vector<std::shared_ptr<Configuration>> params;
diff --git a/pairinteraction/HamiltonianOne.cpp b/pairinteraction/HamiltonianOne.cpp
index 509ffcf..8e1f347 100644
--- a/pairinteraction/HamiltonianOne.cpp
+++ b/pairinteraction/HamiltonianOne.cpp
@@ -601,7 +601,8 @@ void HamiltonianOne<Scalar>::build() {
 
         // Create .json file if "is_existing" is false
         if (!is_existing) {
-            conf.save_to_json(path_json.string());
+            this->writeAtomically(path_json,
+                                  [&conf](const std::string &tmp) { conf.save_to_json(tmp); });
         }
 
         // === Build and diagonalize total matrix if not existent ===
@@ -633,7 +634,8 @@ void HamiltonianOne<Scalar>::build() {
 
             // --- Diagonalize matrix and save diagonalized matrix ---
             totalmatrix.diagonalize();
-            totalmatrix.save(path_mat.string());
+            this->writeAtomically(
+                path_mat, [&totalmatrix](const std::string &tmp) { totalmatrix.save(tmp); });
 
             // Stdout: Hamiltonian diagonalized
 #pragma omp critical(textoutput)
diff --git a/pairinteraction/HamiltonianTwo.cpp b/pairinteraction/HamiltonianTwo.cpp
index 048ca5c..deb267c 100644
--- a/pairinteraction/HamiltonianTwo.cpp
+++ b/pairinteraction/HamiltonianTwo.cpp
@@ -822,7 +822,8 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
 
             // Create .json file if "is_existing" is false
             if (!is_existing) {
-                conf.save_to_json(path_json.string());
+                this->writeAtomically(path_json,
+                                      [&conf](const std::string &tmp) { conf.save_to_json(tmp); });
             }
 
             // === Build and diagonalize total matrix if not existent ===
@@ -865,7 +866,8 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
 
                 // --- Diagonalize matrix and save diagonalized matrix ---
                 totalmatrix.diagonalize();
-                totalmatrix.save(path_mat.string());
+                this->writeAtomically(
+                    path_mat, [&totalmatrix](const std::string &tmp) { totalmatrix.save(tmp); });
 
                 // Stdout: Hamiltonian diagonalized
 #pragma omp critical(textoutput)
-- 
2.43.0


From 66c6a56d94b902f0971d8416a966b4e493548fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:17 +0000
Subject: [PATCH 28/56] fix: collect the necessary pair states without a data
 race

---
 pairinteraction/HamiltonianTwo.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/HamiltonianTwo.cpp b/pairinteraction/HamiltonianTwo.cpp
index deb267c..be3f39f 100644
--- a/pairinteraction/HamiltonianTwo.cpp
+++ b/pairinteraction/HamiltonianTwo.cpp
@@ -23,6 +23,8 @@
 
 #include <fmt/format.h>
 
+#include <algorithm>
+#include <functional>
 #include <stdexcept>
 #include <utility>
 
@@ -357,8 +359,14 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
 
 #pragma omp parallel for
     for (int i = 0; i < nSteps_one_i; ++i) {
+        // the elements of a std::vector<bool> must not be changed concurrently
+        std::vector<bool> necessary_step(necessary_tmp.size(), false);
         energycutoff(*(hamiltonian_one1->get(i)), *(hamiltonian_one2->get(i)), deltaE,
-                     necessary_tmp);
+                     necessary_step);
+
+#pragma omp critical(necessary)
+        std::transform(necessary_step.begin(), necessary_step.end(), necessary_tmp.begin(),
+                       necessary_tmp.begin(), std::logical_or<>());
     }
 
     // Apply restrictions due to symmetries
-- 
2.43.0


From 20f8f02ededceffc99ae6363ec4c8cab53871d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:00 +0000
Subject: [PATCH 29/56] fix: calculate pending radial matrix elements with the
 method they were requested for

---
 pairinteraction/MatrixElementCache.cpp | 4 ++--
 pairinteraction/MatrixElementCache.hpp | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index 99f6aa3..9a6952b 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -529,7 +529,7 @@ void MatrixElementCache::precalculateDiamagnetism(const std::vector<StateOne> &b
 /// Utility methods ////////////////////////////////////////////////
 ////////////////////////////////////////////////////////////////////
 
-double MatrixElementCache::calcRadialElement(const QuantumDefect &qd1, int power,
+double MatrixElementCache::calcRadialElement(method_t method, const QuantumDefect &qd1, int power,
                                              const QuantumDefect &qd2) {
     if (method == NUMEROV) {
         return std::pow(au2um, power) * IntegrateRadialElement<Numerov>(qd1, power, qd2);
@@ -784,7 +784,7 @@ int MatrixElementCache::update() {
             double val = 0;
             QuantumDefect qd1(cached.species, cached.n[0], cached.l[0], cached.j[0], defectdbname);
             QuantumDefect qd2(cached.species, cached.n[1], cached.l[1], cached.j[1], defectdbname);
-            val = calcRadialElement(qd1, cached.kappa, qd2);
+            val = calcRadialElement(cached.method, qd1, cached.kappa, qd2);
 
             cache_radial.insert({cached, val});
 
diff --git a/pairinteraction/MatrixElementCache.hpp b/pairinteraction/MatrixElementCache.hpp
index 34db630..9d1b2a5 100644
--- a/pairinteraction/MatrixElementCache.hpp
+++ b/pairinteraction/MatrixElementCache.hpp
@@ -86,7 +86,8 @@ private:
     int update();
     void precalculate(std::shared_ptr<const BasisnamesOne> basis_one, int kappa, int q, int kappar,
                       bool calcMultipole, bool calcMomentum, bool calcRadial);
-    double calcRadialElement(const QuantumDefect &qd1, int power, const QuantumDefect &qd2);
+    double calcRadialElement(method_t method, const QuantumDefect &qd1, int power,
+                             const QuantumDefect &qd2);
     void precalculate(const std::vector<StateOne> &basis_one, int kappa_angular, int q,
                       int kappa_radial, bool calcElectricMultipole, bool calcMagneticMomentum,
                       bool calcRadial);
-- 
2.43.0


From 830d7165d0a5b81d6ae556e517845920cb83771a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:26 +0000
Subject: [PATCH 30/56] fix: keep the journal of the matrix element database on
 disk

---
 pairinteraction/MatrixElementCache.cpp | 8 ++++----
 pairinteraction/MatrixElementCache.hpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index 9a6952b..94b0145 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -91,8 +91,8 @@ MatrixElementCache::MatrixElementCache(std::string const &cachedir)
 
     // Speed up database access
     stmt->exec("PRAGMA synchronous = OFF"); // do not wait on write, hand off to OS and carry on
-    stmt->exec(
-        "PRAGMA journal_mode = MEMORY"); // keep rollback journal in memory during transaction
+    stmt->exec("PRAGMA journal_mode = TRUNCATE"); // keep rollback journal on disk, so that the
+                                                  // database survives if the process is killed
 
     // Create cache tables (reduced_momentum_s and reduced_momentum_l need not to be cached since
     // they are trivial)
@@ -647,8 +647,8 @@ int MatrixElementCache::update() {
             // Speed up database access
             stmt->exec(
                 "PRAGMA synchronous = OFF"); // do not wait on write, hand off to OS and carry on
-            stmt->exec("PRAGMA journal_mode = MEMORY"); // keep rollback journal in memory during
-                                                        // transaction
+            stmt->exec("PRAGMA journal_mode = TRUNCATE"); // keep rollback journal on disk, so that
+                                                          // the database survives a kill
         }
 
         if (!cache_radial_missing.empty()) {
diff --git a/pairinteraction/MatrixElementCache.hpp b/pairinteraction/MatrixElementCache.hpp
index 9d1b2a5..5ff8d30 100644
--- a/pairinteraction/MatrixElementCache.hpp
+++ b/pairinteraction/MatrixElementCache.hpp
@@ -233,8 +233,8 @@ private:
             // Speed up database access
             stmt->exec(
                 "PRAGMA synchronous = OFF"); // do not wait on write, hand off to OS and carry on
-            stmt->exec("PRAGMA journal_mode = MEMORY"); // keep rollback journal in memory during
-                                                        // transaction
+            stmt->exec("PRAGMA journal_mode = TRUNCATE"); // keep rollback journal on disk, so that
+                                                          // the database survives a kill
         }
     }
 };
-- 
2.43.0


From 28f07f3eea5bef89e167d3de29c5fd430fa4aeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:26 +0000
Subject: [PATCH 31/56] fix: let a failed update of the matrix element cache
 not affect later ones

---
 pairinteraction/MatrixElementCache.cpp | 30 ++++++++++++++++++++++++++
 pairinteraction/MatrixElementCache.hpp |  2 ++
 2 files changed, 32 insertions(+)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index 94b0145..ae88845 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -634,6 +634,33 @@ int MatrixElementCache::update() {
         return 0;
     }
 
+    try {
+        return this->updateMissing();
+    } catch (...) {
+        // A failed update must not affect later ones
+        this->discardMissing();
+        throw;
+    }
+}
+
+void MatrixElementCache::discardMissing() {
+    cache_radial_missing.clear();
+    cache_angular_missing.clear();
+    cache_reduced_commutes_s_missing.clear();
+    cache_reduced_commutes_l_missing.clear();
+    cache_reduced_multipole_missing.clear();
+
+    // Release the locks on the database, if it was opened by this process
+    if (db && stmt && pid_which_created_db == static_cast<long>(utils::get_pid())) {
+        stmt->reset();
+        if (sqlite3_get_autocommit(*db) == 0) {
+            sqlite3_exec(*db, "rollback transaction;", nullptr, nullptr, nullptr);
+        }
+    }
+}
+
+int MatrixElementCache::updateMissing() {
+
     // --- Load from database ---
     if (!dbname.empty()) {
 
@@ -770,6 +797,9 @@ int MatrixElementCache::update() {
     // --- Calculate missing elements and write them to the database --- // TODO parallelize
 
     if (!dbname.empty()) {
+        if (sqlite3_get_autocommit(*db) == 0) {
+            stmt->exec("rollback transaction;"); // left over from a failed update
+        }
         stmt->exec("begin transaction;");
     }
 
diff --git a/pairinteraction/MatrixElementCache.hpp b/pairinteraction/MatrixElementCache.hpp
index 5ff8d30..b9e406a 100644
--- a/pairinteraction/MatrixElementCache.hpp
+++ b/pairinteraction/MatrixElementCache.hpp
@@ -84,6 +84,8 @@ public:
 
 private:
     int update();
+    int updateMissing();
+    void discardMissing();
     void precalculate(std::shared_ptr<const BasisnamesOne> basis_one, int kappa, int q, int kappar,
                       bool calcMultipole, bool calcMomentum, bool calcRadial);
     double calcRadialElement(method_t method, const QuantumDefect &qd1, int power,
-- 
2.43.0


From 012c810cb98d1f83512bdb1c79e15a8ddc4f3409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:26 +0000
Subject: [PATCH 32/56] fix: forget calculated matrix elements when the quantum
 defect database is set

---
 pairinteraction/MatrixElementCache.cpp | 10 ++++++++++
 pairinteraction/MatrixElementCache.hpp |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index ae88845..b6cdbb6 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -125,6 +125,15 @@ void MatrixElementCache::setDefectDB(std::string const &path) {
     // Set path to user defined database for quantum defects and model potential parameters
     defectdbname = path;
 
+    // Forget the matrix elements that were calculated from another database
+    for (auto it = cache_radial.begin(); it != cache_radial.end();) {
+        if (cache_radial_user.count(it->first) == 0) {
+            it = cache_radial.erase(it);
+        } else {
+            ++it;
+        }
+    }
+
     // Prevent using the cache file to avoid inconsistencies through the user defined database
     dbname = "";
 }
@@ -200,6 +209,7 @@ void MatrixElementCache::loadElectricDipoleDB(std::string const &path, std::stri
             (key3.sgn * cache_reduced_commutes_s[key3] * key4.sgn * cache_reduced_multipole[key4]);
 
         cache_radial[key1] = val;
+        cache_radial_user.insert(key1);
     }
 }
 
diff --git a/pairinteraction/MatrixElementCache.hpp b/pairinteraction/MatrixElementCache.hpp
index b9e406a..258118b 100644
--- a/pairinteraction/MatrixElementCache.hpp
+++ b/pairinteraction/MatrixElementCache.hpp
@@ -194,6 +194,7 @@ private:
         cache_reduced_multipole;
 
     std::unordered_set<CacheKey_cache_radial, CacheKeyHasher_cache_radial> cache_radial_missing;
+    std::unordered_set<CacheKey_cache_radial, CacheKeyHasher_cache_radial> cache_radial_user;
     std::unordered_set<CacheKey_cache_angular, CacheKeyHasher_cache_angular> cache_angular_missing;
     std::unordered_set<CacheKey_cache_reduced_commutes, CacheKeyHasher_cache_reduced_commutes>
         cache_reduced_commutes_s_missing;
@@ -225,6 +226,7 @@ private:
             CEREAL_NVP(cache_reduced_commutes_s_missing) &
             CEREAL_NVP(cache_reduced_commutes_l_missing) &
             CEREAL_NVP(cache_reduced_multipole_missing);
+        ar &CEREAL_NVP(cache_radial_user);
 
         if (Archive::is_loading::value && !dbname.empty()) {
             // Open database
-- 
2.43.0


From 9c192f21083e68b4c6818c2bde6a8981ad7104ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:26 +0000
Subject: [PATCH 33/56] fix: serialize the name of the quantum defect database

---
 pairinteraction/MatrixElementCache.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pairinteraction/MatrixElementCache.hpp b/pairinteraction/MatrixElementCache.hpp
index 258118b..4bbd538 100644
--- a/pairinteraction/MatrixElementCache.hpp
+++ b/pairinteraction/MatrixElementCache.hpp
@@ -219,6 +219,7 @@ private:
     void serialize(Archive &ar, unsigned int /* version */) {
         ar &CEREAL_NVP(method);
         ar &CEREAL_NVP(dbname);
+        ar &CEREAL_NVP(defectdbname);
         ar &CEREAL_NVP(cache_radial) & CEREAL_NVP(cache_angular) &
             CEREAL_NVP(cache_reduced_commutes_s) & CEREAL_NVP(cache_reduced_commutes_l) &
             CEREAL_NVP(cache_reduced_multipole);
-- 
2.43.0


From 624e04559bac1d9cb82ba10cce3739d738d63e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:26 +0000
Subject: [PATCH 34/56] fix: report an electric dipole database that cannot be
 read

---
 pairinteraction/MatrixElementCache.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index b6cdbb6..fbd3e26 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -154,6 +154,9 @@ void MatrixElementCache::loadElectricDipoleDB(std::string const &path, std::stri
     boost::escaped_list_separator<char> els("", ";", "\"\'");
     std::vector<std::pair<CacheKey_cache_radial, double>> radial_raw_data;
     std::ifstream ifs(path.c_str());
+    if (!ifs) {
+        throw std::runtime_error("Could not open the electric dipole database " + path);
+    }
     std::string line;
     bool firstline = true;
     while (std::getline(ifs, line)) {
@@ -161,6 +164,9 @@ void MatrixElementCache::loadElectricDipoleDB(std::string const &path, std::stri
         std::vector<std::string> tk_vec(tk.begin(), tk.end());
 
         try {
+            if (tk_vec.size() < 7) {
+                throw std::invalid_argument("too few values in line '" + line + "'");
+            }
             int n1 = std::stoi(tk_vec[0]);
             int l1 = std::stoi(tk_vec[1]);
             float j1 = std::stof(tk_vec[2]);
@@ -193,6 +199,9 @@ void MatrixElementCache::loadElectricDipoleDB(std::string const &path, std::stri
 
         firstline = false;
     }
+    if (ifs.bad()) {
+        throw std::runtime_error("Could not read the electric dipole database " + path);
+    }
     ifs.close();
 
     // Precaculate the expressions
-- 
2.43.0


From eb24d025b4cfa994513a255c86feaecfad1612d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:41 +0000
Subject: [PATCH 35/56] fix: leave no half-built basis behind when building it
 fails

---
 pairinteraction/SystemBase.cpp | 22 +++++++++++++++++++---
 pairinteraction/SystemBase.hpp |  2 ++
 pairinteraction/SystemTwo.cpp  |  4 ++++
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 47b39bf..9c78441 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -542,17 +542,33 @@ void SystemBase<Scalar, State>::buildBasis() {
     // Check whether the basis does not exist
     if (states.empty()) {
 
-        // Initialize the basis
-        this->initializeBasis();
+        try {
+            // Initialize the basis
+            this->initializeBasis();
+
+            // Check whether the basis is empty
+            this->checkIsBasisNotEmpty();
+        } catch (...) {
+            // Discard the incomplete basis, so that building it can be tried again
+            states.clear();
+            basisvectors.resize(0, 0);
+            hamiltonian.resize(0, 0);
+            throw;
+        }
 
         // Forget basis restrictions as they were applied now
         this->forgetRestrictions();
 
     } else {
         this->updateEverything();
+
+        // Check whether the basis is empty
+        this->checkIsBasisNotEmpty();
     }
+}
 
-    // Check whether the basis is empty
+template <class Scalar, class State>
+void SystemBase<Scalar, State>::checkIsBasisNotEmpty() {
     if (basisvectors.rows() == 0) {
         throw std::runtime_error("The basis contains no states.");
     }
diff --git a/pairinteraction/SystemBase.hpp b/pairinteraction/SystemBase.hpp
index 4482306..72f3126 100644
--- a/pairinteraction/SystemBase.hpp
+++ b/pairinteraction/SystemBase.hpp
@@ -380,6 +380,8 @@ protected:
 private:
     void forgetRestrictions();
 
+    void checkIsBasisNotEmpty();
+
     ////////////////////////////////////////////////////////////////////
     /// Method to update the system ////////////////////////////////////
     ////////////////////////////////////////////////////////////////////
diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index 87849be..3cb3da7 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -204,6 +204,10 @@ void SystemTwo<Scalar>::initializeBasis() {
     /// Restrict one atom states to the allowed quantum numbers ////////
     ////////////////////////////////////////////////////////////////////
 
+    // Work on copies, so that the method can be called again if it fails
+    SystemOne<Scalar> system1(this->system1);
+    SystemOne<Scalar> system2(this->system2);
+
     system1.diagonalize(); // it is important to call this method here!
     system1.restrictN(this->range_n);
     system1.restrictL(this->range_l);
-- 
2.43.0


From a50821970f9fa83819e8dc17899fb2b88a450416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:41 +0000
Subject: [PATCH 36/56] fix: express interactions in the basis without
 interaction

---
 pairinteraction/SystemBase.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 9c78441..c4d7773 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -518,8 +518,20 @@ void SystemBase<Scalar, State>::buildInteraction() {
     this->buildBasis();
 
     // Initialize interaction
-    this->initializeInteraction(); // this method checks by itself whether a new initialization
-                                   // is required
+    if (basisvectors_unperturbed_cache.size() == 0) {
+        this->initializeInteraction(); // this method checks by itself whether a new initialization
+                                       // is required
+    } else {
+        // The interaction has to be expressed in the basis without interaction
+        basisvectors.swap(basisvectors_unperturbed_cache);
+        try {
+            this->initializeInteraction();
+        } catch (...) {
+            basisvectors.swap(basisvectors_unperturbed_cache);
+            throw;
+        }
+        basisvectors.swap(basisvectors_unperturbed_cache);
+    }
 }
 
 template <class Scalar, class State>
@@ -836,15 +848,17 @@ void SystemBase<Scalar, State>::rotate(double alpha, double beta,
     // Get the rotator for the basis states
     Eigen::SparseMatrix<Scalar> transformator = this->buildStaterotator(alpha, beta, gamma);
 
-    // Rotate basis
-    this->transformInteraction(basisvectors.adjoint());
+    // Rotate basis, the interaction is expressed in the basis without interaction
+    bool has_cache = basisvectors_unperturbed_cache.size() != 0;
+    this->transformInteraction(has_cache ? basisvectors_unperturbed_cache.adjoint()
+                                         : basisvectors.adjoint());
 
     basisvectors = transformator * basisvectors;
-    if (basisvectors_unperturbed_cache.size() != 0) {
+    if (has_cache) {
         basisvectors_unperturbed_cache = transformator * basisvectors_unperturbed_cache;
     }
 
-    this->transformInteraction(basisvectors);
+    this->transformInteraction(has_cache ? basisvectors_unperturbed_cache : basisvectors);
 }
 
 template <class Scalar, class State>
-- 
2.43.0


From c7da2312b4e8fd06d7f3a4bbd29e1e4854bb95a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:48 +0000
Subject: [PATCH 37/56] fix: leave no half-built interaction behind when
 building it fails

---
 pairinteraction/SystemBase.cpp | 50 ++++++++++++++++++++++++----------
 pairinteraction/SystemBase.hpp |  2 ++
 2 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index c4d7773..e32076e 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -487,20 +487,30 @@ void SystemBase<Scalar, State>::buildHamiltonian() {
             }
 
             // Reset the Hamiltonian if it already contains the interaction
-            basisvectors = basisvectors_unperturbed_cache;
-            hamiltonian = hamiltonian_unperturbed_cache;
+            Eigen::SparseMatrix<Scalar> basisvectors_reset = basisvectors_unperturbed_cache;
+            Eigen::SparseMatrix<Scalar> hamiltonian_reset = hamiltonian_unperturbed_cache;
+            basisvectors.swap(basisvectors_reset);
+            hamiltonian.swap(hamiltonian_reset);
         } else if (!memory_saving) {
 
             // Store the Hamiltonian without interaction
-            basisvectors_unperturbed_cache = basisvectors;
-            hamiltonian_unperturbed_cache = hamiltonian;
+            Eigen::SparseMatrix<Scalar> basisvectors_unperturbed = basisvectors;
+            Eigen::SparseMatrix<Scalar> hamiltonian_unperturbed = hamiltonian;
+            basisvectors_unperturbed_cache.swap(basisvectors_unperturbed);
+            hamiltonian_unperturbed_cache.swap(hamiltonian_unperturbed);
         }
 
         // Build interaction
-        this->initializeInteraction();
+        this->initializeInteractionSafely();
 
-        // Add interaction to the Hamiltonian
-        this->addInteraction();
+        // Add interaction to the Hamiltonian, all of it or nothing
+        Eigen::SparseMatrix<Scalar> hamiltonian_without_interaction = hamiltonian;
+        try {
+            this->addInteraction();
+        } catch (...) {
+            hamiltonian.swap(hamiltonian_without_interaction);
+            throw;
+        }
 
         if (memory_saving) {
             // Delete the variables used to add the interaction to the Hamiltonian
@@ -519,13 +529,13 @@ void SystemBase<Scalar, State>::buildInteraction() {
 
     // Initialize interaction
     if (basisvectors_unperturbed_cache.size() == 0) {
-        this->initializeInteraction(); // this method checks by itself whether a new initialization
-                                       // is required
+        this->initializeInteractionSafely(); // this method checks by itself whether a new
+                                             // initialization is required
     } else {
         // The interaction has to be expressed in the basis without interaction
         basisvectors.swap(basisvectors_unperturbed_cache);
         try {
-            this->initializeInteraction();
+            this->initializeInteractionSafely();
         } catch (...) {
             basisvectors.swap(basisvectors_unperturbed_cache);
             throw;
@@ -579,6 +589,17 @@ void SystemBase<Scalar, State>::buildBasis() {
     }
 }
 
+template <class Scalar, class State>
+void SystemBase<Scalar, State>::initializeInteractionSafely() {
+    try {
+        this->initializeInteraction();
+    } catch (...) {
+        // Discard the interaction as it might be incomplete
+        this->deleteInteraction();
+        throw;
+    }
+}
+
 template <class Scalar, class State>
 void SystemBase<Scalar, State>::checkIsBasisNotEmpty() {
     if (basisvectors.rows() == 0) {
@@ -756,12 +777,12 @@ void SystemBase<Scalar, State>::diagonalize(double threshold) {
 #endif // EIGEN_USE_LAPACKE || WITH_INTEL_MKL
 
     // Build the new hamiltonian
-    hamiltonian.setZero();
-    hamiltonian.reserve(evals.size());
+    Eigen::SparseMatrix<Scalar> hamiltonian_new(hamiltonian.rows(), hamiltonian.cols());
+    hamiltonian_new.reserve(evals.size());
     for (int idx = 0; idx < evals.size(); ++idx) {
-        hamiltonian.insert(idx, idx) = evals.coeffRef(idx);
+        hamiltonian_new.insert(idx, idx) = evals.coeffRef(idx);
     }
-    hamiltonian.makeCompressed();
+    hamiltonian_new.makeCompressed();
 
     // Transform the basis vectors
     if (threshold == 0) {
@@ -769,6 +790,7 @@ void SystemBase<Scalar, State>::diagonalize(double threshold) {
     } else {
         basisvectors = (basisvectors * evecs).pruned(threshold, 1);
     }
+    hamiltonian.swap(hamiltonian_new);
 
     // TODO call transformInteraction (see applyRightsideTransformator), perhaps not?
 }
diff --git a/pairinteraction/SystemBase.hpp b/pairinteraction/SystemBase.hpp
index 72f3126..9dfdd1d 100644
--- a/pairinteraction/SystemBase.hpp
+++ b/pairinteraction/SystemBase.hpp
@@ -382,6 +382,8 @@ private:
 
     void checkIsBasisNotEmpty();
 
+    void initializeInteractionSafely();
+
     ////////////////////////////////////////////////////////////////////
     /// Method to update the system ////////////////////////////////////
     ////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 01a107c25970210d8172c91ff223b97642c1a17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:48 +0000
Subject: [PATCH 38/56] fix: do not keep settings that are refused

---
 pairinteraction/SystemOne.cpp | 40 +++++++++++++++++++++--------------
 pairinteraction/SystemTwo.cpp | 12 +++++++----
 2 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index 649a4af..07f482f 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -55,29 +55,33 @@ const std::string &SystemOne<Scalar>::getSpecies() const {
 
 template <typename Scalar>
 void SystemOne<Scalar>::setEfield(std::array<double, 3> field) {
+    // Transform the electric field into spherical coordinates
+    std::unordered_map<int, Scalar> spherical;
+    this->changeToSphericalbasis(field, spherical);
+
     this->onParameterChange();
     efield = field;
-
-    // Transform the electric field into spherical coordinates
-    this->changeToSphericalbasis(efield, efield_spherical);
+    efield_spherical.swap(spherical);
 }
 
 template <typename Scalar>
 void SystemOne<Scalar>::setBfield(std::array<double, 3> field) {
+    // Transform the magnetic field into spherical coordinates
+    std::unordered_map<int, Scalar> spherical;
+    this->changeToSphericalbasis(field, spherical);
+
+    std::unordered_map<std::array<int, 2>, Scalar, utils::hash<std::array<int, 2>>> terms;
+    terms[{{0, +0}}] = spherical[+0] * spherical[+0] - spherical[+1] * spherical[-1] * 2.;
+    terms[{{2, +0}}] = spherical[+0] * spherical[+0] + spherical[+1] * spherical[-1];
+    terms[{{2, +1}}] = spherical[+0] * spherical[-1];
+    terms[{{2, -1}}] = spherical[+0] * spherical[+1];
+    terms[{{2, +2}}] = spherical[-1] * spherical[-1];
+    terms[{{2, -2}}] = spherical[+1] * spherical[+1];
+
     this->onParameterChange();
     bfield = field;
-
-    // Transform the magnetic field into spherical coordinates
-    this->changeToSphericalbasis(bfield, bfield_spherical);
-
-    diamagnetism_terms[{{0, +0}}] = bfield_spherical[+0] * bfield_spherical[+0] -
-        bfield_spherical[+1] * bfield_spherical[-1] * 2.;
-    diamagnetism_terms[{{2, +0}}] =
-        bfield_spherical[+0] * bfield_spherical[+0] + bfield_spherical[+1] * bfield_spherical[-1];
-    diamagnetism_terms[{{2, +1}}] = bfield_spherical[+0] * bfield_spherical[-1];
-    diamagnetism_terms[{{2, -1}}] = bfield_spherical[+0] * bfield_spherical[+1];
-    diamagnetism_terms[{{2, +2}}] = bfield_spherical[-1] * bfield_spherical[-1];
-    diamagnetism_terms[{{2, -2}}] = bfield_spherical[+1] * bfield_spherical[+1];
+    bfield_spherical.swap(spherical);
+    diamagnetism_terms.swap(terms);
 }
 
 template <typename Scalar>
@@ -134,8 +138,10 @@ void SystemOne<Scalar>::setRydIonDistance(double d) {
 template <typename Scalar>
 void SystemOne<Scalar>::setConservedParityUnderReflection(parity_t parity) {
     this->onSymmetryChange();
+    auto parity_old = sym_reflection;
     sym_reflection = parity;
     if (!this->isRefelectionAndRotationCompatible()) {
+        sym_reflection = parity_old;
         throw std::runtime_error("The conserved parity under reflection is not compatible to the "
                                  "previously specified conserved momenta.");
     }
@@ -148,8 +154,10 @@ void SystemOne<Scalar>::setConservedMomentaUnderRotation(const std::set<float> &
             "If ARB (=arbitrary momentum) is specified, momenta must not be passed explicitely.");
     }
     this->onSymmetryChange();
-    sym_rotation = momenta;
+    auto momenta_old = momenta;
+    sym_rotation.swap(momenta_old);
     if (!this->isRefelectionAndRotationCompatible()) {
+        sym_rotation.swap(momenta_old);
         throw std::runtime_error("The conserved momenta are not compatible to the previously "
                                  "specified conserved parity under reflection.");
     }
diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index 3cb3da7..0e56465 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -88,12 +88,12 @@ const std::array<std::string, 2> &SystemTwo<Scalar>::getSpecies() {
 
 template <typename Scalar>
 void SystemTwo<Scalar>::enableGreenTensor(bool GTboolean) {
-    this->onParameterChange();
-    GTbool = GTboolean;
-    if (!GTbool && surface_distance != std::numeric_limits<double>::max()) {
+    if (!GTboolean && surface_distance != std::numeric_limits<double>::max()) {
         throw std::runtime_error("If there is interaction with a surface, the Green tensor "
                                  "approach must not be disabled.");
     }
+    this->onParameterChange();
+    GTbool = GTboolean;
 }
 
 template <typename Scalar>
@@ -155,8 +155,10 @@ void SystemTwo<Scalar>::setConservedParityUnderInversion(parity_t parity) {
 template <typename Scalar>
 void SystemTwo<Scalar>::setConservedParityUnderReflection(parity_t parity) {
     this->onSymmetryChange();
+    auto parity_old = sym_reflection;
     sym_reflection = parity;
     if (!this->isRefelectionAndRotationCompatible()) {
+        sym_reflection = parity_old;
         throw std::runtime_error("The conserved parity under reflection is not compatible to the "
                                  "previously specified conserved momenta.");
     }
@@ -173,8 +175,10 @@ void SystemTwo<Scalar>::setConservedMomentaUnderRotation(const std::set<int> &mo
             "If ARB (=arbitrary momentum) is specified, momenta must not be passed explicitely.");
     }
     this->onSymmetryChange();
-    sym_rotation = momenta;
+    auto momenta_old = momenta;
+    sym_rotation.swap(momenta_old);
     if (!this->isRefelectionAndRotationCompatible()) {
+        sym_rotation.swap(momenta_old);
         throw std::runtime_error("The conserved momenta are not compatible to the previously "
                                  "specified conserved parity under reflection.");
     }
-- 
2.43.0


From cf917e47439e12fe5ab9fb561b818888bd6009ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:48 +0000
Subject: [PATCH 39/56] fix: canonicalize the matrices that help constructing
 the Hamiltonian, too

---
 pairinteraction/SystemBase.cpp | 37 ++++++++++++++++++++++++++++------
 pairinteraction/SystemBase.hpp |  2 ++
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index e32076e..e57db09 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -600,6 +600,18 @@ void SystemBase<Scalar, State>::initializeInteractionSafely() {
     }
 }
 
+template <class Scalar, class State>
+void SystemBase<Scalar, State>::transformInteractionSafely(
+    const Eigen::SparseMatrix<Scalar> &transformator) {
+    try {
+        this->transformInteraction(transformator);
+    } catch (...) {
+        // Discard the interaction as it might be transformed only in part
+        this->deleteInteraction();
+        throw;
+    }
+}
+
 template <class Scalar, class State>
 void SystemBase<Scalar, State>::checkIsBasisNotEmpty() {
     if (basisvectors.rows() == 0) {
@@ -799,13 +811,26 @@ template <class Scalar, class State>
 void SystemBase<Scalar, State>::canonicalize() {
     this->buildHamiltonian();
 
-    // Transform the hamiltonian
-    hamiltonian = basisvectors * hamiltonian * basisvectors.adjoint();
+    // Transform the hamiltonian and the basis vectors
+    Eigen::SparseMatrix<Scalar> hamiltonian_new =
+        basisvectors * hamiltonian * basisvectors.adjoint();
+    Eigen::SparseMatrix<Scalar> basisvectors_new = basisvectors * basisvectors.adjoint();
 
-    // Transform the basis vectors
-    basisvectors = basisvectors * basisvectors.adjoint();
-
-    // TODO call transformInteraction (see applyRightsideTransformator), perhaps yes?
+    // Transform the matrices that help constructing the total Hamiltonian, too
+    if (basisvectors_unperturbed_cache.size() != 0) {
+        Eigen::SparseMatrix<Scalar> transformator = basisvectors_unperturbed_cache.adjoint();
+        Eigen::SparseMatrix<Scalar> hamiltonian_unperturbed_new =
+            transformator.adjoint() * hamiltonian_unperturbed_cache * transformator;
+        Eigen::SparseMatrix<Scalar> basisvectors_unperturbed_new =
+            basisvectors_unperturbed_cache * transformator;
+        this->transformInteractionSafely(transformator);
+        hamiltonian_unperturbed_cache.swap(hamiltonian_unperturbed_new);
+        basisvectors_unperturbed_cache.swap(basisvectors_unperturbed_new);
+    } else {
+        this->transformInteractionSafely(basisvectors.adjoint());
+    }
+    hamiltonian.swap(hamiltonian_new);
+    basisvectors.swap(basisvectors_new);
 }
 
 template <class Scalar, class State>
diff --git a/pairinteraction/SystemBase.hpp b/pairinteraction/SystemBase.hpp
index 9dfdd1d..9dbd459 100644
--- a/pairinteraction/SystemBase.hpp
+++ b/pairinteraction/SystemBase.hpp
@@ -384,6 +384,8 @@ private:
 
     void initializeInteractionSafely();
 
+    void transformInteractionSafely(const Eigen::SparseMatrix<Scalar> &transformator);
+
     ////////////////////////////////////////////////////////////////////
     /// Method to update the system ////////////////////////////////////
     ////////////////////////////////////////////////////////////////////
-- 
2.43.0


From c74e5d833658d34b87318b958a00f4f32b6c3f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:48 +0000
Subject: [PATCH 40/56] fix: keep the basis if a restriction or transformation
 of it fails

---
 pairinteraction/SystemBase.cpp | 69 ++++++++++++++++++++++++----------
 1 file changed, 49 insertions(+), 20 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index e57db09..fb4170e 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -582,10 +582,31 @@ void SystemBase<Scalar, State>::buildBasis() {
         this->forgetRestrictions();
 
     } else {
-        this->updateEverything();
+        auto states_old = states;
+        Eigen::SparseMatrix<Scalar> basisvectors_old = basisvectors;
+        Eigen::SparseMatrix<Scalar> hamiltonian_old = hamiltonian;
+        Eigen::SparseMatrix<Scalar> basisvectors_unperturbed_old = basisvectors_unperturbed_cache;
+        Eigen::SparseMatrix<Scalar> hamiltonian_unperturbed_old = hamiltonian_unperturbed_cache;
 
-        // Check whether the basis is empty
-        this->checkIsBasisNotEmpty();
+        try {
+            this->updateEverything();
+
+            // Check whether the basis is empty
+            this->checkIsBasisNotEmpty();
+        } catch (...) {
+            // Keep the basis as it was, if the restrictions cannot be applied
+            states.swap(states_old);
+            basisvectors.swap(basisvectors_old);
+            hamiltonian.swap(hamiltonian_old);
+            basisvectors_unperturbed_cache.swap(basisvectors_unperturbed_old);
+            hamiltonian_unperturbed_cache.swap(hamiltonian_unperturbed_old);
+            this->deleteInteraction();
+            this->onStatesChange();
+            throw;
+        }
+
+        // Forget basis restrictions as they were applied now
+        this->forgetRestrictions();
     }
 }
 
@@ -897,15 +918,18 @@ void SystemBase<Scalar, State>::rotate(double alpha, double beta,
 
     // Rotate basis, the interaction is expressed in the basis without interaction
     bool has_cache = basisvectors_unperturbed_cache.size() != 0;
-    this->transformInteraction(has_cache ? basisvectors_unperturbed_cache.adjoint()
-                                         : basisvectors.adjoint());
-
-    basisvectors = transformator * basisvectors;
+    Eigen::SparseMatrix<Scalar> basisvectors_new = transformator * basisvectors;
+    Eigen::SparseMatrix<Scalar> basisvectors_unperturbed_new;
     if (has_cache) {
-        basisvectors_unperturbed_cache = transformator * basisvectors_unperturbed_cache;
+        basisvectors_unperturbed_new = transformator * basisvectors_unperturbed_cache;
     }
 
-    this->transformInteraction(has_cache ? basisvectors_unperturbed_cache : basisvectors);
+    this->transformInteractionSafely(has_cache ? basisvectors_unperturbed_cache.adjoint()
+                                               : basisvectors.adjoint());
+    this->transformInteractionSafely(has_cache ? basisvectors_unperturbed_new : basisvectors_new);
+
+    basisvectors.swap(basisvectors_new);
+    basisvectors_unperturbed_cache.swap(basisvectors_unperturbed_new);
 }
 
 template <class Scalar, class State>
@@ -1532,21 +1556,29 @@ void SystemBase<Scalar, State>::applyRightsideTransformator(
     Eigen::SparseMatrix<Scalar> &transformator) {
     // Apply transformator in order to remove columns from the basisvector matrix (i.e. basis
     // vectors)
-    basisvectors = basisvectors * transformator;
+    Eigen::SparseMatrix<Scalar> basisvectors_new = basisvectors * transformator;
+    Eigen::SparseMatrix<Scalar> basisvectors_unperturbed_new;
     if (basisvectors_unperturbed_cache.size() != 0) {
-        basisvectors_unperturbed_cache = basisvectors_unperturbed_cache * transformator;
+        basisvectors_unperturbed_new = basisvectors_unperturbed_cache * transformator;
     }
 
-    // Apply transformator in order to remove rows and columns from the matrices that help
-    // constructing the total Hamiltonian
-    this->transformInteraction(transformator);
-
     // Apply transformator in order to remove rows and columns from the total Hamiltonian
-    hamiltonian = transformator.adjoint() * hamiltonian * transformator;
+    Eigen::SparseMatrix<Scalar> hamiltonian_new =
+        transformator.adjoint() * hamiltonian * transformator;
+    Eigen::SparseMatrix<Scalar> hamiltonian_unperturbed_new;
     if (hamiltonian_unperturbed_cache.size() != 0) {
-        hamiltonian_unperturbed_cache =
+        hamiltonian_unperturbed_new =
             transformator.adjoint() * hamiltonian_unperturbed_cache * transformator;
     }
+
+    // Apply transformator in order to remove rows and columns from the matrices that help
+    // constructing the total Hamiltonian
+    this->transformInteractionSafely(transformator);
+
+    basisvectors.swap(basisvectors_new);
+    basisvectors_unperturbed_cache.swap(basisvectors_unperturbed_new);
+    hamiltonian.swap(hamiltonian_new);
+    hamiltonian_unperturbed_cache.swap(hamiltonian_unperturbed_new);
 }
 
 template <class Scalar, class State>
@@ -1709,9 +1741,6 @@ void SystemBase<Scalar, State>::updateEverything() {
         throw std::runtime_error(
             "States cannot be added anymore once the basis vectors have been created.");
     }
-
-    // Forget basis restrictions as they were applied now
-    this->forgetRestrictions();
 }
 
 template class SystemBase<std::complex<double>, StateOne>;
-- 
2.43.0


From cd3bc6b89dff6fd0f8f3186d26287fed98eb88b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:48 +0000
Subject: [PATCH 41/56] fix: serialize the settings of the Rydberg-ion
 interaction

---
 pairinteraction/SystemOne.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/SystemOne.hpp b/pairinteraction/SystemOne.hpp
index ef9fdd1..f1d91e7 100644
--- a/pairinteraction/SystemOne.hpp
+++ b/pairinteraction/SystemOne.hpp
@@ -170,11 +170,12 @@ private:
         ar &cereal::make_nvp("base_class", cereal::base_class<SystemBase<Scalar_, StateOne>>(this));
         ar &CEREAL_NVP(species);
         ar &CEREAL_NVP(efield) & CEREAL_NVP(bfield) & CEREAL_NVP(diamagnetism) &
+            CEREAL_NVP(charge) & CEREAL_NVP(ordermax) & CEREAL_NVP(distance) &
             CEREAL_NVP(sym_reflection) & CEREAL_NVP(sym_rotation);
         ar &CEREAL_NVP(efield_spherical) & CEREAL_NVP(bfield_spherical) &
             CEREAL_NVP(diamagnetism_terms);
         ar &CEREAL_NVP(interaction_efield) & CEREAL_NVP(interaction_bfield) &
-            CEREAL_NVP(interaction_diamagnetism);
+            CEREAL_NVP(interaction_diamagnetism) & CEREAL_NVP(interaction_multipole);
     }
 };
 
-- 
2.43.0


From 05a8e76f5c26147aaa61ec6e5d3738cadd590947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:48 +0000
Subject: [PATCH 42/56] fix: serialize the Green tensor switch and the selected
 pairs

---
 pairinteraction/SystemTwo.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/SystemTwo.hpp b/pairinteraction/SystemTwo.hpp
index 54249a7..be0676b 100644
--- a/pairinteraction/SystemTwo.hpp
+++ b/pairinteraction/SystemTwo.hpp
@@ -187,9 +187,10 @@ private:
         ar &cereal::make_nvp("base_class", cereal::base_class<SystemBase<Scalar_, StateTwo>>(this));
         ar &CEREAL_NVP(species) & CEREAL_NVP(system1) & CEREAL_NVP(system2);
         ar &CEREAL_NVP(distance) & CEREAL_NVP(distance_x) & CEREAL_NVP(distance_y) &
-            CEREAL_NVP(distance_z) & CEREAL_NVP(surface_distance) & CEREAL_NVP(ordermax);
+            CEREAL_NVP(distance_z) & CEREAL_NVP(GTbool) & CEREAL_NVP(surface_distance) &
+            CEREAL_NVP(ordermax);
         ar &CEREAL_NVP(sym_permutation) & CEREAL_NVP(sym_inversion) & CEREAL_NVP(sym_reflection) &
-            CEREAL_NVP(sym_rotation);
+            CEREAL_NVP(sym_rotation) & CEREAL_NVP(one_atom_basisvectors_indices);
         ar &CEREAL_NVP(angle_terms) & CEREAL_NVP(greentensor_terms_dd) &
             CEREAL_NVP(greentensor_terms_dq) & CEREAL_NVP(greentensor_terms_qd);
         ar &CEREAL_NVP(interaction_angulardipole) & CEREAL_NVP(interaction_multipole) &
-- 
2.43.0


From 0d7d99bfa6ee20f51144ae191e5ade39047da765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:48 +0000
Subject: [PATCH 43/56] fix: keep the previous restriction if a new one cannot
 be stored

---
 pairinteraction/SystemBase.cpp | 8 ++++----
 pairinteraction/SystemBase.hpp | 5 +++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index fb4170e..fb08913 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -100,7 +100,7 @@ void SystemBase<Scalar, State>::restrictN(int n_min, int n_max) {
 
 template <class Scalar, class State>
 void SystemBase<Scalar, State>::restrictN(std::set<int> n) {
-    range_n = n;
+    range_n.swap(n);
 }
 
 template <class Scalar, class State>
@@ -110,7 +110,7 @@ void SystemBase<Scalar, State>::restrictL(int l_min, int l_max) {
 
 template <class Scalar, class State>
 void SystemBase<Scalar, State>::restrictL(std::set<int> l) {
-    range_l = l;
+    range_l.swap(l);
 }
 
 template <class Scalar, class State>
@@ -120,7 +120,7 @@ void SystemBase<Scalar, State>::restrictJ(float j_min, float j_max) {
 
 template <class Scalar, class State>
 void SystemBase<Scalar, State>::restrictJ(std::set<float> j) {
-    range_j = j;
+    range_j.swap(j);
 }
 
 template <class Scalar, class State>
@@ -130,7 +130,7 @@ void SystemBase<Scalar, State>::restrictM(float m_min, float m_max) {
 
 template <class Scalar, class State>
 void SystemBase<Scalar, State>::restrictM(std::set<float> m) {
-    range_m = m;
+    range_m.swap(m);
 }
 
 ////////////////////////////////////////////////////////////////////
diff --git a/pairinteraction/SystemBase.hpp b/pairinteraction/SystemBase.hpp
index 9dbd459..9839c0f 100644
--- a/pairinteraction/SystemBase.hpp
+++ b/pairinteraction/SystemBase.hpp
@@ -362,10 +362,11 @@ protected:
 
     template <class V>
     void range(std::set<V> &rset, V rmin, V rmax) {
-        rset.clear();
+        std::set<V> rset_new;
         for (V r = rmin; r <= rmax; ++r) {
-            rset.insert(r);
+            rset_new.insert(r);
         }
+        rset.swap(rset_new);
     }
 
     Eigen::Matrix<double, 3, 3> buildRotator(std::array<double, 3> to_z_axis,
-- 
2.43.0


From afb0ef5eff164b0a98113aa6fdac22da05ed80d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:07 +0000
Subject: [PATCH 44/56] fix: refuse pairs of basis vectors that do not exist

---
 pairinteraction/SystemTwo.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index 0e56465..02a38e7 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -288,6 +288,12 @@ void SystemTwo<Scalar>::initializeBasis() {
     std::vector<std::array<size_t, 2>> pairs;
     if (!one_atom_basisvectors_indices.empty()) {
         pairs = one_atom_basisvectors_indices;
+        for (const auto &[col_1, col_2] : pairs) {
+            if (col_1 >= system1.getNumBasisvectors() || col_2 >= system2.getNumBasisvectors()) {
+                throw std::runtime_error("The pair of basis vectors [" + std::to_string(col_1) +
+                                         "," + std::to_string(col_2) + "] does not exist.");
+            }
+        }
     } else {
         pairs.reserve(system1.getNumBasisvectors() * system2.getNumBasisvectors());
         for (size_t col_1 = 0; col_1 < system1.getNumBasisvectors(); ++col_1) {
-- 
2.43.0


From 96c67be9db2f957f03de0a3608aa5f8c4bd3bfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:39 +0000
Subject: [PATCH 45/56] fix: refuse to determine the main state of an empty
 basis vector

---
 pairinteraction/SystemBase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index fb08913..53cdfb3 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -381,6 +381,10 @@ std::vector<State> SystemBase<Scalar, State>::getMainStates() {
             }
         }
 
+        if (maxval == -1) {
+            throw std::runtime_error("There is a basis vector without a main state.");
+        }
+
         states_with_maxval.push_back(states[row_with_maxval].state);
     }
 
-- 
2.43.0


From 60d2937342ebd95725a0ddb2a181e796b3e00a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:19 +0000
Subject: [PATCH 46/56] fix: keep the system as it was when unitarize() fails

---
 pairinteraction/SystemBase.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 53cdfb3..ccb2e47 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -869,7 +869,7 @@ void SystemBase<Scalar, State>::unitarize() {
     // Loop over basisvectors
     size_t num_basisvectors = basisvectors.outerSize();
 
-    states.clear();
+    typename states_set<State>::type states_new;
     size_t idx_new = 0;
     for (int k = 0; k < basisvectors.outerSize(); ++k) { // col == idx_vector
         size_t hashvalue = hashvalue_states;
@@ -882,22 +882,25 @@ void SystemBase<Scalar, State>::unitarize() {
         // Rewrite basisvectors as states
         std::stringstream ss;
         ss << std::hex << hashvalue;
-        states.push_back(enumerated_state<State>(idx_new++, createStateFromLabel<State>(ss.str())));
+        states_new.push_back(
+            enumerated_state<State>(idx_new++, createStateFromLabel<State>(ss.str())));
     }
-    states.shrink_to_fit();
+    states_new.shrink_to_fit();
 
-    if (num_basisvectors != states.size()) {
+    if (num_basisvectors != states_new.size()) {
         throw std::runtime_error("A hash collision occurred.");
     }
 
     // Adapt basisvectors
-    basisvectors.resize(states.size(), states.size());
-    basisvectors.setZero();
-    basisvectors.reserve(states.size());
-    for (size_t idx = 0; idx < states.size(); ++idx) {
-        basisvectors.insert(idx, idx) = 1;
+    Eigen::SparseMatrix<Scalar> basisvectors_new(states_new.size(), states_new.size());
+    basisvectors_new.reserve(states_new.size());
+    for (size_t idx = 0; idx < states_new.size(); ++idx) {
+        basisvectors_new.insert(idx, idx) = 1;
     }
-    basisvectors.makeCompressed();
+    basisvectors_new.makeCompressed();
+
+    states.swap(states_new);
+    basisvectors.swap(basisvectors_new);
 
     // Delete caches as they are no longer meaningful
     basisvectors_unperturbed_cache.resize(0, 0);
-- 
2.43.0


From a60c559cb899cb0d91489ed739f0eba81a5a3d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:19 +0000
Subject: [PATCH 47/56] fix: do not silently ignore parameters that are changed
 after unitarize()

---
 pairinteraction/SystemBase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index ccb2e47..630cd5c 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -905,6 +905,10 @@ void SystemBase<Scalar, State>::unitarize() {
     // Delete caches as they are no longer meaningful
     basisvectors_unperturbed_cache.resize(0, 0);
     hamiltonian_unperturbed_cache.resize(0, 0);
+
+    // An interaction cannot be added anymore as the original states are not known
+    this->deleteInteraction();
+    is_interaction_already_contained = true;
 }
 
 template <class Scalar, class State>
-- 
2.43.0


From bcd193da7ea6a587aa2187142113397d83a1092a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:19 +0000
Subject: [PATCH 48/56] fix: keep the system as it was when add() fails

---
 pairinteraction/SystemBase.cpp | 54 +++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 630cd5c..8188e29 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -952,10 +952,7 @@ void SystemBase<Scalar, State>::add(SystemBase<Scalar, State> &system) {
     size_t size_this = basisvectors.cols();
     size_t size_other = system.basisvectors.cols();
 
-    // --- Combine system specific variables ---
-    this->incorporate(system);
-
-    // --- Combine universal variables ---
+    // --- Check universal variables ---
     if (memory_saving != system.memory_saving) {
         throw std::runtime_error(
             "The value of the variable 'memory_saving' must be the same for both systems.");
@@ -971,17 +968,18 @@ void SystemBase<Scalar, State>::add(SystemBase<Scalar, State> &system) {
     }
 
     // --- Combine states and build transformators ---
+    auto states_new = states;
     Eigen::SparseMatrix<Scalar> transformator;
     {
         std::vector<Eigen::Triplet<Scalar>> transformator_triplets;
         transformator_triplets.reserve(system.states.size());
 
         for (const auto &entry : system.states) {
-            auto state_iter = states.template get<1>().find(entry.state);
+            auto state_iter = states_new.template get<1>().find(entry.state);
 
-            size_t newidx = states.size();
-            if (state_iter == states.template get<1>().end()) {
-                states.push_back(enumerated_state<State>(newidx, entry.state));
+            size_t newidx = states_new.size();
+            if (state_iter == states_new.template get<1>().end()) {
+                states_new.push_back(enumerated_state<State>(newidx, entry.state));
             } else {
                 newidx = state_iter->idx;
             }
@@ -989,13 +987,14 @@ void SystemBase<Scalar, State>::add(SystemBase<Scalar, State> &system) {
             transformator_triplets.emplace_back(newidx, entry.idx, 1);
         }
 
-        transformator.resize(states.size(), system.basisvectors.rows());
+        transformator.resize(states_new.size(), system.basisvectors.rows());
         transformator.setFromTriplets(transformator_triplets.begin(), transformator_triplets.end());
     }
 
     // --- Combine basisvectors and basisvectors_unperturbed_cache ---
-    basisvectors.conservativeResize(states.size(), size_this + size_other);
-    basisvectors.rightCols(size_other) = transformator * system.basisvectors;
+    Eigen::SparseMatrix<Scalar> basisvectors_new = basisvectors;
+    basisvectors_new.conservativeResize(states_new.size(), size_this + size_other);
+    basisvectors_new.rightCols(size_other) = transformator * system.basisvectors;
 
     if ((basisvectors_unperturbed_cache.size() != 0) !=
         (system.basisvectors_unperturbed_cache.size() != 0)) {
@@ -1003,17 +1002,18 @@ void SystemBase<Scalar, State>::add(SystemBase<Scalar, State> &system) {
                                  std::to_string(__LINE__) + ".");
     }
 
+    Eigen::SparseMatrix<Scalar> basisvectors_unperturbed_new = basisvectors_unperturbed_cache;
     if (basisvectors_unperturbed_cache.size() != 0) {
-        basisvectors_unperturbed_cache.conservativeResize(
-            states.size(),
+        basisvectors_unperturbed_new.conservativeResize(
+            states_new.size(),
             basisvectors_unperturbed_cache.cols() + system.basisvectors_unperturbed_cache.cols());
-        basisvectors_unperturbed_cache.rightCols(system.basisvectors_unperturbed_cache.cols()) =
+        basisvectors_unperturbed_new.rightCols(system.basisvectors_unperturbed_cache.cols()) =
             transformator * system.basisvectors_unperturbed_cache;
     }
 
     // --- Check if basis vectors are orthogonal ---
     Eigen::SparseMatrix<Scalar> tmp =
-        (basisvectors.leftCols(size_this).adjoint() * basisvectors.rightCols(size_other))
+        (basisvectors_new.leftCols(size_this).adjoint() * basisvectors_new.rightCols(size_other))
             .pruned(1e-12, 1);
     if (tmp.nonZeros() != 0) {
         throw std::runtime_error(
@@ -1034,9 +1034,10 @@ void SystemBase<Scalar, State>::add(SystemBase<Scalar, State> &system) {
         shifter.setFromTriplets(shifter_triplets.begin(), shifter_triplets.end());
     }
 
-    hamiltonian.conservativeResize(hamiltonian.rows() + system.hamiltonian.rows(),
-                                   hamiltonian.cols() + system.hamiltonian.cols());
-    hamiltonian.rightCols(system.hamiltonian.cols()) = shifter * system.hamiltonian;
+    Eigen::SparseMatrix<Scalar> hamiltonian_new = hamiltonian;
+    hamiltonian_new.conservativeResize(hamiltonian.rows() + system.hamiltonian.rows(),
+                                       hamiltonian.cols() + system.hamiltonian.cols());
+    hamiltonian_new.rightCols(system.hamiltonian.cols()) = shifter * system.hamiltonian;
 
     if ((hamiltonian_unperturbed_cache.size() != 0) !=
         (system.hamiltonian_unperturbed_cache.size() != 0)) {
@@ -1044,13 +1045,26 @@ void SystemBase<Scalar, State>::add(SystemBase<Scalar, State> &system) {
                                  std::to_string(__LINE__) + ".");
     }
 
+    Eigen::SparseMatrix<Scalar> hamiltonian_unperturbed_new = hamiltonian_unperturbed_cache;
     if (hamiltonian_unperturbed_cache.size() != 0) {
-        hamiltonian_unperturbed_cache.conservativeResize(
+        hamiltonian_unperturbed_new.conservativeResize(
             hamiltonian_unperturbed_cache.rows() + system.hamiltonian_unperturbed_cache.rows(),
             hamiltonian_unperturbed_cache.cols() + system.hamiltonian_unperturbed_cache.cols());
-        hamiltonian_unperturbed_cache.rightCols(system.hamiltonian_unperturbed_cache.cols()) =
+        hamiltonian_unperturbed_new.rightCols(system.hamiltonian_unperturbed_cache.cols()) =
             shifter * system.hamiltonian_unperturbed_cache;
     }
+
+    // --- Combine system specific variables ---
+    this->incorporate(system);
+
+    states.swap(states_new);
+    basisvectors.swap(basisvectors_new);
+    basisvectors_unperturbed_cache.swap(basisvectors_unperturbed_new);
+    hamiltonian.swap(hamiltonian_new);
+    hamiltonian_unperturbed_cache.swap(hamiltonian_unperturbed_new);
+
+    // Comunicate that the list of states has changed
+    this->onStatesChange();
 }
 
 template <class Scalar, class State>
-- 
2.43.0


From 4724de4fc1a485d2a2e2d17834be322a754d95eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:19 +0000
Subject: [PATCH 49/56] fix: refuse to combine systems with different
 interactions

---
 pairinteraction/SystemOne.cpp | 6 ++++++
 pairinteraction/SystemTwo.cpp | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index 07f482f..1ee77bb 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -745,6 +745,12 @@ void SystemOne<Scalar>::incorporate(SystemBase<Scalar, StateOne> &system) {
         throw std::runtime_error(
             "The value of the variable 'ordermax' must be the same for both systems.");
     }
+    if (charge != dynamic_cast<SystemOne<Scalar> &>(system).charge ||
+        ordermax != dynamic_cast<SystemOne<Scalar> &>(system).ordermax ||
+        distance != dynamic_cast<SystemOne<Scalar> &>(system).distance) {
+        throw std::runtime_error(
+            "The interaction with the ion must be the same for both systems.");
+    }
 
     // Combine symmetries
     unsigned int num_different_symmetries = 0;
diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index 02a38e7..839d691 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -1499,6 +1499,14 @@ void SystemTwo<Scalar>::incorporate(SystemBase<Scalar, StateTwo> &system) {
         throw std::runtime_error(
             "The value of the variable 'ordermax' must be the same for both systems.");
     }
+    if (GTbool != dynamic_cast<SystemTwo &>(system).GTbool) {
+        throw std::runtime_error(
+            "The value of the variable 'GTbool' must be the same for both systems.");
+    }
+    if (surface_distance != dynamic_cast<SystemTwo &>(system).surface_distance) {
+        throw std::runtime_error(
+            "The value of the variable 'surface_distance' must be the same for both systems.");
+    }
 
     // Combine symmetries
     unsigned int num_different_symmetries = 0;
-- 
2.43.0


From ea37bcbd215bb86f26037cfaa39dea947e7ea926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:19 +0000
Subject: [PATCH 50/56] fix: keep the basis vectors that were chosen after a
 diagonalization

---
 pairinteraction/SystemBase.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 8188e29..2eddf7c 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -22,6 +22,7 @@
 
 #include "EigenCompat.hpp"
 #include <Eigen/Geometry>
+#include <Eigen/QR>
 #include <unsupported/Eigen/MatrixFunctions>
 
 #include <numeric>
@@ -1583,8 +1584,17 @@ void SystemBase<Scalar, State>::applyRightsideTransformator(
     // vectors)
     Eigen::SparseMatrix<Scalar> basisvectors_new = basisvectors * transformator;
     Eigen::SparseMatrix<Scalar> basisvectors_unperturbed_new;
+    Eigen::SparseMatrix<Scalar> transformator_unperturbed = transformator;
     if (basisvectors_unperturbed_cache.size() != 0) {
-        basisvectors_unperturbed_new = basisvectors_unperturbed_cache * transformator;
+        // Express the same vectors by the basis vectors without interaction if these are different
+        if ((basisvectors - basisvectors_unperturbed_cache).norm() > 1e-12) {
+            Eigen::MatrixX<Scalar> unperturbed = basisvectors_unperturbed_cache;
+            Eigen::MatrixX<Scalar> wanted = basisvectors_new;
+            Eigen::MatrixX<Scalar> solution =
+                unperturbed.completeOrthogonalDecomposition().solve(wanted);
+            transformator_unperturbed = solution.sparseView();
+        }
+        basisvectors_unperturbed_new = basisvectors_unperturbed_cache * transformator_unperturbed;
     }
 
     // Apply transformator in order to remove rows and columns from the total Hamiltonian
@@ -1592,13 +1602,13 @@ void SystemBase<Scalar, State>::applyRightsideTransformator(
         transformator.adjoint() * hamiltonian * transformator;
     Eigen::SparseMatrix<Scalar> hamiltonian_unperturbed_new;
     if (hamiltonian_unperturbed_cache.size() != 0) {
-        hamiltonian_unperturbed_new =
-            transformator.adjoint() * hamiltonian_unperturbed_cache * transformator;
+        hamiltonian_unperturbed_new = transformator_unperturbed.adjoint() *
+            hamiltonian_unperturbed_cache * transformator_unperturbed;
     }
 
     // Apply transformator in order to remove rows and columns from the matrices that help
     // constructing the total Hamiltonian
-    this->transformInteractionSafely(transformator);
+    this->transformInteractionSafely(transformator_unperturbed);
 
     basisvectors.swap(basisvectors_new);
     basisvectors_unperturbed_cache.swap(basisvectors_unperturbed_new);
-- 
2.43.0


From 2bccde35b67d8020c28e62acc2f98a9420f8ef8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:19 +0000
Subject: [PATCH 51/56] fix: diagonalize also if the divide and conquer
 algorithm does not converge

---
 pairinteraction/SystemBase.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 2eddf7c..1025160 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -63,6 +63,17 @@ static int LAPACKE_evd(const int matrix_layout, const char jobz, const char uplo
                        double *w) {
     return LAPACKE_zheevd(matrix_layout, jobz, uplo, n, a, lda, w);
 }
+
+static int LAPACKE_ev(const int matrix_layout, const char jobz, const char uplo,
+                      const lapack_int n, double *a, const lapack_int lda, double *w) {
+    return LAPACKE_dsyev(matrix_layout, jobz, uplo, n, a, lda, w);
+}
+
+static int LAPACKE_ev(const int matrix_layout, const char jobz, const char uplo,
+                      const lapack_int n, lapack_complex_double *a, const lapack_int lda,
+                      double *w) {
+    return LAPACKE_zheev(matrix_layout, jobz, uplo, n, a, lda, w);
+}
 #endif // EIGEN_USE_LAPACKE || WITH_INTEL_MKL
 
 template <typename State>
@@ -796,6 +807,11 @@ void SystemBase<Scalar, State>::diagonalize(double threshold) {
     int lda = mat.outerStride();              // leading dimension
     Eigen::VectorX<double> evals(n);          // eigenvalues
     int info = LAPACKE_evd(LAPACK_COL_MAJOR, jobz, uplo, n, mat.data(), lda, evals.data());
+    if (info > 0) {
+        // The divide and conquer algorithm does not converge for all matrices
+        mat = hamiltonian;
+        info = LAPACKE_ev(LAPACK_COL_MAJOR, jobz, uplo, n, mat.data(), lda, evals.data());
+    }
     if (info != 0) {
         throw std::runtime_error("Diagonalization with LAPACKE failed.");
     }
-- 
2.43.0


From 5651d34010c6ec87a761e872fa004ac103426fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:54 +0000
Subject: [PATCH 52/56] fix: a kill or an error while the settings are saved
 does not destroy the saved settings

---
 pairinteraction_gui/app.py   |  8 ++++----
 pairinteraction_gui/utils.py | 15 +++++++++++++++
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/pairinteraction_gui/app.py b/pairinteraction_gui/app.py
index dd6c382..25ee3a2 100644
--- a/pairinteraction_gui/app.py
+++ b/pairinteraction_gui/app.py
@@ -145,7 +145,7 @@ from pairinteraction_gui.loader import Eigensystem
 from pairinteraction_gui.pipy_thread import PipyThread
 from pairinteraction_gui.pyqtgraphadditions import MultiLine, PointsItem
 from pairinteraction_gui.unitmanagement import Quantity, Units
-from pairinteraction_gui.utils import Wignerd, bytescale, csc_happend, csr_keepmax, csr_vappend
+from pairinteraction_gui.utils import Wignerd, bytescale, csc_happend, csr_keepmax, csr_vappend, replacing_open
 from pairinteraction_gui.version import version_cache, version_program, version_settings
 from pairinteraction_gui.worker import AllQueues, Worker
 
@@ -1060,7 +1060,7 @@ class MainWindow(QtWidgets.QMainWindow):
             json.dump(params, f, indent=4, sort_keys=True)
 
         if isinstance(path, str):
-            with open(path, "w") as f:
+            with replacing_open(path) as f:
                 save(f)
         else:
             save(path)
@@ -1074,7 +1074,7 @@ class MainWindow(QtWidgets.QMainWindow):
             json.dump(params, f, indent=4, sort_keys=True)
 
         if isinstance(path, str):
-            with open(path, "w") as f:
+            with replacing_open(path) as f:
                 save(f)
         else:
             save(path)
@@ -1090,7 +1090,7 @@ class MainWindow(QtWidgets.QMainWindow):
             json.dump(params, f, indent=4, sort_keys=True)
 
         if isinstance(path, str):
-            with open(path, "w") as f:
+            with replacing_open(path) as f:
                 save(f)
         else:
             save(path)
diff --git a/pairinteraction_gui/utils.py b/pairinteraction_gui/utils.py
index 409d142..047d18c 100644
--- a/pairinteraction_gui/utils.py
+++ b/pairinteraction_gui/utils.py
@@ -14,6 +14,7 @@
 #
 # You should have received a copy of the GNU General Public License
 # along with the pairinteraction GUI. If not, see <http://www.gnu.org/licenses/>.
+import contextlib
 import os
 import pickle
 
@@ -22,6 +23,20 @@ import numpy as np
 # === Calculate and cache Wigner d-matrix elements ===
 
 
+@contextlib.contextmanager
+def replacing_open(path, mode="w"):
+    """Write a file that replaces path once it is complete; if the writing fails, path stays what it was."""
+    path_tmp = f"{path}.{os.getpid()}.tmp"
+    try:
+        with open(path_tmp, mode) as f:
+            yield f
+        os.replace(path_tmp, path)
+    except BaseException:
+        if os.path.exists(path_tmp):
+            os.remove(path_tmp)
+        raise
+
+
 class Wignerd:
     def __init__(self, cachedir):
         self.cachedir = cachedir
-- 
2.43.0


From 0cbc3510b25dcf66a68027b6f83f5e218f858138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:54 +0000
Subject: [PATCH 53/56] fix: replace the files for the cache directory and the
 version as a whole

---
 pairinteraction_gui/app.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pairinteraction_gui/app.py b/pairinteraction_gui/app.py
index 25ee3a2..713af27 100644
--- a/pairinteraction_gui/app.py
+++ b/pairinteraction_gui/app.py
@@ -926,7 +926,7 @@ class MainWindow(QtWidgets.QMainWindow):
                 sys.exit()
 
         if version_settings_saved is None or version_cache_saved is None:
-            with open(self.path_version, "w") as f:
+            with replacing_open(self.path_version) as f:
                 json.dump(
                     {"version_settings": version_settings, "version_cache": version_cache},
                     f,
@@ -944,7 +944,7 @@ class MainWindow(QtWidgets.QMainWindow):
         # Create path_cache_last
         if not os.path.isfile(self.path_cache_last):
             os.makedirs(self.path_cache, exist_ok=True)
-            with open(self.path_cache_last, "w") as f:
+            with replacing_open(self.path_cache_last) as f:
                 json.dump({"cachedir": self.path_cache}, f, indent=4, sort_keys=True)
 
         # Create object to calculate wigner d matrix
@@ -3524,7 +3524,7 @@ class MainWindow(QtWidgets.QMainWindow):
                 os.makedirs(self.path_cache)
 
             # Save cache directory
-            with open(self.path_cache_last, "w") as f:
+            with replacing_open(self.path_cache_last) as f:
                 json.dump({"cachedir": self.path_cache}, f, indent=4, sort_keys=True)
 
     @QtCore.pyqtSlot()
-- 
2.43.0


From 0ab9b5a1ff55ea180ba85d4f7f5c40cb9011ecae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:54 +0000
Subject: [PATCH 54/56] fix: a kill while the default settings are copied does
 not leave settings that cannot be loaded

---
 pairinteraction_gui/app.py   | 22 +++++++++++++---------
 pairinteraction_gui/utils.py |  6 ++++++
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/pairinteraction_gui/app.py b/pairinteraction_gui/app.py
index 713af27..bc17e0e 100644
--- a/pairinteraction_gui/app.py
+++ b/pairinteraction_gui/app.py
@@ -145,7 +145,15 @@ from pairinteraction_gui.loader import Eigensystem
 from pairinteraction_gui.pipy_thread import PipyThread
 from pairinteraction_gui.pyqtgraphadditions import MultiLine, PointsItem
 from pairinteraction_gui.unitmanagement import Quantity, Units
-from pairinteraction_gui.utils import Wignerd, bytescale, csc_happend, csr_keepmax, csr_vappend, replacing_open
+from pairinteraction_gui.utils import (
+    Wignerd,
+    bytescale,
+    csc_happend,
+    csr_keepmax,
+    csr_vappend,
+    replacing_copy,
+    replacing_open,
+)
 from pairinteraction_gui.version import version_cache, version_program, version_settings
 from pairinteraction_gui.worker import AllQueues, Worker
 
@@ -954,11 +962,11 @@ class MainWindow(QtWidgets.QMainWindow):
 
         # Load last settings
         if not os.path.isfile(self.path_system_last):
-            shutil.copyfile(os.path.join(self.path_configurationdir, "example.sconf"), self.path_system_last)
+            replacing_copy(os.path.join(self.path_configurationdir, "example.sconf"), self.path_system_last)
         self.loadSettingsSystem(self.path_system_last)
 
         if not os.path.isfile(self.path_plot_last):
-            shutil.copyfile(os.path.join(self.path_configurationdir, "example.pconf"), self.path_plot_last)
+            replacing_copy(os.path.join(self.path_configurationdir, "example.pconf"), self.path_plot_last)
         self.loadSettingsPlotter(self.path_plot_last)
 
         if os.path.isfile(self.path_view_last):
@@ -3570,9 +3578,7 @@ class MainWindow(QtWidgets.QMainWindow):
         conf_used = self.path_system_last
         conf_original = os.path.join(self.path_configurationdir, "example.sconf")
 
-        if os.path.isfile(conf_used):
-            os.remove(conf_used)
-        shutil.copyfile(conf_original, conf_used)
+        replacing_copy(conf_original, conf_used)
         self.loadSettingsSystem(conf_used)
 
     @QtCore.pyqtSlot()
@@ -3580,9 +3586,7 @@ class MainWindow(QtWidgets.QMainWindow):
         conf_used = self.path_plot_last
         conf_original = os.path.join(self.path_configurationdir, "example.pconf")
 
-        if os.path.isfile(conf_used):
-            os.remove(conf_used)
-        shutil.copyfile(conf_original, conf_used)
+        replacing_copy(conf_original, conf_used)
         self.loadSettingsPlotter(conf_used)
 
     @QtCore.pyqtSlot()
diff --git a/pairinteraction_gui/utils.py b/pairinteraction_gui/utils.py
index 047d18c..51f7f46 100644
--- a/pairinteraction_gui/utils.py
+++ b/pairinteraction_gui/utils.py
@@ -17,6 +17,7 @@
 import contextlib
 import os
 import pickle
+import shutil
 
 import numpy as np
 
@@ -37,6 +38,11 @@ def replacing_open(path, mode="w"):
         raise
 
 
+def replacing_copy(source, path):
+    with open(source, "rb") as f, replacing_open(path, "wb") as g:
+        shutil.copyfileobj(f, g)
+
+
 class Wignerd:
     def __init__(self, cachedir):
         self.cachedir = cachedir
-- 
2.43.0


From 81d85b810b49133bffc8973e402d1a3dbf34dfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:54 +0000
Subject: [PATCH 55/56] fix: a kill while rotation coefficients are saved does
 not leave a file that cannot be loaded

---
 pairinteraction_gui/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pairinteraction_gui/utils.py b/pairinteraction_gui/utils.py
index 51f7f46..311f13f 100644
--- a/pairinteraction_gui/utils.py
+++ b/pairinteraction_gui/utils.py
@@ -57,9 +57,9 @@ class Wignerd:
             if not self.cachupdatedict[k]:
                 continue
             path = os.path.join(self.cachedir, k)
-            with open(path, "wb") as f:
+            with replacing_open(path, "wb") as f:
                 pickle.dump(v, f, pickle.HIGHEST_PROTOCOL)
-                self.cachupdatedict[k] = False
+            self.cachupdatedict[k] = False
 
     def calc(self, j, m2, m1, beta):
         sgn = 1
-- 
2.43.0


From c8aebce9a3be3837c1c5d66670d2c88ee367c3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:54 +0000
Subject: [PATCH 56/56] fix: do not offer to delete the settings when another
 program starts at the same time

---
 pairinteraction_gui/app.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pairinteraction_gui/app.py b/pairinteraction_gui/app.py
index bc17e0e..3d58edc 100644
--- a/pairinteraction_gui/app.py
+++ b/pairinteraction_gui/app.py
@@ -886,7 +886,10 @@ class MainWindow(QtWidgets.QMainWindow):
                 self.path_cache = params["cachedir"]
 
         ### Check version
-        # Load version
+        # Load version, after looking for the directories because another program that is starting writes the version
+        # before it creates them
+        lastsettings_exists = os.path.exists(self.path_lastsettings)
+        cache_exists = os.path.exists(self.path_cache)
         version_settings_saved = None
         version_cache_saved = None
         if os.path.isfile(self.path_version):
@@ -896,7 +899,7 @@ class MainWindow(QtWidgets.QMainWindow):
                 version_cache_saved = params["version_cache"]
 
         # Compare version
-        if os.path.exists(self.path_lastsettings) and version_settings_saved != version_settings:
+        if lastsettings_exists and version_settings_saved != version_settings:
             msg = QtWidgets.QMessageBox()
             msg.setText(
                 "A new program version has been installed. Due to configuration "
@@ -915,7 +918,7 @@ class MainWindow(QtWidgets.QMainWindow):
             else:
                 sys.exit()
 
-        if os.path.exists(self.path_cache) and version_cache_saved != version_cache:
+        if cache_exists and version_cache_saved != version_cache:
             msg = QtWidgets.QMessageBox()
             msg.setText(
                 "A new program version has been installed. Due to database changes, the "
-- 
2.43.0

