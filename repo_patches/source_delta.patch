From 2c147754c80e7345d2c73b4c23dcecf0844eb537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 01/56] fix: release Matrix storage with delete[] and allocate
 it once

---
 src/libcatnip/matrix.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index b206b70..2ea5070 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -279,7 +279,6 @@ Matrix::Matrix(vector<vector<double>> vv_data) {
   cols = vv_data.at(0).size();
   shel = 1;
   elem = new double[rows * cols];
-  elem = new double[rows * cols];
 
   int r = 1;
   for (auto v : vv_data) {
@@ -416,7 +415,7 @@ int Matrix::resize(int r, int c) {
     }
   }
 
-  delete elem;
+  delete[] elem;
   rows = r;
   cols = c;
   shel = 1;
@@ -488,7 +487,7 @@ void Matrix::set_rows(int r) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     rows = r;
     elem = temp;
   } else if (r < rows) {
@@ -503,7 +502,7 @@ void Matrix::set_rows(int r) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     rows = r;
     elem = temp;
   }
@@ -545,7 +544,7 @@ void Matrix::set_cols(int c) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     cols = c;
     elem = temp;
   } else if (c < cols) {
@@ -560,7 +559,7 @@ void Matrix::set_cols(int c) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     cols = c;
     elem = temp;
   }
@@ -585,7 +584,7 @@ void Matrix::set_shel(int s) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     shel = s;
     elem = temp;
   } else if (s < shel) {
@@ -600,7 +599,7 @@ void Matrix::set_shel(int s) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     shel = s;
     elem = temp;
   }
-- 
2.43.0


From 5ca887d1ac170ab32ed7f327587133702c7e1271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 02/56] fix: make Matrix copies independent and keep shelves on
 assignment

---
 src/libcatnip/matrix.cpp | 34 ++++++++++++++++++++++++++--------
 src/libcatnip/matrix.hpp |  4 ++++
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 2ea5070..3cb5ba3 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -362,6 +362,19 @@ Matrix::Matrix(const int r, const int c, const int s) {
   }
 }
 
+Matrix::Matrix(const Matrix &m) {
+  rows = m.rows;
+  cols = m.cols;
+  shel = m.shel;
+  const int total = rows * cols * shel;
+  elem = new double[total];
+  for (int i = 0; i < total; ++i) {
+    elem[i] = m.elem[i];
+  }
+}
+
+Matrix::~Matrix() { delete[] elem; }
+
 int Matrix::resize(int r, int c) {
 
   if (r < 1) {
@@ -425,13 +438,18 @@ int Matrix::resize(int r, int c) {
 }
 
 Matrix &Matrix::operator=(const Matrix &m) {
-  this->resize(m.get_rows(), m.get_cols());
+  if (this == &m) return *this;
 
-  for (int i = 1; i <= m.get_rows(); ++i) {
-    for (int j = 1; j <= m.get_cols(); ++j) {
-      this->set_elem(m.get_elem(i, j), i, j);
-    }
+  const int total = m.rows * m.cols * m.shel;
+  double *temp = new double[total];
+  for (int i = 0; i < total; ++i) {
+    temp[i] = m.elem[i];
   }
+  delete[] elem;
+  rows = m.rows;
+  cols = m.cols;
+  shel = m.shel;
+  elem = temp;
   return *this;
 }
 
@@ -896,15 +914,15 @@ Matrix Matrix::invert() const{
     exit(1);
   }
 
-  Matrix *mat2 = new Matrix(this->get_cols(), this->get_rows());
+  Matrix mat2(this->get_cols(), this->get_rows());
 
   for (int i = 1; i <= this->get_rows(); i++) {
     for (int j = 1; j <= this->get_cols(); j++) {
       double val = this->get_elem(i, j);
-      (*mat2).set_elem(val, j, i);
+      mat2.set_elem(val, j, i);
     }
   }
-  return *mat2;
+  return mat2;
 }
 
 Matrix Matrix::getRow(int R) const{
diff --git a/src/libcatnip/matrix.hpp b/src/libcatnip/matrix.hpp
index cce1c3e..2d5b201 100644
--- a/src/libcatnip/matrix.hpp
+++ b/src/libcatnip/matrix.hpp
@@ -23,6 +23,10 @@ class Matrix {
   Matrix(const int r, const int c);
   Matrix(const int r, const int c, const int s);
 
+  // A matrix owns its elements: copies are deep
+  Matrix(const Matrix &m);
+  ~Matrix();
+
   Matrix &operator=(const Matrix &m);
   // manipulators
   void set_rows(int r);
-- 
2.43.0


From b58336b3e0c91e3d0f8052a160147b7bc7a89f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 03/56] fix: keep the existing elements when a Matrix dimension
 changes

---
 src/libcatnip/matrix.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 3cb5ba3..edae568 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -497,10 +497,10 @@ void Matrix::set_rows(int r) {
     for (int i = 1; i <= r; i++) {
       for (int j = 1; j <= cols; j++) {
         for (int k = 1; k <= shel; k++) {
-          if (r <= rows) {
-            temp[index(i, j, k)] = elem[index(i, j, k)];
+          if (i <= rows) {
+            temp[((i - 1) * cols + j - 1) * shel + k - 1] = elem[index(i, j, k)];
           } else {
-            temp[index(i, j, k)] = 0;
+            temp[((i - 1) * cols + j - 1) * shel + k - 1] = 0;
           }
         }
       }
@@ -554,10 +554,10 @@ void Matrix::set_cols(int c) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= c; j++) {
         for (int k = 1; k <= shel; k++) {
-          if (c <= cols) {
-            temp[index(i, j, k)] = elem[index(i, j, k)];
+          if (j <= cols) {
+            temp[((i - 1) * c + j - 1) * shel + k - 1] = elem[index(i, j, k)];
           } else {
-            temp[index(i, j, k)] = 0;
+            temp[((i - 1) * c + j - 1) * shel + k - 1] = 0;
           }
         }
       }
@@ -573,7 +573,8 @@ void Matrix::set_cols(int c) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= c; j++) {
         for (int k = 1; k <= shel; k++) {
-          temp[index(i, j, k)] = elem[index(i, j, k)];
+          temp[((i - 1) * c + j - 1) * shel + k - 1] =
+              elem[index(i, j, k)];
         }
       }
     }
@@ -594,10 +595,10 @@ void Matrix::set_shel(int s) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= cols; j++) {
         for (int k = 1; k <= s; k++) {
-          if (s <= shel) {
-            temp[index(i, j, k)] = elem[index(i, j, k)];
+          if (k <= shel) {
+            temp[((i - 1) * cols + j - 1) * s + k - 1] = elem[index(i, j, k)];
           } else {
-            temp[index(i, j, k)] = 0;
+            temp[((i - 1) * cols + j - 1) * s + k - 1] = 0;
           }
         }
       }
@@ -613,7 +614,8 @@ void Matrix::set_shel(int s) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= cols; j++) {
         for (int k = 1; k <= s; k++) {
-          temp[index(i, j, k)] = elem[index(i, j, k)];
+          temp[((i - 1) * cols + j - 1) * s + k - 1] =
+              elem[index(i, j, k)];
         }
       }
     }
-- 
2.43.0


From 3d3ce99c81b2cfb79fcf9e757036e0dd330d6256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 04/56] fix: a Matrix column has as many elements as there are
 rows

---
 src/libcatnip/matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index edae568..231eeb1 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -474,7 +474,7 @@ void Matrix::set_row(vector<double> row, int r) {
 
 void Matrix::set_col(vector<double> col, int c) {
 
-  if (get_cols() != static_cast<int>(col.size())) {
+  if (get_rows() != static_cast<int>(col.size())) {
     throw invalid_argument("vector is not the same size as matrix");
   }
   for (int i = 1; i <= get_rows(); ++i) {
@@ -953,7 +953,7 @@ Matrix Matrix::getCol(int C) const {
     printf(" because mat has only %d cols\n.", this->get_cols());
     exit(1);
   }
-  Matrix mat2(this->get_cols(), 1, this->get_shel());
+  Matrix mat2(this->get_rows(), 1, this->get_shel());
 
   for (int i = 1; i <= this->get_rows(); i++) {
     for (int k = 1; k <= this->get_shel(); k++) {
-- 
2.43.0


From 585cb1fb30b056c37dfd29c20dfaad60313a837e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 05/56] fix: refuse rows and columns outside of a Matrix

---
 src/libcatnip/matrix.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 231eeb1..5e23659 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -463,12 +463,11 @@ void Matrix::set_row(vector<double> row, int r) {
     throw invalid_argument("vector is not the same size as matrix");
   }
 
+  if (r < 1 || r > rows) {
+    throw invalid_argument("row is outside of the matrix in set_row");
+  }
   for (int j = 1; j <= get_cols(); j++) {
-    if (r <= rows) {
-      elem[index(r, j, 1)] = row.at(j - 1);
-    } else {
-      elem[index(r, j, 1)] = 0;
-    }
+    elem[index(r, j, 1)] = row.at(j - 1);
   }
 }
 
@@ -477,12 +476,11 @@ void Matrix::set_col(vector<double> col, int c) {
   if (get_rows() != static_cast<int>(col.size())) {
     throw invalid_argument("vector is not the same size as matrix");
   }
+  if (c < 1 || c > cols) {
+    throw invalid_argument("column is outside of the matrix in set_col");
+  }
   for (int i = 1; i <= get_rows(); ++i) {
-    if (c <= cols) {
-      elem[index(i, c, 1)] = col.at(i - 1);
-    } else {
-      elem[index(i, c, 1)] = 0;
-    }
+    elem[index(i, c, 1)] = col.at(i - 1);
   }
 }
 
@@ -527,6 +525,9 @@ void Matrix::set_rows(int r) {
 }
 
 vector<double> Matrix::get_col(int c) const{
+  if (c < 1 || c > cols) {
+    throw invalid_argument("column is outside of the matrix in get_col");
+  }
   vector<double> col_data;
   for (int i = 1; i <= rows; i++) {
     col_data.push_back(elem[index(i, c, 1)]);
@@ -535,6 +536,9 @@ vector<double> Matrix::get_col(int c) const{
 }
 
 vector<double> Matrix::get_row(int r) const {
+  if (r < 1 || r > rows) {
+    throw invalid_argument("row is outside of the matrix in get_row");
+  }
   vector<double> row_data;
   for (int i = 1; i <= cols; i++) {
     row_data.push_back(elem[index(r, i, 1)]);
-- 
2.43.0


From d850954ccb46cfd3c13486fbdc12152ac726ccaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 06/56] fix: match Matrix rows and columns on the decimals
 asked for

---
 src/libcatnip/matrix.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 5e23659..9822fde 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -1,6 +1,7 @@
 #include <cmath>
 #include <cstdlib>
 #include <exception>
+#include <iomanip>
 #include <iostream>
 #include <sstream>
 #include <stdexcept>
@@ -170,8 +171,11 @@ Matrix Matrix_concatenate_cols(const Matrix &mat1, const Matrix &mat2) {
 
 string double_tos(double f, int nd) {
   ostringstream ostr;
-  int tens = stod("1" + string(nd, '0'));
-  ostr << round(f * tens) / tens;
+  double tens = stod("1" + string(nd, '0'));
+  double rounded = round(f * tens) / tens;
+  // Negative zero is the same value as zero
+  if (rounded == 0) rounded = 0;
+  ostr << fixed << setprecision(nd) << rounded;
   return ostr.str();
 }
 
-- 
2.43.0


From b4d7a311ef00519f657783acc556fca983264177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 07/56] fix: print each shelf of a Matrix

---
 src/libcatnip/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 9822fde..5d6f438 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -197,7 +197,7 @@ std::ostream &operator<<(std::ostream &out, Matrix &mat) {
     for (i = 1; i <= mat.get_rows(); i++) {
       out << "Row " << i << "\t";
       for (j = 1; j <= mat.get_cols(); j++) {
-        out << mat.get_elem(i, j) << "\t";
+        out << mat.get_elem(i, j, k) << "\t";
       }
       out << "\n";
     }
-- 
2.43.0


From f20bc091b3c26b2b387255697a3d9e35d73b6775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 08/56] fix: refuse a log file without an overlap matrix

---
 src/libcatnip/io/file_readers/logreader.cpp | 7 +++++++
 src/libcatnip/io/file_readers/logreader.hpp | 4 ++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index d5326f9..e1ef402 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -94,6 +94,13 @@ void LogReader::validFileName_() {
   }
 }
 
+Matrix *LogReader::getOverlapMatrix() const {
+  if (S_ == nullptr) {
+    throw invalid_argument("Overlap matrix was not found in " + fileName_);
+  }
+  return S_;
+}
+
 vector<int> LogReader::getBasisFuncCount() {
   vector<int> basisFuncCount;
   for (auto values : orb_) {
diff --git a/src/libcatnip/io/file_readers/logreader.hpp b/src/libcatnip/io/file_readers/logreader.hpp
index 46cde5d..0499d67 100644
--- a/src/libcatnip/io/file_readers/logreader.hpp
+++ b/src/libcatnip/io/file_readers/logreader.hpp
@@ -18,7 +18,7 @@ class LogReader : public FileReader {
  public:
   explicit LogReader(const std::string &str);
   orb_cont getOrbitalInfo() const { return orb_; }
-  Matrix *getOverlapMatrix() const { return S_; }
+  Matrix *getOverlapMatrix() const;
   std::vector<double> getOE(const std::string &orb_type) const {
     return OREnergies.at(orb_type);
   }
@@ -48,7 +48,7 @@ class LogReader : public FileReader {
   std::map<std::string, int> homoLevel;
   orb_cont orb_;
   // Overlap matrix
-  Matrix *S_;
+  Matrix *S_ = nullptr;
   std::map<std::string, std::vector<double>> OREnergies;
 
   std::vector<std::vector<double>> xyz;
-- 
2.43.0


From 64860c2db6ab1bd0c68d2dbcfa40fbfbe3e47fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 09/56] fix: stop at the end of a truncated population or
 coordinate section

---
 src/libcatnip/io/file_readers/logreader.cpp | 23 ++++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index e1ef402..b586f21 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -64,6 +64,13 @@ vector<string> splitStEnergies(const string & line){
   return items2;
 }
 
+// Read a line of a section that is not finished yet
+void readSectionLine(ifstream &fid, string &line) {
+  if (!getline(fid, line)) {
+    throw runtime_error("Log file ends in the middle of a section");
+  }
+}
+
 LogReader::LogReader(const string &fileName) : FileReader(fileName) {
   validFileName_();
   registerSections_();
@@ -116,8 +123,8 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
   int atom_num = 1;
   string end_pattern = "         Condensed to atoms";
   string line;
-  getline(LR_ptr->fid_, line);
-  getline(LR_ptr->fid_, line);
+  readSectionLine(LR_ptr->fid_, line);
+  readSectionLine(LR_ptr->fid_, line);
   bool sectionEnd = false;
   while (sectionEnd == false) {
     istringstream iss(line);
@@ -137,7 +144,7 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
     }
     LR_ptr->orb_[make_pair(atom_num, elemType)][orbType] = orbVals;
 
-    getline(LR_ptr->fid_, line);
+    readSectionLine(LR_ptr->fid_, line);
     string elemType2 = "";
     elemType2.append(string(1, line.at(9)));
     elemType2.append(string(1, line.at(10)));
@@ -157,7 +164,7 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
 
       LR_ptr->orb_[make_pair(atom_num, elemType)][orbType] = orbVals;
 
-      getline(LR_ptr->fid_, line);
+      readSectionLine(LR_ptr->fid_, line);
 
       istringstream iss3(line);
       iss3 >> elemType2;
@@ -340,9 +347,9 @@ void LogReader::CoordSectionReader(void *ptr) {
       "----------------------------------";
   string line;
   // Skip the 2nd and third line
-  getline(LR_ptr->fid_, line);
-  getline(LR_ptr->fid_, line);
-  getline(LR_ptr->fid_, line);
+  readSectionLine(LR_ptr->fid_, line);
+  readSectionLine(LR_ptr->fid_, line);
+  readSectionLine(LR_ptr->fid_, line);
 
   // While the line does not match the end of the table read in the coordinates
   while (!foundSubStrInStr(line, end_pattern)) {
@@ -350,7 +357,7 @@ void LogReader::CoordSectionReader(void *ptr) {
     X.push_back(stod(vec_str.at(3)));
     Y.push_back(stod(vec_str.at(4)));
     Z.push_back(stod(vec_str.at(5)));
-    getline(LR_ptr->fid_, line);
+    readSectionLine(LR_ptr->fid_, line);
   }
   LR_ptr->xyz.push_back(X);
   LR_ptr->xyz.push_back(Y);
-- 
2.43.0


From 4aa40046f545590c7718c6605ded659ec71a2185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 10/56] fix: read the overlap of systems with five or fewer
 basis functions

---
 src/libcatnip/io/file_readers/logreader.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index b586f21..e5b09e3 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -205,11 +205,12 @@ void LogReader::OverlapSectionReader(void *ptr) {
   // First group of coordinates will be stored in vector<vector<double>>
   vector<vector<double>> first_coefs;
   while (!endFirstSection) {
-    getline(LR_ptr->fid_, line);
+    readSectionLine(LR_ptr->fid_, line);
     istringstream iss(line);
+    countC.clear();
     iss >> countC;
-    int countCint = stoi(countC);
-    if (countCint != (countCoef + 1)) {
+    // With five or fewer functions the next line starts another section
+    if (countC != to_string(countCoef + 1)) {
       endFirstSection = true;
     } else {
       ++countCoef;
-- 
2.43.0


From 40699163986889cbd4676a15ec093e97340373dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 11/56] fix: refuse an incomplete overlap matrix

---
 src/libcatnip/io/file_readers/logreader.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index e5b09e3..387074c 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -1,4 +1,5 @@
 
+#include <algorithm>
 #include <cmath>
 #include <exception>
 #include <fstream>
@@ -217,13 +218,15 @@ void LogReader::OverlapSectionReader(void *ptr) {
       vector<double> row;
 
       // Safe to read in coordinates of first couple of columns
-      while (!iss.eof()) {
-        string s_coef;
-        iss >> s_coef;
+      string s_coef;
+      while (iss >> s_coef) {
         string val = grabStrBeforeFirstOccurance(s_coef, "D");
         string exp = grabStrAfterFirstOccurance(s_coef, "D");
         row.push_back(stod(val) * pow(10.0, stod(exp)));
       }
+      if (static_cast<int>(row.size()) != min(countCoef, 5)) {
+        throw runtime_error("Overlap matrix is not complete");
+      }
       first_coefs.push_back(row);
     }
   }
@@ -254,14 +257,13 @@ void LogReader::OverlapSectionReader(void *ptr) {
 
     int sectionCoef = currentSectionStart;
     while (sectionCoef < countCoef) {
-      getline(LR_ptr->fid_, line);
+      readSectionLine(LR_ptr->fid_, line);
       istringstream iss(line);
       string dummy;
       iss >> dummy;
       int localCoefCount = 1;
-      while (!iss.eof()) {
-        string s_coef;
-        iss >> s_coef;
+      string s_coef;
+      while (iss >> s_coef) {
         string val = grabStrBeforeFirstOccurance(s_coef, "D");
         string expon = grabStrAfterFirstOccurance(s_coef, "D");
         double value = stod(val) * pow(10.0, stod(expon));
@@ -274,6 +276,9 @@ void LogReader::OverlapSectionReader(void *ptr) {
         }
         ++localCoefCount;
       }
+      if (localCoefCount - 1 != min(sectionCoef - currentSectionStart + 1, 5)) {
+        throw runtime_error("Overlap matrix is not complete");
+      }
       ++sectionCoef;
     }
     ++section;
-- 
2.43.0


From 33f91945b4a6d56a250921536495e1dd8d2fe30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 12/56] fix: count the orbitals whose energies overflow their
 columns

---
 src/libcatnip/io/file_readers/logreader.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 387074c..350750b 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -311,8 +311,15 @@ void LogReader::ReadOrbEnergies(const string &orb_type) {
 
       auto vec_str = splitStEnergies(line);
       for (size_t inc = 4; inc < vec_str.size(); inc++) {
-        OREnergies[orb_type].push_back((double)atof(vec_str.at(inc).c_str()));
-        if (occFound) homoLevel[orb_type]++;
+        // Energies too large for their ten characters are printed as asterisks,
+        // they are not known but the orbitals have to be counted
+        const string &str = vec_str.at(inc);
+        const bool known = str.find('*') == string::npos;
+        const size_t num = known ? 1 : max<size_t>(1, str.length() / 10);
+        for (size_t orb = 0; orb < num; ++orb) {
+          OREnergies[orb_type].push_back(known ? atof(str.c_str()) : NAN);
+          if (occFound) homoLevel[orb_type]++;
+        }
       }
     } else {
       break;
-- 
2.43.0


From 30d1241849399c2f78aae14ac0262d0ac70a2f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 13/56] fix: stop reading coefficients at the end of the file

---
 src/libcatnip/io/file_readers/punreader.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index 0b5a92c..88690c6 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -73,10 +73,10 @@ void PunReader::ReadCoef(const string &orb_type) {
   bool allCoefsRead = false;
   while (!allCoefsRead) {
     string line;
-    getline(fid_, line);
+    bool more = static_cast<bool>(getline(fid_, line));
     vector<double> row;
     size_t current_count = 0;
-    while (!foundSubStrInStr(line, pattern)) {
+    while (more && !foundSubStrInStr(line, pattern)) {
 
       if (first_row_set && current_count >= count) break;
       auto coef = readGausCoefLine(line);
@@ -84,13 +84,16 @@ void PunReader::ReadCoef(const string &orb_type) {
         row.push_back(val);
         ++current_count;
       }
-      getline(fid_, line);
+      more = static_cast<bool>(getline(fid_, line));
+    }
+    if (row.empty() || current_count < count) {
+      throw runtime_error("Molecular orbital is not complete in " + fileName_);
     }
     first_row_set = true;
     count = row.size();
     v_vec.push_back(row);
 
-    allCoefsRead = !(foundSubStrInStr(line, orb_type));
+    allCoefsRead = !more || !(foundSubStrInStr(line, orb_type));
   }
 
   Matrix *Coefs = new Matrix(v_vec);
-- 
2.43.0


From 38fc5cbb55ce999b02229a57feb3b2e0f37132ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 14/56] fix: read the beta coefficients that directly follow
 the alpha ones

---
 src/libcatnip/io/file_readers/punreader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index 88690c6..ad28d5f 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -73,6 +73,7 @@ void PunReader::ReadCoef(const string &orb_type) {
   bool allCoefsRead = false;
   while (!allCoefsRead) {
     string line;
+    streampos line_start = fid_.tellg();
     bool more = static_cast<bool>(getline(fid_, line));
     vector<double> row;
     size_t current_count = 0;
@@ -84,6 +85,7 @@ void PunReader::ReadCoef(const string &orb_type) {
         row.push_back(val);
         ++current_count;
       }
+      line_start = fid_.tellg();
       more = static_cast<bool>(getline(fid_, line));
     }
     if (row.empty() || current_count < count) {
@@ -94,6 +96,8 @@ void PunReader::ReadCoef(const string &orb_type) {
     v_vec.push_back(row);
 
     allCoefsRead = !more || !(foundSubStrInStr(line, orb_type));
+    // The line belongs to what follows, it may be the header of a section
+    if (allCoefsRead && more) fid_.seekg(line_start);
   }
 
   Matrix *Coefs = new Matrix(v_vec);
-- 
2.43.0


From c1c43ec5e9307b4f4abe43fadec841eb183fdd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 15/56] fix: take the extension of a file after the last dot of
 its name

---
 src/libcatnip/io/file_readers/filereader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/io/file_readers/filereader.cpp b/src/libcatnip/io/file_readers/filereader.cpp
index 1fd77ea..73a1747 100644
--- a/src/libcatnip/io/file_readers/filereader.cpp
+++ b/src/libcatnip/io/file_readers/filereader.cpp
@@ -64,7 +64,7 @@ void FileReader::checkSections_() {
 string FileReader::fileExt_() const {
   string path = lastStringInPath(fileName_);
   path = trimmed(path);
-  auto index = path.find(".");
+  auto index = path.rfind(".");
   if (index == string::npos) throw invalid_argument("File has no extension");
   return path.substr(index);
 }
-- 
2.43.0


From d188c0fbb9e822af8f2bdd741419b20d67010dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 16/56] fix: refuse to reorder atoms that do not match one to
 one

---
 src/libcatnip/qc_functions.cpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/libcatnip/qc_functions.cpp b/src/libcatnip/qc_functions.cpp
index 963c6fd..f4d00b6 100644
--- a/src/libcatnip/qc_functions.cpp
+++ b/src/libcatnip/qc_functions.cpp
@@ -413,11 +413,39 @@ Matrix *createNewMatrix(list<Matrix *> &p_atom_mat_coef, int rows, int cols,
   return mergeListOfMatrices(p_atom_mat_coef, rows, cols, ColRow);
 }
 
+// Atoms can only be put in order if each of them is matched exactly once and
+// the basis functions of the atoms account for all of the basis functions
+void checkMatch(const vector<int> &match, const vector<int> &basisFunc,
+                const int functions) {
+  vector<bool> matched(basisFunc.size(), false);
+  for (const int atom : match) {
+    if (atom < 1 || atom > static_cast<int>(matched.size()) ||
+        matched.at(atom - 1)) {
+      throw invalid_argument("Atoms of monomers and dimer do not match");
+    }
+    matched.at(atom - 1) = true;
+  }
+  int total = 0;
+  for (const int num : basisFunc) total += num;
+  if (match.size() != basisFunc.size() || total != functions) {
+    throw invalid_argument("Basis functions of the atoms do not add up");
+  }
+}
+
+void checkMatch(const vector<int> &matchA, const vector<int> &matchB,
+                const vector<int> &basisFunc, const int functions) {
+  vector<int> match(matchA);
+  match.insert(match.end(), matchB.begin(), matchB.end());
+  checkMatch(match, basisFunc, functions);
+}
+
 // unscramble the coefficients
 Matrix *unscramble_Coef(const std::vector<int> &matchDimerA,
                         const std::vector<int> &matchDimerB,
                         const std::vector<int> &basisFuncP, Matrix *dimerCoef) {
 
+  checkMatch(matchDimerA, matchDimerB, basisFuncP, dimerCoef->get_cols());
+
   // Let's reduce the complexity of the problem by instead of working
   // with the basis functions lets just work with the atoms. We can do
   // this by treating all the basis functions associated with a single
@@ -454,6 +482,8 @@ Matrix *unscramble_Coef(const std::vector<int> &matchDimerA,
 Matrix *unscramble_Coef(const std::vector<int> &matchDimerB,
                         const std::vector<int> &basisFuncB, Matrix *Coef) {
 
+  checkMatch(matchDimerB, basisFuncB, Coef->get_cols());
+
   // Let's reduce the complexity of the problem by instead of working
   // with the basis functions lets just work with the atoms. We can do
   // this by treating all the basis functions associated with a single
@@ -487,6 +517,8 @@ Matrix *unscramble_S(const std::vector<int> &matchDimerA,
                      const std::vector<int> &matchDimerB,
                      const std::vector<int> &basisFuncP, Matrix *S) {
 
+  checkMatch(matchDimerA, matchDimerB, basisFuncP, S->get_cols());
+
   Matrix *S_new;
   {
     list<Matrix *> p_atom_mat_S = splitCoefsUpByAtoms(basisFuncP, S, "Columns");
@@ -539,6 +571,8 @@ Matrix *unscramble_S(const std::vector<int> &matchDimerA,
 Matrix *unscramble_S(const std::vector<int> &matchDimerA,
                      const std::vector<int> &basisFuncP, Matrix *S) {
 
+  checkMatch(matchDimerA, basisFuncP, S->get_cols());
+
   Matrix *S_new;
   {
     list<Matrix *> p_atom_mat_S = splitCoefsUpByAtoms(basisFuncP, S, "Columns");
-- 
2.43.0


From ce7c6fe9cb5deeba113e85100328f92d34dcd739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 17/56] fix: look for the whole text in the last occurrence
 helpers

---
 src/libcatnip/string_support.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libcatnip/string_support.cpp b/src/libcatnip/string_support.cpp
index 1c082e2..34dbc96 100644
--- a/src/libcatnip/string_support.cpp
+++ b/src/libcatnip/string_support.cpp
@@ -132,13 +132,13 @@ string grabStrAfterFirstOccurance(string s, string occ) {
 }
 
 string grabStrAfterLastOccurance(string s, string occ) {
-  auto pos = s.find_last_of(occ);
+  auto pos = s.rfind(occ);
   if (pos == string::npos) return "";
-  return s.substr(pos + 1);
+  return s.substr(pos + occ.length());
 }
 
 string grabStrAfterLastOccuranceInclusive(string s, string occ) {
-  auto pos = s.find_last_of(occ);
+  auto pos = s.rfind(occ);
   if (pos == string::npos) return "";
   return s.substr(pos);
 }
@@ -150,15 +150,15 @@ string grabStrBeforeFirstOccurance(string s, string occ) {
 }
 
 string grabStrBeforeLastOccurance(string s, string occ) {
-  auto pos = s.find_last_of(occ);
+  auto pos = s.rfind(occ);
   if (pos == string::npos) return s;
   return s.substr(0, pos);
 }
 
 string grabStrBeforeLastOccuranceInclusive(string s, string occ) {
-  auto pos = s.find_last_of(occ);
+  auto pos = s.rfind(occ);
   if (pos == string::npos) return s;
-  return s.substr(0, pos + 1);
+  return s.substr(0, pos + occ.length());
 }
 
 bool foundSubStrInStr(string s, string sub_s) {
-- 
2.43.0


From 172c5f3c56441e6f5c86282b16dd20bdd4a680bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 18/56] fix: a value given to a switch belongs to the switch

---
 src/libcatnip/io/argumentparser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 0615d2a..a3e6981 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -466,6 +466,7 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
         } else {
           int_values_[flag] = 0;
         }
+        ++index;
       }
     } else {
       unrecognized = false;
-- 
2.43.0


From b1dfdac81bf8d592fb4dedea7dcf9e80045daabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 19/56] fix: a switch that is turned on reads as ON

---
 src/libcatnip/io/argumentparser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index a3e6981..f6f6e03 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -455,6 +455,7 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
         } else {
           unrecognized = false;
           int_values_[flag] = 1;
+          string_values_[flag] = "ON";
         }
       } else {
         string argument = arguments.at(index + 1);
@@ -471,6 +472,7 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
     } else {
       unrecognized = false;
       int_values_[flag] = 1;
+      string_values_[flag] = "ON";
     }
   }
   if (int_arg_.count(flag) != 0) {
-- 
2.43.0


From 66b1e846ac1a524804f9eda872b8daf4ba7d6091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 20/56] fix: recognise the documented abbreviation of the
 version flag

---
 src/libcatnip/io/argumentparser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index f6f6e03..c0d2159 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -653,7 +653,7 @@ void ArgumentParser::parse(const char* argv[], int argc) {
   string citation_flag = "--citation";
   string citation_flag_short = "-cite";
   string version_flag = "--version";
-  string version_flag_short = "-version";
+  string version_flag_short = "-v";
 
   size_t allowed_args_before_exit = 2;
   for (size_t index = 1; index < arguments.size(); ++index) {
@@ -666,7 +666,8 @@ void ArgumentParser::parse(const char* argv[], int argc) {
       }
       ++allowed_args_before_exit;
     } else if (version_flag.compare(arguments.at(index)) == 0 ||
-               version_flag_short.compare(arguments.at(index)) == 0) {
+               version_flag_short.compare(arguments.at(index)) == 0 ||
+               arguments.at(index).compare("-version") == 0) {
       exit(0);
     } else if (citation_flag.compare(arguments.at(index)) == 0 ||
                citation_flag_short.compare(arguments.at(index)) == 0) {
-- 
2.43.0


From 3f66f75068152e52b1fe5aabd2fc492a8135eaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 21/56] fix: add and look up double arguments under their own
 flag

---
 src/libcatnip/io/argumentparser.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index c0d2159..889f450 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -183,7 +183,7 @@ void ArgumentParser::addFlagArg(string flag, string argname) {
           flag);
     }
   } else if (argname.compare("ARGUMENT_DOUBLE") == 0) {
-    if (file_arg_.count(flag) == 0) {
+    if (double_arg_.count(flag) == 0) {
       ArgumentDouble* ArDouble = new ArgumentDouble;
       double_arg_[flag] = ArDouble;
     } else {
@@ -554,6 +554,13 @@ string ArgumentParser::getFlagArgOptValue(string flag, string argname,
       return argInt->getPropertyValues(property, option);
     }
   }
+  if (double_arg_.count(flag) != 0) {
+    auto argDouble = double_arg_[flag];
+    auto argName = argDouble->getArgumentName();
+    if (argName.compare(argname) == 0) {
+      return argDouble->getPropertyValues(property, option);
+    }
+  }
 
   throw invalid_argument("Unrecognized flag or argument " + flag + " " +
                          argname);
-- 
2.43.0


From 005567f55ed6203844a42b44234328726bedf824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 22/56] fix: refuse numbers that are followed by other
 characters

---
 src/libcatnip/io/argumentparser.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 889f450..3553cb1 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -483,9 +483,14 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
         throw runtime_error(err);
       }
       string argument = arguments.at(index + 1);
-      int_arg_[flag]->argValid(stoi(argument));
+      size_t used = 0;
+      int value = stoi(argument, &used);
+      if (used != argument.size()) {
+        throw invalid_argument(flag + " is not an int: " + argument);
+      }
+      int_arg_[flag]->argValid(value);
       unrecognized = false;
-      int_values_[flag] = stoi(argument);
+      int_values_[flag] = value;
       ++index;
     }
   }
@@ -497,9 +502,14 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
         throw runtime_error(err);
       }
       string argument = arguments.at(index + 1);
-      double_arg_[flag]->argValid(stod(argument));
+      size_t used = 0;
+      double value = stod(argument, &used);
+      if (used != argument.size()) {
+        throw invalid_argument(flag + " is not a double: " + argument);
+      }
+      double_arg_[flag]->argValid(value);
       unrecognized = false;
-      double_values_[flag] = stod(argument);
+      double_values_[flag] = value;
       ++index;
     }
   }
-- 
2.43.0


From b827330ec84e141bd2d4c8a7567c84731c8b48d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 23/56] fix: report the existence of the file that was checked
 last

---
 src/libcatnip/io/arguments/properties/propertyfileexist.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcatnip/io/arguments/properties/propertyfileexist.cpp b/src/libcatnip/io/arguments/properties/propertyfileexist.cpp
index df1bbbc..5fb59c4 100644
--- a/src/libcatnip/io/arguments/properties/propertyfileexist.cpp
+++ b/src/libcatnip/io/arguments/properties/propertyfileexist.cpp
@@ -14,6 +14,7 @@ PropertyFileExist::PropertyFileExist(void) {
 
 PropertyFileExist::PropertyFileExist(int fileMustExist) {
   setPropOption_("FILE_MUST_EXIST", fileMustExist);
+  setPropOption_("FILE_DOES_EXIST", 0);
 }
 
 vector<string> PropertyFileExist::getOpts_(void) const {
@@ -27,6 +28,8 @@ bool PropertyFileExist::fileExist(const string& fileNamePath) const {
 }
 
 bool PropertyFileExist::propValid(const string& fileNamePath) {
+  // Nothing is known about the file, others may have been checked before
+  setPropOption_("FILE_DOES_EXIST", 0);
   if (getPropOption("FILE_MUST_EXIST")) {
     if (!fileExist(fileNamePath)) {
       string err = "" + fileNamePath + " does not exist";
-- 
2.43.0


From ba7dd58af28c3a4039adb09dafa1461eac723100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 24/56] fix: find companion files in paths that contain spaces

---
 src/libcatnip/io/io.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/libcatnip/io/io.cpp b/src/libcatnip/io/io.cpp
index 28756bc..d83a3e0 100644
--- a/src/libcatnip/io/io.cpp
+++ b/src/libcatnip/io/io.cpp
@@ -358,14 +358,19 @@ unique_ptr<Parameters> prepareParameters(unique_ptr<ArgumentParser>& ArgParse) {
     prop = "PROPERTY_SISTER_FILE";
     opt = "SISTER_FILE_EXISTS";
     auto line = ArgParse->getFlagArgOptValue(flag, argu, prop, opt);
-    opt = "SISTER_FILE_PATH_NAME";
+    opt = "ALLOWED_SISTER_FILE_EXT";
     auto line2 = ArgParse->getFlagArgOptValue(flag, argu, prop, opt);
     auto sisters_exist = splitSt(line);
-    vector<string> sister_file_paths = splitSt(line2);
+    vector<string> sister_file_exts = splitSt(line2);
     int countFiles = 0;
     for (auto sister_exists : sisters_exist) {
       if (sister_exists.compare("true") == 0) {
-        flag_sister_arg[flag_sister] = sister_file_paths.at(countFiles);
+        // The path itself may contain spaces
+        fileName = ArgParse->getStr(flag);
+        flag_sister_arg[flag_sister] =
+            getPath(fileName) +
+            grabStrBeforeLastOccurance(lastStringInPath(fileName), ".") +
+            sister_file_exts.at(countFiles);
       }
       ++countFiles;
     }
-- 
2.43.0


From 5bd6cb44314c24d191311896a1bdf9b5976ca608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 25/56] fix: initialise the citation parameter

---
 src/libcatnip/parameters.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libcatnip/parameters.hpp b/src/libcatnip/parameters.hpp
index 1664717..9f7c7f3 100644
--- a/src/libcatnip/parameters.hpp
+++ b/src/libcatnip/parameters.hpp
@@ -47,6 +47,7 @@ class Parameters {
         orb_numP(0),
         orb_num1(0),
         orb_num2(0),
+        citation(false),
         counterPoise(false){};
 
   std::string getLog1() const { return log1_; }
-- 
2.43.0


From 1f0792199622bb1fb03affd89712d4d868bc2cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 26/56] fix: accept the documented .orb and .7 coefficient
 files

---
 src/libcatnip/io/file_readers/punreader.cpp |  3 ++-
 src/libcatnip/parameters.cpp                | 14 ++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index ad28d5f..839d86d 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -39,7 +39,8 @@ Matrix *PunReader::getCoefsMatrix(const string &orb_type) {
 
 void PunReader::validFileName_() {
   string ext = fileExt_();
-  if (ext.compare(".pun") != 0) {
+  if (ext.compare(".pun") != 0 && ext.compare(".orb") != 0 &&
+      ext.compare(".7") != 0) {
     throw invalid_argument("A pun file must have the .pun extension");
   }
 }
diff --git a/src/libcatnip/parameters.cpp b/src/libcatnip/parameters.cpp
index c43617b..bfa4033 100644
--- a/src/libcatnip/parameters.cpp
+++ b/src/libcatnip/parameters.cpp
@@ -7,6 +7,11 @@
 using namespace catnip;
 using namespace std;
 
+static bool punExtAllowed(const string& pun) {
+  string ext = grabStrAfterLastOccuranceInclusive(lastStringInPath(pun), ".");
+  return ext == ".pun" || ext == ".orb" || ext == ".7";
+}
+
 void Parameters::setLog1(const string& log1) {
   string ext = lastN(log1, 4);
   if (ext.compare(".log"))
@@ -26,20 +31,17 @@ void Parameters::setLogP(const string& logP) {
   logP_ = logP;
 }
 void Parameters::setPun1(const string& pun1) {
-  string ext = lastN(pun1, 4);
-  if (ext.compare(".pun"))
+  if (!punExtAllowed(pun1))
     throw invalid_argument("pun file has wrong extension");
   pun1_ = pun1;
 }
 void Parameters::setPun2(const string& pun2) {
-  string ext = lastN(pun2, 4);
-  if (ext.compare(".pun"))
+  if (!punExtAllowed(pun2))
     throw invalid_argument("pun file has wrong extension");
   pun2_ = pun2;
 }
 void Parameters::setPunP(const string& punP) {
-  string ext = lastN(punP, 4);
-  if (ext.compare(".pun"))
+  if (!punExtAllowed(punP))
     throw invalid_argument("pun file has wrong extension");
   punP_ = punP;
 }
-- 
2.43.0


From 673f02eb0d24bc9d65803fd859b6969fee076117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 27/56] fix: refuse monomer coefficients and energies that do
 not belong together

---
 src/libcatnip/qc_functions.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libcatnip/qc_functions.cpp b/src/libcatnip/qc_functions.cpp
index f4d00b6..0437162 100644
--- a/src/libcatnip/qc_functions.cpp
+++ b/src/libcatnip/qc_functions.cpp
@@ -625,6 +625,12 @@ TransferComplex::TransferComplex(Matrix *mat1Coef, Matrix *mat2Coef,
         "The overlap matrix must have the same number "
         "of basis functions as the dimer");
   }
+  if (mat1Coef->get_rows() != MOs1.first ||
+      mat2Coef->get_rows() != MOs2.first) {
+    throw invalid_argument(
+        "The monomers must have the same number of orbital coefficients and "
+        "orbital energies");
+  }
   if (cp) {
     if (mat1Coef->get_cols() != matPCoef->get_cols()) {
       throw invalid_argument(
-- 
2.43.0


From 6cb0c135dcd580e7948b2cdba529cdbc74a3bbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 28/56] fix: refuse monomers whose basis functions differ from
 those of the dimer

---
 src/libcatnip/qc_functions.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/libcatnip/qc_functions.cpp b/src/libcatnip/qc_functions.cpp
index 0437162..287617c 100644
--- a/src/libcatnip/qc_functions.cpp
+++ b/src/libcatnip/qc_functions.cpp
@@ -687,6 +687,13 @@ void TransferComplex::unscramble(const Matrix &coord_1_mat,
 
     auto unscrambled_P_Coef = unscramble_Coef(match_1_P, basisP, mat_P_Coef);
 
+    for (size_t atom = 0; atom < match_1_P.size(); ++atom) {
+      if (basisP.at(match_1_P.at(atom) - 1) !=
+          basis2.at(match_1_2.at(atom) - 1)) {
+        throw invalid_argument("Basis functions of monomer and dimer differ");
+      }
+    }
+
     this->mat_P_Coef = unscrambled_P_Coef;
 
     auto unscrambled_S = unscramble_S(match_1_P, basisP, mat_S);
@@ -705,6 +712,15 @@ void TransferComplex::unscramble(const Matrix &coord_1_mat,
     auto unscrambled_P_Coef =
         unscramble_Coef(match_1_P, match_2_P, basisP, mat_P_Coef);
 
+    int functions_1 = 0;
+    for (const int atom : match_1_P) functions_1 += basisP.at(atom - 1);
+    int functions_2 = 0;
+    for (const int atom : match_2_P) functions_2 += basisP.at(atom - 1);
+    if (functions_1 != mat_1_Coef->get_cols() ||
+        functions_2 != mat_2_Coef->get_cols()) {
+      throw invalid_argument("Basis functions of monomers and dimer differ");
+    }
+
     this->mat_P_Coef = unscrambled_P_Coef;
 
     auto unscrambled_S = unscramble_S(match_1_P, match_2_P, basisP, mat_S);
-- 
2.43.0


From a5f122028c6130e31070dc8d7c3f1f0f4dc27b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 29/56] fix: accept a single string choice

---
 src/libcatnip/io/arguments/properties/propertystringchoice.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
index a8f1116..416b2ed 100644
--- a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
+++ b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
@@ -38,6 +38,7 @@ void PropertyStringChoice::setPropOption(std::string option, std::string var) {
   } else if (option.compare("STRING_CHOICES") == 0) {
     set<string> set_var{var};
     setPropOption_(option, set_var);
+    return;
   }
   throw invalid_argument("Unrecognized option value combo " + option + " " +
                          var);
-- 
2.43.0


From 42047235a9be0b942e5329c4cd37a1b7f0de63d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 30/56] fix: refuse pointers to elements outside of a Matrix

---
 src/libcatnip/matrix.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 5d6f438..1004a41 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -760,6 +760,9 @@ double Matrix::get_elem(const int r, const int c) const {
 }
 
 double *Matrix::get_elem_ptr(const int r, const int c) const {
+  if (r < 1 || r > rows || c < 1 || c > cols || shel < 1) {
+    throw invalid_argument("element is outside of the matrix in get_elem_ptr");
+  }
   return &elem[index(r, c, 1)];
 }
 
-- 
2.43.0


From 2c898da0166bfe7cfaf9bb974e1076b2cc8a97d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 31/56] fix: refuse the first element of a Matrix that has none

---
 src/libcatnip/matrix.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 1004a41..079f9b4 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -633,7 +633,12 @@ void Matrix::set_shel(int s) {
   }
 }
 
-void Matrix::set_elem(double val) { elem[0] = val; }
+void Matrix::set_elem(double val) {
+  if (rows < 1 || cols < 1 || shel < 1) {
+    throw invalid_argument("set_elem of a matrix that has no elements");
+  }
+  elem[0] = val;
+}
 
 void Matrix::set_elem(double val, int r) {
   if (r > rows) {
@@ -723,7 +728,12 @@ int Matrix::get_shel() const { return shel; }
 
 int Matrix::total_elem() { return rows * cols * shel; }
 
-double Matrix::get_elem() const { return elem[0]; }
+double Matrix::get_elem() const {
+  if (rows < 1 || cols < 1 || shel < 1) {
+    throw invalid_argument("get_elem of a matrix that has no elements");
+  }
+  return elem[0];
+}
 
 double Matrix::get_elem(const int r) const {
   if (r < 1) {
-- 
2.43.0


From 68532a32cccd15a966746cad162679130057625c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 32/56] fix: print the usage of flags that have no abbreviation

---
 src/libcatnip/io/argumentparser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 3553cb1..c1850c1 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -89,6 +89,9 @@ ArgumentParser::ArgumentParser(set<vector<string>> flags) {
     if (!flag_name) {
       throw invalid_argument("You have failed to provide the full flag name");
     }
+    if (short_flag.size() > maxShortFlagSize) {
+      maxShortFlagSize = short_flag.size();
+    }
     flags_[full_flag] = make_pair(short_flag, desc);
   }
 }
-- 
2.43.0


From cdd41213c04d0c12d02c649752e64b5ce8800320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:53 +0000
Subject: [PATCH 33/56] fix: do not read a line of orbital energies without
 energies forever

---
 src/libcatnip/io/file_readers/logreader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 350750b..15a3d8e 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -303,9 +303,9 @@ void LogReader::ReadOrbEnergies(const string &orb_type) {
     bool virtFound;
 
     occFound =
-        foundSubStrInStr(line, " " + orb_type + "  occ. eigenvalues -- ");
+        foundSubStrInStr(line, " " + orb_type + "  occ. eigenvalues --");
     virtFound =
-        foundSubStrInStr(line, " " + orb_type + " virt. eigenvalues -- ");
+        foundSubStrInStr(line, " " + orb_type + " virt. eigenvalues --");
 
     if (occFound || virtFound) {
 
-- 
2.43.0


From 9bc2aa14c5db64698c85e6c4ddd087516a8da39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:45 +0000
Subject: [PATCH 34/56] fix: check rule options that are set through an
 argument

---
 src/libcatnip/io/arguments/properties/propertyfileext.cpp      | 2 +-
 src/libcatnip/io/arguments/properties/propertyfileext.hpp      | 3 ++-
 src/libcatnip/io/arguments/properties/propertyobject.hpp       | 2 +-
 src/libcatnip/io/arguments/properties/propertysisterfile.cpp   | 2 +-
 src/libcatnip/io/arguments/properties/propertysisterfile.hpp   | 3 ++-
 src/libcatnip/io/arguments/properties/propertystringchoice.cpp | 2 +-
 src/libcatnip/io/arguments/properties/propertystringchoice.hpp | 3 ++-
 7 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/libcatnip/io/arguments/properties/propertyfileext.cpp b/src/libcatnip/io/arguments/properties/propertyfileext.cpp
index 670a889..a7465a0 100644
--- a/src/libcatnip/io/arguments/properties/propertyfileext.cpp
+++ b/src/libcatnip/io/arguments/properties/propertyfileext.cpp
@@ -66,7 +66,7 @@ void PropertyFileExt::checkExt(const string& ext) const {
 }
 
 void PropertyFileExt::setPropOption(std::string option,
-                                    std::set<std::string> vars) {
+                                    const std::set<std::string>& vars) {
   PropertyObject::setPropOption(option, vars);
 }
 
diff --git a/src/libcatnip/io/arguments/properties/propertyfileext.hpp b/src/libcatnip/io/arguments/properties/propertyfileext.hpp
index 7cf4b41..b894d72 100644
--- a/src/libcatnip/io/arguments/properties/propertyfileext.hpp
+++ b/src/libcatnip/io/arguments/properties/propertyfileext.hpp
@@ -21,7 +21,8 @@ class PropertyFileExt
   PropertyFileExt(std::set<std::string> exts);
   bool propValid(const std::string &fileNamePath);
   void setPropOption(std::string option, std::string var);
-  void setPropOption(std::string option, std::set<std::string> var);
+  void setPropOption(std::string option,
+                     const std::set<std::string> &var) override;
 };
 
 }  // namespace catnip
diff --git a/src/libcatnip/io/arguments/properties/propertyobject.hpp b/src/libcatnip/io/arguments/properties/propertyobject.hpp
index 584c662..4759b54 100644
--- a/src/libcatnip/io/arguments/properties/propertyobject.hpp
+++ b/src/libcatnip/io/arguments/properties/propertyobject.hpp
@@ -61,7 +61,7 @@ class PropertyObject {
   std::vector<std::string> getPropertyOptions(void) const { return getOpts_(); }
 
   // Setup the valid options associated with the parameter
-  void setPropOption(std::string option, const T & val) {
+  virtual void setPropOption(std::string option, const T & val) {
     if (!propOptionValid_(option)) {
       throw std::invalid_argument("Property option is unrecognized " + option);
     }
diff --git a/src/libcatnip/io/arguments/properties/propertysisterfile.cpp b/src/libcatnip/io/arguments/properties/propertysisterfile.cpp
index c1df59f..2426d06 100644
--- a/src/libcatnip/io/arguments/properties/propertysisterfile.cpp
+++ b/src/libcatnip/io/arguments/properties/propertysisterfile.cpp
@@ -78,7 +78,7 @@ void PropertySisterFile::setPropOption(std::string option,
 }
 
 void PropertySisterFile::setPropOption(std::string option,
-                                       vector<string> vec_vars) {
+                                       const vector<string>& vec_vars) {
 
   if (option.compare("ALLOWED_SISTER_FILE_EXT") == 0) {
     vector<string> fileNames;
diff --git a/src/libcatnip/io/arguments/properties/propertysisterfile.hpp b/src/libcatnip/io/arguments/properties/propertysisterfile.hpp
index b7fdaec..538f523 100644
--- a/src/libcatnip/io/arguments/properties/propertysisterfile.hpp
+++ b/src/libcatnip/io/arguments/properties/propertysisterfile.hpp
@@ -19,7 +19,8 @@ class PropertySisterFile
  public:
   PropertySisterFile(void);
   void setPropOption(std::string option, const std::string &var);
-  void setPropOption(std::string option, std::vector<std::string> var);
+  void setPropOption(std::string option,
+                     const std::vector<std::string> &var) override;
   bool propValid(const std::string &fileNamePath);
 };
 
diff --git a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
index 416b2ed..7d29c50 100644
--- a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
+++ b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
@@ -45,7 +45,7 @@ void PropertyStringChoice::setPropOption(std::string option, std::string var) {
 }
 
 void PropertyStringChoice::setPropOption(std::string option,
-                                         set<string> set_vars) {
+                                         const set<string>& set_vars) {
 
   if (option.compare("STRING_CHOICES") == 0) {
     setPropOption_(option, set_vars);
diff --git a/src/libcatnip/io/arguments/properties/propertystringchoice.hpp b/src/libcatnip/io/arguments/properties/propertystringchoice.hpp
index 580d816..7320eed 100644
--- a/src/libcatnip/io/arguments/properties/propertystringchoice.hpp
+++ b/src/libcatnip/io/arguments/properties/propertystringchoice.hpp
@@ -16,7 +16,8 @@ class PropertyStringChoice
  public:
   PropertyStringChoice(void);
   void setPropOption(std::string option, std::string var);
-  void setPropOption(std::string option, std::set<std::string> var);
+  void setPropOption(std::string option,
+                     const std::set<std::string>& var) override;
   bool propValid(const std::string& string_choice);
 };
 
-- 
2.43.0


From 70e7469e85f76d82499daa9e613630e729f3e116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:47 +0000
Subject: [PATCH 35/56] fix: refuse an empty value for whether choices are
 enforced

---
 src/libcatnip/io/arguments/properties/propertystringchoice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
index 7d29c50..a845e00 100644
--- a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
+++ b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
@@ -51,7 +51,7 @@ void PropertyStringChoice::setPropOption(std::string option,
     setPropOption_(option, set_vars);
     return;
   } else if (option.compare("STRING_CHOICE_ENFORCED") == 0) {
-    if (set_vars.size() > 1) {
+    if (set_vars.size() != 1) {
       string err = "";
       for (auto var : set_vars) {
         err.append(var);
-- 
2.43.0


From 1f18d6ec741973f4b1d08138e87aeee7c837c254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:29 +0000
Subject: [PATCH 36/56] fix: separate orbital energies of a thousand and more
 that touch each other

---
 src/libcatnip/io/file_readers/logreader.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 15a3d8e..65a5e21 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -18,7 +18,14 @@ using namespace std;
 /** 
  * \brief Specifically designed to split up energies in the log file
  **/
-vector<string> splitStEnergies(const string & line){
+vector<string> splitStEnergies(string line){
+  // An energy of a thousand or more fills its ten characters, it touches the
+  // five decimals of the energy before it without even a sign in between
+  for (size_t point = line.find('.'); point != string::npos;
+       point = line.find('.', point + 1)) {
+    const size_t end = point + 6;
+    if (end < line.length() && isdigit(line.at(end))) line.insert(end, " ");
+  }
   vector<string> items = splitSt(line); 
   if(items.size()==9) return items;
 
-- 
2.43.0


From eb15650d68d6c1307d0487e604ef935838017c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 37/56] fix: refuse a file that fails to be read instead of
 using its beginning

---
 src/libcatnip/io/file_readers/filereader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcatnip/io/file_readers/filereader.cpp b/src/libcatnip/io/file_readers/filereader.cpp
index 73a1747..f3df3ce 100644
--- a/src/libcatnip/io/file_readers/filereader.cpp
+++ b/src/libcatnip/io/file_readers/filereader.cpp
@@ -21,6 +21,9 @@ void FileReader::read() {
     }
     pos_ = fid_.tellg();
   }
+  if (fid_.bad()) {
+    throw runtime_error("File " + fileName_ + " could not be read.");
+  }
   close();
 }
 
-- 
2.43.0


From 4121a00b7d0ecec2fed304bd665c9523c7b8c05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 38/56] fix: fail when the results cannot be written

---
 src/tools/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tools/main.cpp b/src/tools/main.cpp
index be9d395..59a8157 100644
--- a/src/tools/main.cpp
+++ b/src/tools/main.cpp
@@ -171,5 +171,10 @@ int main(int argc, const char *argv[]) {
     TC.calcJ(orbitaltypes, orbitalnums);
   }
 
+  cout.flush();
+  if (!cout) {
+    cerr << "ERROR the results could not be written" << endl;
+    return 1;
+  }
   return 0;
 }
-- 
2.43.0


From f97e8f8e56b53b649d5f86613737ed4ae4393c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:50 +0000
Subject: [PATCH 39/56] fix: do not lose words of a text without notice when
 memory runs out

---
 src/libcatnip/string_support.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libcatnip/string_support.cpp b/src/libcatnip/string_support.cpp
index 34dbc96..f9a6436 100644
--- a/src/libcatnip/string_support.cpp
+++ b/src/libcatnip/string_support.cpp
@@ -43,6 +43,8 @@ void rtrim_(string &s) {
 // Split a string up by spaces
 vector<string> splitSt(const string & input) {
   istringstream iss(input);
+  // Otherwise words are lost without notice when memory runs out
+  iss.exceptions(ios::badbit);
   list<string> tokens;
   copy(istream_iterator<string>(iss), istream_iterator<string>(),
        back_inserter(tokens));
-- 
2.43.0


From e4022d452ede4b50b58f454c63d827d7affbde5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:03 +0000
Subject: [PATCH 40/56] fix: tell very large values apart when rows and columns
 are matched

---
 src/libcatnip/matrix.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 079f9b4..29ceaf9 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -173,6 +173,8 @@ string double_tos(double f, int nd) {
   ostringstream ostr;
   double tens = stod("1" + string(nd, '0'));
   double rounded = round(f * tens) / tens;
+  // A value this large has no decimals that could be rounded
+  if (!isfinite(f * tens)) rounded = f;
   // Negative zero is the same value as zero
   if (rounded == 0) rounded = 0;
   ostr << fixed << setprecision(nd) << rounded;
-- 
2.43.0


From 826505b4a4ef0a894b9066ce47a4356148e04495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 41/56] fix: refuse matrices whose elements cannot be counted
 instead of writing beyond them

---
 src/libcatnip/matrix.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 29ceaf9..c201dfd 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -3,6 +3,7 @@
 #include <exception>
 #include <iomanip>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <stdexcept>
 #include <stdio.h>
@@ -244,6 +245,15 @@ Matrix &operator*(const Matrix &mat1, const Matrix &mat2) {
 
 using namespace catnip;
 
+// The elements are counted by an int, a matrix with more of them is refused
+static void checkElements(const long long r, const long long c,
+                          const long long s) {
+  const long long limit = numeric_limits<int>::max();
+  if (c > 0 && s > 0 && r > limit / c / s) {
+    throw length_error("Matrix has too many elements");
+  }
+}
+
 Matrix::Matrix() {
   rows = 1;
   cols = 1;
@@ -336,6 +346,7 @@ Matrix::Matrix(const int r, const int c) {
   rows = r;
   cols = c;
   shel = 1;
+  checkElements(rows, cols, shel);
   elem = new double[rows * cols];
   for (int i = 1; i <= rows; i++) {
     for (int j = 1; j <= cols; j++) {
@@ -358,6 +369,7 @@ Matrix::Matrix(const int r, const int c, const int s) {
   rows = r;
   cols = c;
   shel = s;
+  checkElements(rows, cols, shel);
   elem = new double[rows * cols * shel];
   for (int i = 1; i <= rows; i++) {
     for (int j = 1; j <= cols; j++) {
@@ -392,6 +404,7 @@ int Matrix::resize(int r, int c) {
     exit(1);
   }
 
+  checkElements(r, c, 1);
   double *temp;
   temp = new double[r * c];
 
@@ -497,6 +510,7 @@ void Matrix::set_rows(int r) {
   }
   if (r > rows) {
 
+    checkElements(r, cols, shel);
     double *temp = new double[r * cols * shel];
     for (int i = 1; i <= r; i++) {
       for (int j = 1; j <= cols; j++) {
@@ -560,6 +574,7 @@ void Matrix::set_cols(int c) {
 
   if (c > cols) {
 
+    checkElements(rows, c, shel);
     double *temp = new double[rows * c * shel];
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= c; j++) {
@@ -601,6 +616,7 @@ void Matrix::set_shel(int s) {
   }
   if (s > shel) {
 
+    checkElements(rows, cols, s);
     double *temp = new double[rows * cols * s];
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= cols; j++) {
-- 
2.43.0


From fd12323c30a629eb6cc493a9b363ea896f7b826b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:17 +0000
Subject: [PATCH 42/56] fix: do not overflow when the basis functions of the
 atoms are added up

---
 src/libcatnip/qc_functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/qc_functions.cpp b/src/libcatnip/qc_functions.cpp
index 287617c..9618ead 100644
--- a/src/libcatnip/qc_functions.cpp
+++ b/src/libcatnip/qc_functions.cpp
@@ -425,7 +425,7 @@ void checkMatch(const vector<int> &match, const vector<int> &basisFunc,
     }
     matched.at(atom - 1) = true;
   }
-  int total = 0;
+  long long total = 0;
   for (const int num : basisFunc) total += num;
   if (match.size() != basisFunc.size() || total != functions) {
     throw invalid_argument("Basis functions of the atoms do not add up");
-- 
2.43.0


From ab79d8352d46289af02cf31eef97ffdfb537d120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:34 +0000
Subject: [PATCH 43/56] fix: refuse numbers that are only readable in part

---
 src/libcatnip/io/file_readers/logreader.cpp | 16 ++++++++--------
 src/libcatnip/io/file_readers/punreader.cpp |  4 ++--
 src/libcatnip/string_support.cpp            | 14 ++++++++++++++
 src/libcatnip/string_support.hpp            |  4 ++++
 4 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 65a5e21..854db0a 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -148,7 +148,7 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
     while (!iss.eof()) {
       string Tot_Alpha_Beta_Spin;
       iss >> Tot_Alpha_Beta_Spin;
-      orbVals.push_back(stod(Tot_Alpha_Beta_Spin));
+      orbVals.push_back(toDouble(Tot_Alpha_Beta_Spin));
     }
     LR_ptr->orb_[make_pair(atom_num, elemType)][orbType] = orbVals;
 
@@ -167,7 +167,7 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
       while (!iss2.eof()) {
         string Tot_Alpha_Beta_Spin;
         iss2 >> Tot_Alpha_Beta_Spin;
-        orbVals.push_back(stod(Tot_Alpha_Beta_Spin));
+        orbVals.push_back(toDouble(Tot_Alpha_Beta_Spin));
       }
 
       LR_ptr->orb_[make_pair(atom_num, elemType)][orbType] = orbVals;
@@ -229,7 +229,7 @@ void LogReader::OverlapSectionReader(void *ptr) {
       while (iss >> s_coef) {
         string val = grabStrBeforeFirstOccurance(s_coef, "D");
         string exp = grabStrAfterFirstOccurance(s_coef, "D");
-        row.push_back(stod(val) * pow(10.0, stod(exp)));
+        row.push_back(toDouble(val) * pow(10.0, toDouble(exp)));
       }
       if (static_cast<int>(row.size()) != min(countCoef, 5)) {
         throw runtime_error("Overlap matrix is not complete");
@@ -273,7 +273,7 @@ void LogReader::OverlapSectionReader(void *ptr) {
       while (iss >> s_coef) {
         string val = grabStrBeforeFirstOccurance(s_coef, "D");
         string expon = grabStrAfterFirstOccurance(s_coef, "D");
-        double value = stod(val) * pow(10.0, stod(expon));
+        double value = toDouble(val) * pow(10.0, toDouble(expon));
         mat_S->set_elem(value, sectionCoef + 1,
                         currentSectionStart + localCoefCount);
         if ((sectionCoef + 1) != (currentSectionStart + localCoefCount)) {
@@ -324,7 +324,7 @@ void LogReader::ReadOrbEnergies(const string &orb_type) {
         const bool known = str.find('*') == string::npos;
         const size_t num = known ? 1 : max<size_t>(1, str.length() / 10);
         for (size_t orb = 0; orb < num; ++orb) {
-          OREnergies[orb_type].push_back(known ? atof(str.c_str()) : NAN);
+          OREnergies[orb_type].push_back(known ? toDouble(str) : NAN);
           if (occFound) homoLevel[orb_type]++;
         }
       }
@@ -374,9 +374,9 @@ void LogReader::CoordSectionReader(void *ptr) {
   // While the line does not match the end of the table read in the coordinates
   while (!foundSubStrInStr(line, end_pattern)) {
     auto vec_str = splitSt(line);
-    X.push_back(stod(vec_str.at(3)));
-    Y.push_back(stod(vec_str.at(4)));
-    Z.push_back(stod(vec_str.at(5)));
+    X.push_back(toDouble(vec_str.at(3)));
+    Y.push_back(toDouble(vec_str.at(4)));
+    Z.push_back(toDouble(vec_str.at(5)));
     readSectionLine(LR_ptr->fid_, line);
   }
   LR_ptr->xyz.push_back(X);
diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index 839d86d..cc986c1 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -52,10 +52,10 @@ vector<double> PunReader::readGausCoefLine(const string &line) {
   while ((line.length() - indent) >= 15) {
     string str = line.substr(0 + indent, 11);
     str = trimmed(str);
-    double temp_d = stod(str);
+    double temp_d = toDouble(str);
     str = line.substr(12 + indent, 3);
     str = trimmed(str);
-    double temp_d2 = stod(str);
+    double temp_d2 = toDouble(str);
     values.push_back(temp_d * pow(10, temp_d2));
     indent += 15;
   }
diff --git a/src/libcatnip/string_support.cpp b/src/libcatnip/string_support.cpp
index f9a6436..8af6ccc 100644
--- a/src/libcatnip/string_support.cpp
+++ b/src/libcatnip/string_support.cpp
@@ -6,6 +6,7 @@
 #include <iterator>
 #include <list>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -163,6 +164,19 @@ string grabStrBeforeLastOccuranceInclusive(string s, string occ) {
   return s.substr(0, pos + occ.length());
 }
 
+double toDouble(const string &s) {
+  const string number = trimmed(s);
+  if (number.find_first_not_of("+-.0123456789eE") != string::npos) {
+    throw invalid_argument("Not a number: " + number);
+  }
+  size_t used = 0;
+  const double value = stod(number, &used);
+  if (used != number.size()) {
+    throw invalid_argument("Not a number: " + number);
+  }
+  return value;
+}
+
 bool foundSubStrInStr(string s, string sub_s) {
   return s.find(sub_s) != string::npos;
 }
diff --git a/src/libcatnip/string_support.hpp b/src/libcatnip/string_support.hpp
index 6e7ba24..b2a210b 100644
--- a/src/libcatnip/string_support.hpp
+++ b/src/libcatnip/string_support.hpp
@@ -57,6 +57,10 @@ std::string grabStrBeforeLastOccurance(std::string s, std::string occ);
 
 std::string grabStrBeforeLastOccuranceInclusive(std::string s, std::string occ);
 
+// Read a number that takes up the whole of a text. Text that is a number only
+// in part is refused
+double toDouble(const std::string &s);
+
 // Determine if the sub string exists within the string
 bool foundSubStrInStr(std::string s, std::string sub_s);
 
-- 
2.43.0


From 1a20ad13d08d8ef6f2ca35e6d5367bdedaa94bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:47 +0000
Subject: [PATCH 44/56] fix: read exponents of three digits, which are written
 without a letter

---
 src/libcatnip/io/file_readers/logreader.cpp |  8 ++------
 src/libcatnip/io/file_readers/punreader.cpp |  8 +-------
 src/libcatnip/string_support.cpp            | 22 +++++++++++++++++++++
 src/libcatnip/string_support.hpp            |  4 ++++
 4 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 854db0a..a7cd3ac 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -227,9 +227,7 @@ void LogReader::OverlapSectionReader(void *ptr) {
       // Safe to read in coordinates of first couple of columns
       string s_coef;
       while (iss >> s_coef) {
-        string val = grabStrBeforeFirstOccurance(s_coef, "D");
-        string exp = grabStrAfterFirstOccurance(s_coef, "D");
-        row.push_back(toDouble(val) * pow(10.0, toDouble(exp)));
+        row.push_back(fortranToDouble(s_coef));
       }
       if (static_cast<int>(row.size()) != min(countCoef, 5)) {
         throw runtime_error("Overlap matrix is not complete");
@@ -271,9 +269,7 @@ void LogReader::OverlapSectionReader(void *ptr) {
       int localCoefCount = 1;
       string s_coef;
       while (iss >> s_coef) {
-        string val = grabStrBeforeFirstOccurance(s_coef, "D");
-        string expon = grabStrAfterFirstOccurance(s_coef, "D");
-        double value = toDouble(val) * pow(10.0, toDouble(expon));
+        double value = fortranToDouble(s_coef);
         mat_S->set_elem(value, sectionCoef + 1,
                         currentSectionStart + localCoefCount);
         if ((sectionCoef + 1) != (currentSectionStart + localCoefCount)) {
diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index cc986c1..8380a5c 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -50,13 +50,7 @@ vector<double> PunReader::readGausCoefLine(const string &line) {
 
   int indent = 0;
   while ((line.length() - indent) >= 15) {
-    string str = line.substr(0 + indent, 11);
-    str = trimmed(str);
-    double temp_d = toDouble(str);
-    str = line.substr(12 + indent, 3);
-    str = trimmed(str);
-    double temp_d2 = toDouble(str);
-    values.push_back(temp_d * pow(10, temp_d2));
+    values.push_back(fortranToDouble(line.substr(indent, 15)));
     indent += 15;
   }
   return values;
diff --git a/src/libcatnip/string_support.cpp b/src/libcatnip/string_support.cpp
index 8af6ccc..d14ed17 100644
--- a/src/libcatnip/string_support.cpp
+++ b/src/libcatnip/string_support.cpp
@@ -1,6 +1,7 @@
 
 #include "string_support.hpp"
 #include <algorithm>
+#include <cmath>
 #include <iostream>
 #include <istream>
 #include <iterator>
@@ -177,6 +178,27 @@ double toDouble(const string &s) {
   return value;
 }
 
+double fortranToDouble(const string &s) {
+  const string number = trimmed(s);
+  size_t exponent = number.find_first_of("DdEe");
+  size_t end = exponent;
+  if (exponent != string::npos) {
+    ++exponent;
+  } else {
+    exponent = number.find_first_of("+-", 1);
+    end = exponent;
+  }
+  if (end == string::npos) {
+    throw invalid_argument("Not a number with an exponent: " + number);
+  }
+  const double value = toDouble(number.substr(0, end)) *
+                       pow(10.0, toDouble(number.substr(exponent)));
+  if (!isfinite(value)) {
+    throw invalid_argument("Number is too large: " + number);
+  }
+  return value;
+}
+
 bool foundSubStrInStr(string s, string sub_s) {
   return s.find(sub_s) != string::npos;
 }
diff --git a/src/libcatnip/string_support.hpp b/src/libcatnip/string_support.hpp
index b2a210b..b4c1a20 100644
--- a/src/libcatnip/string_support.hpp
+++ b/src/libcatnip/string_support.hpp
@@ -61,6 +61,10 @@ std::string grabStrBeforeLastOccuranceInclusive(std::string s, std::string occ);
 // in part is refused
 double toDouble(const std::string &s);
 
+// Read a number with an exponent as Fortran writes it, e.g. 0.1234D+00, where
+// exponents of three digits leave no room for the letter, e.g. 0.1234-100
+double fortranToDouble(const std::string &s);
+
 // Determine if the sub string exists within the string
 bool foundSubStrInStr(std::string s, std::string sub_s);
 
-- 
2.43.0


From fce7a5b16fac29c3148329aa9dfc19609ba905ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:59 +0000
Subject: [PATCH 45/56] fix: refuse to calculate with orbital energies of the
 dimer that are not known

---
 src/libcatnip/qc_functions.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libcatnip/qc_functions.cpp b/src/libcatnip/qc_functions.cpp
index 9618ead..a267ee5 100644
--- a/src/libcatnip/qc_functions.cpp
+++ b/src/libcatnip/qc_functions.cpp
@@ -654,6 +654,14 @@ TransferComplex::TransferComplex(Matrix *mat1Coef, Matrix *mat2Coef,
     }
   }
 
+  for (int i = 1; i <= matPOE->get_rows(); ++i) {
+    for (int j = 1; j <= matPOE->get_cols(); ++j) {
+      if (std::isnan(matPOE->get_elem(i, j))) {
+        throw invalid_argument("An orbital energy of the dimer is not known");
+      }
+    }
+  }
+
   mat_1_Coef = mat1Coef;
   mat_2_Coef = mat2Coef;
   mat_P_Coef = matPCoef;
-- 
2.43.0


From a1682ca4457fe475253b3aa905eb89e8a3d44414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:40 +0000
Subject: [PATCH 46/56] fix: refuse monomers whose atoms hold other numbers of
 functions

Only their total was compared when no counterpoise was used, and those of
the first monomer never: files that assign the functions to the atoms
differently were aligned as if they agreed.
---
 src/libcatnip/qc_functions.cpp | 21 ++++++++++++++++++++-
 src/libcatnip/qc_functions.hpp |  3 ++-
 src/tools/main.cpp             |  3 ++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/libcatnip/qc_functions.cpp b/src/libcatnip/qc_functions.cpp
index a267ee5..9b6c368 100644
--- a/src/libcatnip/qc_functions.cpp
+++ b/src/libcatnip/qc_functions.cpp
@@ -671,11 +671,26 @@ TransferComplex::TransferComplex(Matrix *mat1Coef, Matrix *mat2Coef,
   mat_P_OE = matPOE;
 }
 
+// The atoms of a monomer must have as many basis functions as those of the
+// dimer they match, unless nothing is known about the ones of the monomer
+static void checkAtoms(const vector<int> &match, const vector<int> &basisP,
+                       const vector<int> &basis) {
+  if (basis.empty()) return;
+  bool same = match.size() == basis.size();
+  for (size_t atom = 0; same && atom < match.size(); ++atom) {
+    same = basisP.at(match.at(atom) - 1) == basis.at(atom);
+  }
+  if (!same) {
+    throw invalid_argument("Basis functions of monomer and dimer differ");
+  }
+}
+
 void TransferComplex::unscramble(const Matrix &coord_1_mat,
                                  const Matrix &coord_2_mat,
                                  const Matrix &coord_P_mat,
                                  const std::vector<int> &basisP,
-                                 const std::vector<int> &basis2) {
+                                 const std::vector<int> &basis2,
+                                 const std::vector<int> &basis1) {
 
   unscrambled = true;
 
@@ -702,6 +717,8 @@ void TransferComplex::unscramble(const Matrix &coord_1_mat,
       }
     }
 
+    checkAtoms(match_1_P, basisP, basis1);
+
     this->mat_P_Coef = unscrambled_P_Coef;
 
     auto unscrambled_S = unscramble_S(match_1_P, basisP, mat_S);
@@ -728,6 +745,8 @@ void TransferComplex::unscramble(const Matrix &coord_1_mat,
         functions_2 != mat_2_Coef->get_cols()) {
       throw invalid_argument("Basis functions of monomers and dimer differ");
     }
+    checkAtoms(match_1_P, basisP, basis1);
+    checkAtoms(match_2_P, basisP, basis2);
 
     this->mat_P_Coef = unscrambled_P_Coef;
 
diff --git a/src/libcatnip/qc_functions.hpp b/src/libcatnip/qc_functions.hpp
index e8bc1a6..daf8b68 100644
--- a/src/libcatnip/qc_functions.hpp
+++ b/src/libcatnip/qc_functions.hpp
@@ -33,7 +33,8 @@ class TransferComplex {
 
   void unscramble(const Matrix& coord_1_mat, const Matrix& coord_2_mat,
                   const Matrix& coord_P_mat, const std::vector<int>& basisP,
-                  const std::vector<int>& basis2);
+                  const std::vector<int>& basis2,
+                  const std::vector<int>& basis1 = std::vector<int>());
 
   // Orbital type and a map of the corresponding number
   // E.g.
diff --git a/src/tools/main.cpp b/src/tools/main.cpp
index 59a8157..dcd0eb5 100644
--- a/src/tools/main.cpp
+++ b/src/tools/main.cpp
@@ -132,7 +132,8 @@ int main(int argc, const char *argv[]) {
     // we cannot automatically determine what the transfer integral is
     if (basis_1.size() != 0 && basis_2.size() != 0 && basis_P.size() != 0) {
       LOG("Unscrambling matrices", 1);
-      TC.unscramble(coord_1_mat, coord_2_mat, coord_P_mat, basis_P, basis_2);
+      TC.unscramble(coord_1_mat, coord_2_mat, coord_P_mat, basis_P, basis_2,
+                    basis_1);
     }
 
     cout << endl;
-- 
2.43.0


From 8509b776451ed0b42f48540d4e80f0d166e5e468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:08 +0000
Subject: [PATCH 47/56] fix: forget the populations of earlier sections of a
 log file

---
 src/libcatnip/io/file_readers/logreader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index a7cd3ac..2210d14 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -128,6 +128,9 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
   LOG("Reading atomic basis functions from .log file", 1);
   LogReader *LR_ptr = static_cast<LogReader *>(ptr);
 
+  // May be multiple population sections we only want the latest one
+  LR_ptr->orb_.clear();
+
   int atom_num = 1;
   string end_pattern = "         Condensed to atoms";
   string line;
-- 
2.43.0


From 1d9e78d6a135e3b385a6d2c06535b8fd27332b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:52 +0000
Subject: [PATCH 48/56] fix: read the orbital energies of a spin without
 electrons

---
 src/libcatnip/io/file_readers/logreader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 2210d14..9390103 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -89,7 +89,9 @@ void LogReader::registerSections_() {
       set<string>{"     Gross orbital populations:"};
   sectionHeaders_["Overlap"] = set<string>{" *** Overlap ***"};
   sectionHeaders_["OEAlpha"] = set<string>{" Alpha  occ. eigenvalues --"};
-  sectionHeaders_["OEBeta"] = set<string>{"  Beta  occ. eigenvalues --"};
+  // There may be no beta electrons, as in a hydrogen atom
+  sectionHeaders_["OEBeta"] = set<string>{"  Beta  occ. eigenvalues --",
+                                          "  Beta virt. eigenvalues --"};
   sectionHeaders_["Coord"] = set<string>{"Center     Atomic      Atomic",
                                          "Center     Atomic     Atomic"};
 
-- 
2.43.0


From 443fb2c15f5558c00207b77a5a8a0d2e6a6db556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:57 +0000
Subject: [PATCH 49/56] fix: read populations from log files with carriage
 returns or blanks at the ends of lines

---
 src/libcatnip/io/file_readers/logreader.cpp | 28 ++++++++++++---------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 9390103..b2abc71 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -79,6 +79,20 @@ void readSectionLine(ifstream &fid, string &line) {
   }
 }
 
+// Read what is left of a line of the population section, which may end in
+// blanks or, in files from other systems, in a carriage return
+vector<double> readPopulations(istringstream &iss) {
+  vector<double> values;
+  string Tot_Alpha_Beta_Spin;
+  while (iss >> Tot_Alpha_Beta_Spin) {
+    values.push_back(toDouble(Tot_Alpha_Beta_Spin));
+  }
+  if (values.empty()) {
+    throw runtime_error("Populations of a basis function are missing");
+  }
+  return values;
+}
+
 LogReader::LogReader(const string &fileName) : FileReader(fileName) {
   validFileName_();
   registerSections_();
@@ -149,12 +163,7 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
 
     string orbType;
     iss >> orbType;
-    vector<double> orbVals;
-    while (!iss.eof()) {
-      string Tot_Alpha_Beta_Spin;
-      iss >> Tot_Alpha_Beta_Spin;
-      orbVals.push_back(toDouble(Tot_Alpha_Beta_Spin));
-    }
+    vector<double> orbVals = readPopulations(iss);
     LR_ptr->orb_[make_pair(atom_num, elemType)][orbType] = orbVals;
 
     readSectionLine(LR_ptr->fid_, line);
@@ -168,12 +177,7 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
       iss2 >> AOnum;
       iss2 >> orbType;
 
-      orbVals.clear();
-      while (!iss2.eof()) {
-        string Tot_Alpha_Beta_Spin;
-        iss2 >> Tot_Alpha_Beta_Spin;
-        orbVals.push_back(toDouble(Tot_Alpha_Beta_Spin));
-      }
+      orbVals = readPopulations(iss2);
 
       LR_ptr->orb_[make_pair(atom_num, elemType)][orbType] = orbVals;
 
-- 
2.43.0


From 1e5fa54c6bed740babd62a19627101258b8fa078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:16 +0000
Subject: [PATCH 50/56] fix: open a file again after a reading was refused, and
 refuse one that cannot be opened

---
 src/libcatnip/io/file_readers/filereader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libcatnip/io/file_readers/filereader.cpp b/src/libcatnip/io/file_readers/filereader.cpp
index f3df3ce..e82948b 100644
--- a/src/libcatnip/io/file_readers/filereader.cpp
+++ b/src/libcatnip/io/file_readers/filereader.cpp
@@ -33,7 +33,12 @@ void FileReader::open() {
   if (!fileExist_()) {
     throw invalid_argument("File " + fileName_ + " does not exist.");
   }
+  // An earlier reading may have ended in the middle of the file
+  if (fid_.is_open()) fid_.close();
   fid_.open(fileName_);
+  if (!fid_.is_open()) {
+    throw runtime_error("File " + fileName_ + " could not be opened.");
+  }
   fileOpen_ = true;
 }
 
-- 
2.43.0


From 8788fd4e28732d9d21999be439d39bf2b8532ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:16 +0000
Subject: [PATCH 51/56] fix: report only what the last reading of a file has
 found

---
 src/libcatnip/io/file_readers/filereader.cpp | 1 +
 src/libcatnip/io/file_readers/filereader.hpp | 2 ++
 src/libcatnip/io/file_readers/logreader.cpp  | 8 ++++++++
 src/libcatnip/io/file_readers/logreader.hpp  | 1 +
 src/libcatnip/io/file_readers/punreader.cpp  | 2 ++
 src/libcatnip/io/file_readers/punreader.hpp  | 1 +
 6 files changed, 15 insertions(+)

diff --git a/src/libcatnip/io/file_readers/filereader.cpp b/src/libcatnip/io/file_readers/filereader.cpp
index e82948b..81df747 100644
--- a/src/libcatnip/io/file_readers/filereader.cpp
+++ b/src/libcatnip/io/file_readers/filereader.cpp
@@ -13,6 +13,7 @@ string FileReader::getExt() const { return fileExt_(); }
 
 void FileReader::read() {
   open();
+  clear_();
   string line;
   while (getline(fid_, line)) {
     string tag = startSection_(line);
diff --git a/src/libcatnip/io/file_readers/filereader.hpp b/src/libcatnip/io/file_readers/filereader.hpp
index 91d374d..922778c 100644
--- a/src/libcatnip/io/file_readers/filereader.hpp
+++ b/src/libcatnip/io/file_readers/filereader.hpp
@@ -28,6 +28,8 @@ class FileReader {
   void close();
   virtual void registerSections_();
   virtual void validFileName_(){};
+  // Forget what an earlier reading of the file has found
+  virtual void clear_(){};
   void checkSections_();
   void readSection_(std::string tag);
   std::string startSection_(const std::string &tag);
diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index b2abc71..a1e24c5 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -125,6 +125,14 @@ void LogReader::validFileName_() {
   }
 }
 
+void LogReader::clear_() {
+  homoLevel.clear();
+  orb_.clear();
+  S_ = nullptr;
+  OREnergies.clear();
+  xyz.clear();
+}
+
 Matrix *LogReader::getOverlapMatrix() const {
   if (S_ == nullptr) {
     throw invalid_argument("Overlap matrix was not found in " + fileName_);
diff --git a/src/libcatnip/io/file_readers/logreader.hpp b/src/libcatnip/io/file_readers/logreader.hpp
index 0499d67..61dda6a 100644
--- a/src/libcatnip/io/file_readers/logreader.hpp
+++ b/src/libcatnip/io/file_readers/logreader.hpp
@@ -31,6 +31,7 @@ class LogReader : public FileReader {
  private:
   virtual void registerSections_();
   virtual void validFileName_();
+  virtual void clear_();
 
   static void AOFunctionSectionReader(void *);
   static void OverlapSectionReader(void *);
diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index 8380a5c..c17d6d2 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -45,6 +45,8 @@ void PunReader::validFileName_() {
   }
 }
 
+void PunReader::clear_() { coefs.clear(); }
+
 vector<double> PunReader::readGausCoefLine(const string &line) {
   vector<double> values;
 
diff --git a/src/libcatnip/io/file_readers/punreader.hpp b/src/libcatnip/io/file_readers/punreader.hpp
index 73f8846..8db2fec 100644
--- a/src/libcatnip/io/file_readers/punreader.hpp
+++ b/src/libcatnip/io/file_readers/punreader.hpp
@@ -18,6 +18,7 @@ class PunReader : public FileReader {
  private:
   virtual void registerSections_();
   virtual void validFileName_();
+  virtual void clear_();
 
   static void OrbitalCoefAlphaSectionReader(void *);
   static void OrbitalCoefBetaSectionReader(void *);
-- 
2.43.0


From d59e7d92dfa317fae7607c7f35a63e8d942cd0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:52 +0000
Subject: [PATCH 52/56] fix: find the last separator of a path in one search

---
 src/libcatnip/string_support.cpp | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/src/libcatnip/string_support.cpp b/src/libcatnip/string_support.cpp
index d14ed17..80d93bd 100644
--- a/src/libcatnip/string_support.cpp
+++ b/src/libcatnip/string_support.cpp
@@ -59,30 +59,11 @@ vector<string> splitSt(const string & input) {
 }
 
 string lastStringInPath(const string& input) {
-  size_t found;
-  string line;
-  line = input;
-  while (
-      (int)(found = line.find_first_of(PATH_SEPERATOR_)) !=
-      -1) {  // http://www.cplusplus.com/reference/string/string/find_first_of/
-    line = line.substr(found + 1, line.size());
-  }
-  return line;
+  return input.substr(input.find_last_of(PATH_SEPERATOR_) + 1);
 }
 
 string getPath(string input) {
-  size_t found = 0;
-  size_t found2 = found;
-  string val = "";
-  string line = input;
-  while ((int)found != -1) {
-    found = line.find_first_of(
-        PATH_SEPERATOR_);  // http://www.cplusplus.com/reference/string/string/find_first_of/
-    line = line.substr(found + 1, line.size());
-    found2 += found + 1;
-    val = input.substr(0, found2);
-  }
-  return val;
+  return input.substr(0, input.find_last_of(PATH_SEPERATOR_) + 1);
 }
 
 string lastN(string input, int n) { return input.substr(input.size() - n); }
-- 
2.43.0


From 72f45a563f61cc1b2bc6ef51493ab07e460f0fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:27 +0000
Subject: [PATCH 53/56] fix: hand the arguments on without copying them all

---
 src/libcatnip/io/argumentparser.cpp | 5 +++--
 src/libcatnip/io/argumentparser.hpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index c1850c1..77b9409 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -404,7 +404,7 @@ void ArgumentParser::setFlagArgOpt(string flag, string argname, string property,
 }
 
 bool ArgumentParser::nextParameterIsAFlag_(size_t index,
-                                           vector<string> arguments) {
+                                           const vector<string>& arguments) {
 
   if ((index + 1) < arguments.size()) {
     for (auto flag : flags_) {
@@ -418,7 +418,8 @@ bool ArgumentParser::nextParameterIsAFlag_(size_t index,
   return false;
 }
 
-void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
+void ArgumentParser::parseArg_(size_t& index,
+                               const vector<string>& arguments) {
   string flag = arguments.at(index);
   // If the abbreviated flag is passed we need to resolve the full flag name
   if (flags_.count(flag) == 0) {
diff --git a/src/libcatnip/io/argumentparser.hpp b/src/libcatnip/io/argumentparser.hpp
index 34338b4..7a8b022 100644
--- a/src/libcatnip/io/argumentparser.hpp
+++ b/src/libcatnip/io/argumentparser.hpp
@@ -38,10 +38,11 @@ class ArgumentParser {
   std::map<std::string, std::string> string_values_;
   std::map<std::string, size_t> size_t_values_;
 
-  void parseArg_(size_t& index, std::vector<std::string> arguments);
+  void parseArg_(size_t& index, const std::vector<std::string>& arguments);
 
   // Determine if the next value in arguments vector is a recognized flag
-  bool nextParameterIsAFlag_(size_t index, std::vector<std::string> arguments);
+  bool nextParameterIsAFlag_(size_t index,
+                             const std::vector<std::string>& arguments);
 
   size_t maxShortFlagSize;
   size_t maxFullFlagSize;
-- 
2.43.0


From ac80b1f13a289c71a7ad7e4207f5c8c46d26b657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:47 +0000
Subject: [PATCH 54/56] fix: tell the asterisks of an energy from the energy
 before them

---
 src/libcatnip/io/file_readers/logreader.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index a1e24c5..4a33455 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -20,12 +20,17 @@ using namespace std;
  **/
 vector<string> splitStEnergies(string line){
   // An energy of a thousand or more fills its ten characters, it touches the
-  // five decimals of the energy before it without even a sign in between
-  for (size_t point = line.find('.'); point != string::npos;
-       point = line.find('.', point + 1)) {
-    const size_t end = point + 6;
-    if (end < line.length() && isdigit(line.at(end))) line.insert(end, " ");
+  // five decimals of the energy before it without even a sign in between, and
+  // so do the asterisks of one that does not fit
+  string spaced;
+  for (size_t at = 0; at < line.length(); ++at) {
+    const char c = line.at(at);
+    if (at >= 6 && line.at(at - 6) == '.' && (isdigit(c) || c == '*')) {
+      spaced += ' ';
+    }
+    spaced += c;
   }
+  line = spaced;
   vector<string> items = splitSt(line); 
   if(items.size()==9) return items;
 
-- 
2.43.0


From 6d028d9a63efd8684cb1243116ff1e6245b4f294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:47 +0000
Subject: [PATCH 55/56] fix: split energies that touch in one pass over the
 line

---
 src/libcatnip/io/file_readers/logreader.cpp | 29 +++++----------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 4a33455..5798f64 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -48,28 +48,13 @@ vector<string> splitStEnergies(string line){
     if(inc<4){
       items2.push_back(s);
     }else{
-      size_t pos = s.find(delimiter);
-      if(pos==std::string::npos){
-        items2.push_back(s);
-      }else{
-        while (pos != std::string::npos) {
-          string token = s.substr(0,pos);
-          if(pos==0){
-            string temp_s = s;
-            temp_s.erase(0,delimiter.length());
-            pos = temp_s.find(delimiter);
-            if( pos == std::string::npos){
-              token = s;
-              pos = s.length();
-            }else{
-              token = s.substr(0,pos+delimiter.length()); 
-            }
-            s.erase(0, delimiter.length());
-          }
-          s.erase(0, pos);
-          items2.push_back(token);
-          pos = s.find(delimiter);
-        }
+      // Every sign but a leading one begins the next number
+      size_t begin = 0;
+      while (begin < s.length()) {
+        size_t end = s.find(delimiter, begin + 1);
+        if (end == string::npos) end = s.length();
+        items2.push_back(s.substr(begin, end - begin));
+        begin = end;
       }
     }
     
-- 
2.43.0


From 477235f9dfd0c75d7a5180731711e819b8384816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:25 +0000
Subject: [PATCH 56/56] fix: refuse coefficient lines that hold too many values

---
 src/libcatnip/io/file_readers/punreader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index c17d6d2..9c8de2c 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -65,6 +65,7 @@ void PunReader::ReadCoef(const string &orb_type) {
 
   vector<vector<double>> v_vec;
   size_t count = 0;
+  size_t line_count = 0;
   bool first_row_set = false;
 
   bool allCoefsRead = false;
@@ -78,6 +79,11 @@ void PunReader::ReadCoef(const string &orb_type) {
 
       if (first_row_set && current_count >= count) break;
       auto coef = readGausCoefLine(line);
+      // No line holds more than the first one, which is full
+      if (line_count == 0) line_count = coef.size();
+      if (coef.size() > line_count) {
+        throw runtime_error("A line holds too many values in " + fileName_);
+      }
       for (auto val : coef) {
         row.push_back(val);
         ++current_count;
-- 
2.43.0

