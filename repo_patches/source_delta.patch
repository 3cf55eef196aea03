From 193b98438e0e76a62262c29a280068c755c57060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:06 +0000
Subject: [PATCH 01/11] fix: XYZ_to_OKLAB no longer prints its matrices to
 standard output

---
 include/colorsystem.hpp | 23 -----------------------
 1 file changed, 23 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 28704ee..f79d148 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1423,29 +1423,6 @@ static const Tristimulus XYZ_to_OKLAB(const Tristimulus &xyz)
          0.0361456387f, 0.0482003018f, 0.2643662691f, 0.6338517070f);
     constexpr auto m2  = Matrix3(0.2104542553f, 0.7936177850f, -0.0040720468f, 1.9779984951f, -2.4285922050f,
          0.4505937099f, 0.0259040371f, 0.7827717662f, -0.8086757660f);
-    constexpr auto m1i = m1.invert();
-    constexpr auto m2i = m2.invert();
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m1[i]);
-    }
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m2[i]);
-    }
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m1i[i]);
-    }
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m2i[i]);
-    }
-    printf("\n");
 
     const Tristimulus lms = xyz.apply(m1);
     const Tristimulus dash(cbrtf(lms[0]), cbrtf(lms[1]), cbrtf(lms[2]));
-- 
2.43.0


From 72a3badc670daf25661593e75e42d6c2d1ae11cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:06 +0000
Subject: [PATCH 02/11] fix: MemoryStream::putUint8 advances the cursor when it
 overwrites

---
 include/colorsystem.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index f79d148..2d9c936 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -923,6 +923,7 @@ class MemoryStream
         if (ptr_ < s)
         {
             buffer_[ptr_] = uc;
+            ptr_++;
             return;
         }
         else if (ptr_ == s)
-- 
2.43.0


From ceefd7562eaccf1eb48b6ec25843488653a91968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:06 +0000
Subject: [PATCH 03/11] fix: MemoryStream::put_at grows the buffer instead of
 truncating it

---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 2d9c936..130ce71 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -872,8 +872,8 @@ class MemoryStream
     }
     void put_at(size_t abs, uint8_t val)
     {
-        if (abs < buffer_.size())
-            buffer_.resize(abs);
+        if (abs >= buffer_.size())
+            buffer_.resize(abs + 1);
         buffer_[abs] = val;
     }
     size_t read_at(void *buffer, size_t s, Pointer p)
-- 
2.43.0


From fd0d2f346a93ec89d454e56c613a1b99d4dfb572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:06 +0000
Subject: [PATCH 04/11] fix: MemoryStream strings keep their last byte, store
 their length, and length 0 writes nothing

---
 include/colorsystem.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 130ce71..f6b355b 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1218,14 +1218,18 @@ class MemoryStream
     void putDouble(const double v) { putUint64(*(uint64_t *)&v); }
     void putSubstr(const std::string &str, size_t len)
     {
-        for (int i = 0; i < len - 1; i++)
+        for (size_t i = 0; i + 1 < len; i++)
         {
             putUint8(str[i]);
         }
         if (len > 0)
             putUint8(0);
     }
-    void putString(const std::string &str) { putSubstr(str, str.size()); }
+    void putString(const std::string &str)
+    {
+        putUint32((uint32_t)str.size() + 1);
+        putSubstr(str, str.size() + 1);
+    }
 };
 
 static Gamut loadGamutFromICCProfileMemory(const void *mem, size_t size)
-- 
2.43.0


From 5fcb40eefbf1a5888e450bd6d078e7dea29ced0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:06 +0000
Subject: [PATCH 05/11] fix: MemoryStream::getSubstr stops at the end of the
 data

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index f6b355b..7e86deb 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1019,7 +1019,7 @@ class MemoryStream
     const std::string getSubstr(int len)
     {
         std::string str;
-        for (int i = 0; i < len - 1; i++)
+        for (int i = 0; i < len - 1 && !feof(); i++)
         {
             uint8_t uc = getUint8();
             str.push_back(uc);
-- 
2.43.0


From 68fa95d9b991217c4339d6a499d82a6941ad15fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:06 +0000
Subject: [PATCH 06/11] fix: MemoryStream::read_at does not truncate large
 offsets to int

---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 7e86deb..51c9706 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -878,9 +878,9 @@ class MemoryStream
     }
     size_t read_at(void *buffer, size_t s, Pointer p)
     {
-        int r = (int)buffer_.size() - (int)p;
-        if (r < 0)
+        if (p >= buffer_.size())
             return 0;
+        size_t r      = buffer_.size() - p;
         size_t remain = (s < r) ? s : r;
         memcpy(buffer, ptr(p), remain);
         return remain;
-- 
2.43.0


From 0470e0d85b36192d577b02eb0c00baeb3176debb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:06 +0000
Subject: [PATCH 07/11] fix: hue reduction takes bounded work for huge and
 infinite hues

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 51c9706..c001b61 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -441,7 +441,7 @@ class Tristimulus
     // HSV
     static constexpr float mod360(const float &r)
     {
-        return (r < 0.f) ? mod360(r + 360.f) : ((r > 360.f) ? mod360(r - 360.f) : r);
+        return (r < 0.f) ? fmodf(r, 360.f) + 360.f : ((r > 360.f) ? fmodf(r, 360.f) : r);
     }
     static Tristimulus toHSV_atan(const Tristimulus &t)
     {
-- 
2.43.0


From 58815660b0d1a8ae34afa1dacb1db541bf17d63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:19 +0000
Subject: [PATCH 08/11] fix: SOLVER::svdcmp stays inside its arrays when the
 matrix holds not-a-number

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index c001b61..3a63869 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7594,7 +7594,7 @@ namespace SOLVER
                 for (l = k; l >= 0; l--)
                 { /* test for splitting */
                     nm = l - 1;
-                    if (fabs(rv1[l]) + anorm == anorm)
+                    if (l == 0 || fabs(rv1[l]) + anorm == anorm) // rv1[0] is always zero
                     {
                         flag = 0;
                         break;
-- 
2.43.0


From 65496754cfb12896321c3100d1bd6fb237bc7960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:19 +0000
Subject: [PATCH 09/11] fix: Corrector::solve pairs readings with targets only
 as far as both go

---
 include/colorsystem.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 3a63869..a2a60c9 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7776,14 +7776,15 @@ class Corrector
     static Matrix3 solve(const std::vector<Tristimulus> &patch, const std::vector<Tristimulus> &target)
     {
         // M*A = B, M and B are known. solve A.
-        int row_count = (int)(patch.size() + 1) * 3; // forex, (24+1)*3 = 75
-        int col_count = 9;
+        const size_t pairs     = std::min(patch.size(), target.size());
+        int          row_count = (int)(pairs + 1) * 3; // forex, (24+1)*3 = 75
+        int          col_count = 9;
 
         SOLVER::Matrix matrix(row_count, col_count); // M. (75*9)
         SOLVER::Vector result(row_count);            // B.  75
         SOLVER::Vector x(col_count);                 // A.     9
 
-        for (int i = 0; i < patch.size() * 3; i += 3)
+        for (int i = 0; i < pairs * 3; i += 3)
         {
             // each patch
             for (int c = 0; c < col_count; c++)
@@ -7808,7 +7809,7 @@ class Corrector
 
         // 0 restriction.
         {
-            int i = (int)patch.size() * 3;
+            int i = (int)pairs * 3;
             for (int c = 0; c < col_count; c++)
             {
                 matrix[i + 0][c] = 0.f;
-- 
2.43.0


From 65cab87e9490be1e7c11885f42ad8708e3ff123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:14 +0000
Subject: [PATCH 10/11] fix: SOLVER::svdcmp treats denormal singular values as
 zero instead of overflowing

---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index a2a60c9..4b7b331 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7531,7 +7531,7 @@ namespace SOLVER
         {
             if (i < n - 1)
             {
-                if (g)
+                if (fabsf(g) >= std::numeric_limits<float>::min()) // its reciprocal must not overflow
                 {
                     for (j = l; j < n; j++)
                         v[j][i] = ((a[i][j] / a[i][l]) / g);
@@ -7560,7 +7560,7 @@ namespace SOLVER
             if (i < n - 1)
                 for (j = l; j < n; j++)
                     a[i][j] = 0.0;
-            if (g)
+            if (fabsf(g) >= std::numeric_limits<float>::min()) // its reciprocal must not overflow
             {
                 g = 1.0f / g;
                 if (i != n - 1)
-- 
2.43.0


From 14648493b26fd6f2593bba9f3b93d4ea488964cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:46 +0000
Subject: [PATCH 11/11] fix: SOLVER::svdcmp makes singular values non-negative
 also when the iterations run out

---
 include/colorsystem.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 4b7b331..d161389 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7630,12 +7630,6 @@ namespace SOLVER
                 z = w[k];
                 if (l == k)
                 { /* convergence */
-                    if (z < 0.0)
-                    { /* make singular value nonnegative */
-                        w[k] = (-z);
-                        for (j = 0; j < n; j++)
-                            v[j][k] = (-v[j][k]);
-                    }
                     break;
                 }
                 if (its >= 30)
@@ -7699,6 +7693,12 @@ namespace SOLVER
                 rv1[k] = f;
                 w[k]   = x;
             }
+            if (w[k] < 0.0)
+            { /* make singular value nonnegative, also when the iterations ran out */
+                w[k] = (-w[k]);
+                for (j = 0; j < n; j++)
+                    v[j][k] = (-v[j][k]);
+            }
         }
         return 1;
     }
-- 
2.43.0

