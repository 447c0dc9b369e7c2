From 0df9cfd6dda2ff280c97ac8147913205a1445773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:58 +0000
Subject: [PATCH 001/100] fix: reverse iteration of sequences recursed without
 end

---
 types/seq_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/seq_vector.h b/types/seq_vector.h
index ad4442a..c7f6eff 100644
--- a/types/seq_vector.h
+++ b/types/seq_vector.h
@@ -171,14 +171,14 @@ class USML_DECLSPEC seq_vector : public vector_container<seq_vector> {
      * Return reverse iterator to end of sequence.
      */
     const_reverse_iterator rbegin() const {
-        return const_reverse_iterator(rbegin());
+        return const_reverse_iterator(end());
     }
 
     /**
      * Return reverse iterator to start of sequence.
      */
     const_reverse_iterator rend() const {
-        return const_reverse_iterator(rend());
+        return const_reverse_iterator(begin());
     }
 
     /**
-- 
2.43.0


From fdffb4d8db9f5ac2038c2df593dd975c6c370112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:58 +0000
Subject: [PATCH 002/100] fix: find_nearest read past the end of one element
 sequences

---
 types/seq_vector.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/types/seq_vector.cc b/types/seq_vector.cc
index 8b7e5ed..85b57b7 100755
--- a/types/seq_vector.cc
+++ b/types/seq_vector.cc
@@ -22,7 +22,8 @@ using namespace usml::types;
  */
 seq_vector::size_type seq_vector::find_nearest(value_type value) const {
     size_type n = find_index(value);
-    if (abs(_data[n + 1] - value) <= abs(_data[n] - value)) {
+    if (n + 1 < size() &&
+        abs(_data[n + 1] - value) <= abs(_data[n] - value)) {
         n = n + 1;
     }
     return n;
-- 
2.43.0


From ceb1e7548984d19415dd0c7a75a23b4afa61253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:58 +0000
Subject: [PATCH 003/100] fix: automatic choice of sequence type did not
 preserve the values

---
 types/seq_vector.cc | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/types/seq_vector.cc b/types/seq_vector.cc
index 85b57b7..a53b0da 100755
--- a/types/seq_vector.cc
+++ b/types/seq_vector.cc
@@ -9,6 +9,7 @@
 #include <usml/types/seq_vector.h>
 
 #include <boost/numeric/ublas/storage.hpp>
+#include <cmath>
 #include <cstdlib>
 
 using namespace usml::types;
@@ -53,24 +54,26 @@ seq_vector::csptr seq_vector::build_best(const double* data, size_t count) {
     bool isLog = true;
 
     const int N = (int)count;
-    double p1 = data[0];
-    double minValue = p1;
-    double maxValue = p1;
+    const double minValue = data[0];
+    const double maxValue = N > 1 ? data[N - 1] : minValue;
+    double increment = 1.0;
+    double ratio = 1.0;
+
+    // test if evenly spaced values reproduce the data, to within a small
+    // fraction of the distance between neighbors
 
     if (N > 1) {
-        double p2 = data[1];
-        maxValue = p2;
-        for (size_t n = 2; n < N; ++n) {
-            double p3 = data[n];
-            maxValue = p3;
-            if (p2 != 0.0 && abs(((p3 - p2) - (p2 - p1)) / p2) > 1E-4) {
+        increment = (maxValue - minValue) / (N - 1);
+        isLog = minValue != 0.0 && maxValue / minValue > 0.0;
+        ratio = isLog ? pow(maxValue / minValue, 1.0 / (N - 1)) : 1.0;
+        for (int n = 1; n < N; ++n) {
+            const double limit = 1E-3 * abs(data[n] - data[n - 1]);
+            if (abs(minValue + n * increment - data[n]) > limit) {
                 isLinear = false;
             }
-            if (p1 != 0.0 && p2 != 0.0 && abs((p3 / p2) - (p2 / p1)) > 1E-5) {
+            if (isLog && abs(minValue * pow(ratio, n) - data[n]) > limit) {
                 isLog = false;
             }
-            p1 = p2;
-            p2 = p3;
         }
     }
 
@@ -80,9 +83,9 @@ seq_vector::csptr seq_vector::build_best(const double* data, size_t count) {
     if (N < 2) {
         seq = new seq_linear(minValue, 1.0, 1);
     } else if (isLinear) {
-        seq = new seq_linear(minValue, (maxValue - minValue) / (N - 1), N);
+        seq = new seq_linear(minValue, increment, N);
     } else if (isLog) {
-        seq = new seq_log(minValue, (maxValue / minValue) / (N - 1), N);
+        seq = new seq_log(minValue, ratio, N);
     } else {
         seq = new seq_data(data, count);
     }
-- 
2.43.0


From 7e04800059e5e4ab255f54d03892e79c686f5255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:58 +0000
Subject: [PATCH 004/100] fix: undefined conversions in the index search of
 linear and log sequences

---
 types/seq_linear.h | 12 +++++++-----
 types/seq_log.h    | 15 ++++++++++-----
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/types/seq_linear.h b/types/seq_linear.h
index 4889f5e..f59b80f 100755
--- a/types/seq_linear.h
+++ b/types/seq_linear.h
@@ -31,7 +31,8 @@ class USML_DECLSPEC seq_linear : public seq_vector {
                bool first_last = false)
         : seq_vector(size) {
         value_type increment;
-        increment = first_last ? (temp - first) / (size - 1) : temp;
+        increment =
+            first_last ? (size > 1 ? (temp - first) / (size - 1) : 0.0) : temp;
         initialize(first, increment, size);
     }
 
@@ -87,10 +88,11 @@ class USML_DECLSPEC seq_linear : public seq_vector {
      *                      than the argument.
      */
     size_type find_index(value_type value) const override {
-        return (size_type)max(
-            (difference_type)0,
-            min((difference_type)this->size() - 2,
-                (difference_type)floor((value - _data[0]) / _increment[0])));
+        if (this->size() < 2) {
+            return 0;
+        }
+        const double index = floor((value - _data[0]) / _increment[0]);
+        return (size_type)max(0.0, min((double)this->size() - 2.0, index));
     }
 
    private:
diff --git a/types/seq_log.h b/types/seq_log.h
index c8d24ec..faa9767 100755
--- a/types/seq_log.h
+++ b/types/seq_log.h
@@ -82,11 +82,16 @@ class USML_DECLSPEC seq_log : public seq_vector {
      *                      than the argument.
      */
     size_type find_index(value_type value) const override {
-        return (size_type)max(
-            (difference_type)0,
-            min((difference_type)this->size() - 2,
-                (difference_type)floor(log(value / _data[0]) /
-                                       log(_increment[1] / _increment[0]))));
+        if (this->size() < 2) {
+            return 0;
+        }
+        const double last = (double)this->size() - 2.0;
+        const double ratio = _data[1] / _data[0];
+        if (!(value / _data[0] > 0.0)) {
+            return (size_type)(ratio > 1.0 ? 0.0 : last);
+        }
+        const double index = floor(log(value / _data[0]) / log(ratio));
+        return (size_type)max(0.0, min(last, index));
     }
 
    private:
-- 
2.43.0


From 3370211984563e55941348aebafddebba9becacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:58 +0000
Subject: [PATCH 005/100] fix: augmented ray fans could not be searched and
 repeated their last value

---
 types/seq_augment.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/types/seq_augment.h b/types/seq_augment.h
index 2bb3093..4ed3dd7 100755
--- a/types/seq_augment.h
+++ b/types/seq_augment.h
@@ -42,6 +42,7 @@ class USML_DECLSPEC seq_augment : public seq_data {
         double first = (*origin)[0];
         //_value = _index_data = first ;
         size_t half = (size_t)floor(num_rays / 2.0) + 1;
+        size_t top = num_rays + 2 - half;  // intervals at the upper end
         double spacing = origin->increment(0) / half;
 
         _data[0] = first;
@@ -51,7 +52,12 @@ class USML_DECLSPEC seq_augment : public seq_data {
         for (size_t i = half + 1, j = 2; j < size_old - 1; ++i, ++j) {
             _data[i] = (*origin)[j];
         }
-        for (size_t i = size_old - 2 + half; i < size - 1; ++i) {
+        // never step beyond the last element
+        double limit = origin->increment(size_old - 2) / top;
+        if (abs(limit) < abs(spacing)) {
+            spacing = limit;
+        }
+        for (size_t i = size - top; i < size - 1; ++i) {
             _data[i] = _data[i - 1] + spacing;
         }
         _data[size - 1] = (*origin)[size_old - 1];
@@ -60,6 +66,12 @@ class USML_DECLSPEC seq_augment : public seq_data {
             _increment[i - 1] = _data[i] - _data[i - 1];
         }
         _increment[_max_index] = _data[_max_index] - _data[_max_index - 1];
+
+        // index used to search for values
+        _sign = (_increment[0] < 0.0) ? -1.0 : 1.0;
+        for (size_t i = 0; i < size; ++i) {
+            _data_map[_sign * _data[i]] = i;
+        }
     }
 };
 
-- 
2.43.0


From ec3762546fd519d6cf55fc7bf2b9562591c9ed15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 006/100] fix: increment of one element log sequences was not
 initialized

---
 types/seq_log.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/types/seq_log.h b/types/seq_log.h
index faa9767..e60f58a 100755
--- a/types/seq_log.h
+++ b/types/seq_log.h
@@ -106,6 +106,7 @@ class USML_DECLSPEC seq_log : public seq_vector {
         value_type v = first;
         for (size_type n = 0; n < size; ++n) {
             _data[n] = v;
+            _increment[n] = 0.0;
             v *= increment;
             if (n > 0) {
                 _increment[n - 1] = _data[n] - _data[n - 1];
-- 
2.43.0


From 635835c7e0da753c57f3f9d3d3b80608cc5d5b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:28 +0000
Subject: [PATCH 007/100] fix: great circle bearings were lost at poles and for
 short ranges

---
 types/wposition1.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/types/wposition1.cc b/types/wposition1.cc
index bd49325..51b638e 100755
--- a/types/wposition1.cc
+++ b/types/wposition1.cc
@@ -72,7 +72,8 @@ double wposition1::gc_range(const wposition1& location, double* bearing) const {
     // compute bearing
 
     if (bearing != nullptr) {
-        if (abs(range) < 1e-6 || abs(lat1) < 1e-10) {
+        if (abs(range) < 1e-12 || abs(lat1) < 1e-10 ||
+            cos(lat1) < 1e-10) {
             if (lat1 > 0) {  // starting from north pole
                 *bearing = M_PI;
             } else {  // starting from south pole
-- 
2.43.0


From 59e31673aa5e7ab406c4e06047557813cda8324c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:28 +0000
Subject: [PATCH 008/100] fix: local direction to a point ignored the latitude
 and longitude of the origin

---
 types/wvector1.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/types/wvector1.cc b/types/wvector1.cc
index fba7f5b..5bfe613 100755
--- a/types/wvector1.cc
+++ b/types/wvector1.cc
@@ -95,10 +95,10 @@ double wvector1::direction(const wvector1& pos, const wvector1& dir) {
     const double dir_sp = sin(dir.phi());
     const double dir_cp = cos(dir.phi());
 
-    const double pos_st = sin(dir.theta());
-    const double pos_ct = cos(dir.theta());
-    const double pos_sp = sin(dir.phi());
-    const double pos_cp = cos(dir.phi());
+    const double pos_st = sin(pos.theta());
+    const double pos_ct = cos(pos.theta());
+    const double pos_sp = sin(pos.phi());
+    const double pos_cp = cos(pos.phi());
 
     const double x = dir.rho() * dir_cp * dir_st - pos.rho() * pos_cp * pos_st;
     const double y = dir.rho() * dir_sp * dir_st - pos.rho() * pos_sp * pos_st;
-- 
2.43.0


From 39b23dc690275aa25126e9b40b8fcb370faf6a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:28 +0000
Subject: [PATCH 009/100] fix: geocentric direction of a local direction mixed
 up theta and phi

---
 types/wvector1.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types/wvector1.cc b/types/wvector1.cc
index 5bfe613..26b1806 100755
--- a/types/wvector1.cc
+++ b/types/wvector1.cc
@@ -126,9 +126,9 @@ void wvector1::direction(const wvector1& pos, wvector1* dir) const {
     const double sp = sin(pos.phi());
     const double cp = cos(pos.phi());
 
-    const double x = _rho * ct * sp - _theta * st + _phi * ct * cp;
-    const double y = _rho * st * sp + _theta * ct + _phi * st * cp;
-    const double z = _rho * cp - _phi * sp;
+    const double x = _rho * st * cp + _theta * ct * cp - _phi * sp;
+    const double y = _rho * st * sp + _theta * ct * sp + _phi * cp;
+    const double z = _rho * ct - _theta * st;
 
     dir->rho(1.0);
     dir->theta(atan2(sqrt(x * x + y * y), z));
-- 
2.43.0


From 56f54458d72a827e1d6d54914e489930c8acdd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:33 +0000
Subject: [PATCH 010/100] fix: area of degenerate triangles was not a number

---
 types/wvector1.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/types/wvector1.cc b/types/wvector1.cc
index 26b1806..6c8b29d 100755
--- a/types/wvector1.cc
+++ b/types/wvector1.cc
@@ -6,6 +6,8 @@
 #include <usml/types/wposition1.h>
 #include <usml/types/wvector1.h>
 
+#include <algorithm>
+
 using namespace usml::types;
 
 //*********************************
@@ -142,7 +144,8 @@ double wvector1::area(const wvector1& p2, const wvector1& p3) const {
     const double a = distance(p2);
     const double b = distance(p3);
     const double c = p2.distance(p3);
-    return 0.25 * sqrt((a + b + c) * (b + c - a) * (c + a - b) * (a + b - c));
+    return 0.25 * sqrt(std::max(0.0, (a + b + c) * (b + c - a) * (c + a - b) *
+                                         (a + b - c)));
 }
 
 /**
@@ -156,14 +159,16 @@ double wvector1::area(const wvector1& p2, const wvector1& p3,
     const double b = distance(p3);
     double c = p2.distance(p3);
     const double area1 =
-        0.25 * sqrt((a + b + c) * (b + c - a) * (c + a - b) * (a + b - c));
+        0.25 * sqrt(std::max(0.0, (a + b + c) * (b + c - a) * (c + a - b) *
+                                      (a + b - c)));
 
     // compute area of triangle (this,p3,p4)
 
     a = distance(p4);
     c = p4.distance(p3);
     const double area2 =
-        0.25 * sqrt((a + b + c) * (b + c - a) * (c + a - b) * (a + b - c));
+        0.25 * sqrt(std::max(0.0, (a + b + c) * (b + c - a) * (c + a - b) *
+                                      (a + b - c)));
 
     return area1 + area2;
 }
-- 
2.43.0


From 4fee23617f8493f88166eaba9c93c08bf1e4fa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:33 +0000
Subject: [PATCH 011/100] fix: setting one angle of a copied or combined
 orientation lost the others

---
 types/orientation.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/orientation.h b/types/orientation.h
index 4c7da12..d7db52c 100755
--- a/types/orientation.h
+++ b/types/orientation.h
@@ -155,6 +155,7 @@ class USML_DECLSPEC orientation {
      * @param y Compass heading. (deg)
      */
     void yaw(double y) {
+        compute_angles();
         _yaw = y;
         apply_rotation();
     }
@@ -173,6 +174,7 @@ class USML_DECLSPEC orientation {
      * @param p Up/down tilt relative to local ocean surface. (deg)
      */
     void pitch(double p) {
+        compute_angles();
         _pitch = p;
         apply_rotation();
     }
@@ -191,6 +193,7 @@ class USML_DECLSPEC orientation {
      * @param r Left/right tilt relative to local ocean surface. (deg)
      */
     void roll(double r) {
+        compute_angles();
         _roll = r;
         apply_rotation();
     }
-- 
2.43.0


From b4ec9868ee6fa2e39ee38385f7151b65c485d8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:33 +0000
Subject: [PATCH 012/100] fix: pitch of straight up orientations was not a
 number

---
 types/orientation.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/types/orientation.cc b/types/orientation.cc
index d8936b9..6b14321 100644
--- a/types/orientation.cc
+++ b/types/orientation.cc
@@ -4,6 +4,8 @@
  */
 #include <usml/types/orientation.h>
 
+#include <algorithm>
+
 #include <boost/numeric/ublas/assignment.hpp>
 #include <boost/numeric/ublas/io.hpp>
 
@@ -51,7 +53,7 @@ void orientation::compute_angles() {
         _yaw = -to_degrees(-atan2(_rotation(1, 0), _rotation(0, 0)));
     }
     if (std::isnan(_pitch)) {
-        _pitch = to_degrees(asin(_rotation(2, 0)));
+        _pitch = to_degrees(asin(std::max(-1.0, std::min(1.0, _rotation(2, 0)))));
     }
     if (std::isnan(_roll)) {
         _roll = -to_degrees(atan2(_rotation(2, 1), _rotation(2, 2)));
-- 
2.43.0


From 7762377a7ef31cfa2e1d27381c9cc6f36a2bd544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:36 +0000
Subject: [PATCH 013/100] fix: great circle to and from poles and antipodes
 could be not a number

---
 types/wposition1.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/types/wposition1.cc b/types/wposition1.cc
index 51b638e..e5851ed 100755
--- a/types/wposition1.cc
+++ b/types/wposition1.cc
@@ -5,6 +5,8 @@
  */
 #include <usml/types/wposition1.h>
 
+#include <algorithm>
+
 using namespace usml::types;
 
 /**
@@ -27,8 +29,9 @@ wposition1::wposition1(const wposition1& location, double range,
     const double R = wposition::earth_radius + location.altitude();
     range /= R;  // converts to radians
 
-    double lat2 =
-        asin(sin(lat1) * cos(range) + cos(lat1) * sin(range) * cos(bearing));
+    double sin2 =
+        sin(lat1) * cos(range) + cos(lat1) * sin(range) * cos(bearing);
+    double lat2 = asin(std::max(-1.0, std::min(1.0, sin2)));
     double lng2 = lng1 + atan2(sin(bearing) * sin(range) * cos(lat1),
                                cos(range) - sin(lat1) * sin(lat2));
     latitude(to_degrees(lat2));
@@ -67,7 +70,8 @@ double wposition1::gc_range(const wposition1& location, double* bearing) const {
     hav1at *= hav1at;
     double havlng = sin(0.5 * (lng1 - lng2));
     havlng *= havlng;
-    double range = 2.0 * asin(sqrt(hav1at + cos(lat1) * cos(lat2) * havlng));
+    double hav = hav1at + cos(lat1) * cos(lat2) * havlng;
+    double range = 2.0 * asin(sqrt(std::min(1.0, hav)));
 
     // compute bearing
 
-- 
2.43.0


From d9288516b7db1ce3c22280d6ef56b4cea3b99308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:17 +0000
Subject: [PATCH 014/100] fix: copysign kept the sign of a negative first
 argument

---
 ublas/math_traits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ublas/math_traits.h b/ublas/math_traits.h
index c547d94..9cc2066 100644
--- a/ublas/math_traits.h
+++ b/ublas/math_traits.h
@@ -174,7 +174,7 @@ struct math_traits<double> {
 
     static inline value_type sqrt(const_reference t) { return std::sqrt(t); }
     static inline value_type copysign(const_reference t1, const_reference t2) {
-        return (t2 < 0.0) ? -t1 : t1;
+        return (t2 < 0.0) ? -std::abs(t1) : std::abs(t1);
     }
 
     //*********************************************************
@@ -288,7 +288,7 @@ struct math_traits<float> {
 
     static inline value_type sqrt(const_reference t) { return std::sqrt(t); }
     static inline value_type copysign(const_reference t1, const_reference t2) {
-        return (t2 < 0.0) ? -t1 : t1;
+        return (t2 < 0.0) ? -std::abs(t1) : std::abs(t1);
     }
 
     //*********************************************************
-- 
2.43.0


From 361db5ea7682253a3dbfda16ad37f20e57c79be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:17 +0000
Subject: [PATCH 015/100] fix: seeding a random generator kept a gaussian value
 of the old sequence

---
 ublas/randgen.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ublas/randgen.cc b/ublas/randgen.cc
index e152689..034dd61 100755
--- a/ublas/randgen.cc
+++ b/ublas/randgen.cc
@@ -24,7 +24,11 @@ randgen::randgen(unsigned seed)
 /**
  * Update the random number generator with a specific seed.
  */
-void randgen::seed(unsigned seed) { _generator.seed(seed); }
+void randgen::seed(unsigned seed) {
+    _generator.seed(seed);
+    _uniform_dist.reset();
+    _gaussian_dist.reset();
+}
 
 //******************************************************************
 // Scalar random numbers
-- 
2.43.0


From 0ec83836771e60f2a994e1ad710db28caa0e0f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:26 +0000
Subject: [PATCH 016/100] fix: interpolating one grid from several threads
 raced on a cached zero

---
 netcdf/netcdf_coards.h |  1 -
 types/gen_grid.h       | 77 ++++++++++++++++++------------------------
 2 files changed, 33 insertions(+), 45 deletions(-)

diff --git a/netcdf/netcdf_coards.h b/netcdf/netcdf_coards.h
index ecfc75f..086834a 100644
--- a/netcdf/netcdf_coards.h
+++ b/netcdf/netcdf_coards.h
@@ -77,7 +77,6 @@ class netcdf_coards : public gen_grid<NUM_DIMS> {
      */
     netcdf_coards(netCDF::NcFile& file, const std::string& name,
                   bool read_fill = false) {
-        this->_zero = 0.0;  // avoid uninitialized values in gen_grid class
 
         // search for this grid in the NetCDF file
 
diff --git a/types/gen_grid.h b/types/gen_grid.h
index c276910..1f73812 100755
--- a/types/gen_grid.h
+++ b/types/gen_grid.h
@@ -47,7 +47,6 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         _writeable_data = std::shared_ptr<DATA_TYPE[]>(new DATA_TYPE[N]);
         this->_data = _writeable_data;  // read only reference
         initialize<DATA_TYPE>::zero_n(_writeable_data.get(), N);
-        _zero = initialize<DATA_TYPE>::zero((_writeable_data.get())[0]);
     }
 
     /**
@@ -124,15 +123,21 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
 
         // compute interpolation results for value and derivative
 
-        if (!_zero_init) {
-            _zero_init = true;
-            _zero = initialize<DATA_TYPE>::zero((_writeable_data.get())[0]);
-        }
-        DATA_TYPE dresult = _zero;
+        DATA_TYPE dresult = zero();
         return interp(NUM_DIMS - 1, index, loc, dresult, derivative);
     }
 
    private:
+    /**
+     * Example of empty data type with the vector/matrix size of the stored
+     * data. Used to initialize results so that their size is always defined.
+     * Computed for each use, instead of being cached, to allow several threads
+     * to interpolate the same grid.
+     */
+    DATA_TYPE zero() const {
+        return initialize<DATA_TYPE>::zero(this->_data.get()[0]);
+    }
+
     //*************************************************************************
     // interpolation methods
 
@@ -157,7 +162,7 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
     DATA_TYPE
     interp(int dim, const size_t index[], const double location[],
            DATA_TYPE& deriv, DATA_TYPE deriv_vec[]) const {
-        DATA_TYPE result = _zero;
+        DATA_TYPE result = zero();
 
         if (dim < 0) {
             const size_t offset =
@@ -202,8 +207,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
      */
     DATA_TYPE nearest(int dim, const size_t index[], const double location[],
                       DATA_TYPE& deriv, DATA_TYPE deriv_vec[]) const {
-        DATA_TYPE result = _zero;
-        DATA_TYPE da = _zero;
+        DATA_TYPE result = zero();
+        DATA_TYPE da = zero();
 
         // compute field value in this dimension
 
@@ -247,9 +252,9 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
      */
     DATA_TYPE linear(int dim, const size_t index[], const double location[],
                      DATA_TYPE& deriv, DATA_TYPE deriv_vec[]) const {
-        DATA_TYPE result = _zero;
-        DATA_TYPE da = _zero;
-        DATA_TYPE db = _zero;
+        DATA_TYPE result = zero();
+        DATA_TYPE da = zero();
+        DATA_TYPE db = zero();
 
         // build interpolation coefficients
 
@@ -352,21 +357,21 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         seq_vector::csptr ax = this->_axis[dim];
         const size_t kmin = 1u;               // at endpt if k-1 < 0
         const size_t kmax = ax->size() - 3u;  // at endpt if k+2 > N-1
-        DATA_TYPE result = _zero;
+        DATA_TYPE result = zero();
 
         // dim-1 values at k-1, k, k+1, k+2
 
-        DATA_TYPE y0 = _zero;
-        DATA_TYPE y1 = _zero;
-        DATA_TYPE y2 = _zero;
-        DATA_TYPE y3 = _zero;
+        DATA_TYPE y0 = zero();
+        DATA_TYPE y1 = zero();
+        DATA_TYPE y2 = zero();
+        DATA_TYPE y3 = zero();
 
         // dim-1 derivatives at k-1, k, k+1, k+2
 
-        DATA_TYPE dy0 = _zero;
-        DATA_TYPE dy1 = _zero;
-        DATA_TYPE dy2 = _zero;
-        DATA_TYPE dy3 = _zero;
+        DATA_TYPE dy0 = zero();
+        DATA_TYPE dy1 = zero();
+        DATA_TYPE dy2 = zero();
+        DATA_TYPE dy3 = zero();
 
         // interpolate in dim-1 dimension to find values and derivs at k, k-1
 
@@ -424,9 +429,9 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
 
         // forward derivatives of dim-1 derivatives
 
-        DATA_TYPE dderiv0 = _zero;
-        DATA_TYPE dderiv1 = _zero;
-        DATA_TYPE dderiv2 = _zero;
+        DATA_TYPE dderiv0 = zero();
+        DATA_TYPE dderiv1 = zero();
+        DATA_TYPE dderiv2 = zero();
         if (deriv_vec) {  // fwd deriv of dim-1 derivatives
             dderiv0 = (dy1 - dy0) / h0;
             dderiv1 = (dy2 - dy1) / h1;
@@ -439,8 +444,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         // set it zero at local maxima or minima
         // deriv0 * deriv1 condition guards against division by zero
 
-        DATA_TYPE slope1 = _zero;
-        DATA_TYPE dslope1 = _zero;
+        DATA_TYPE slope1 = zero();
+        DATA_TYPE dslope1 = zero();
 
         // when not at an end-point, slope1 is the harmonic, weighted
         // average of deriv0 and deriv1.
@@ -467,8 +472,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         // set it zero at local maxima or minima
         // deriv1 * deriv2 condition guards against division by zero
 
-        DATA_TYPE slope2 = _zero;
-        DATA_TYPE dslope2 = _zero;
+        DATA_TYPE slope2 = zero();
+        DATA_TYPE dslope2 = zero();
 
         // when not at an end-point, slope2 is the harmonic, weighted
         // average of deriv1 and deriv2.
@@ -528,22 +533,6 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
      * Local copy of data storage to support data editing.
      */
     std::shared_ptr<DATA_TYPE[]> _writeable_data;
-
-    /**
-     * Example of empty data type with vector/matrix correct size. If results
-     * variables are left uninitialized, Valgrind's Memcheck flags them out as
-     * potential errors. Initializing declaration of DATA_TYPE to _zeros quiets
-     * this error message.
-     */
-    mutable DATA_TYPE _zero;
-
-    /**
-     * Since we don't know that the size of vector/matrix DATA_TYPEs are going
-     * to be until the interpolate() has been called, we set the value of _zero
-     * in interpolate() if it has not yet already been initialized. Since the
-     * interpolate() method is const, this field must be mutable.
-     */
-    mutable bool _zero_init{false};
 };
 
 }  // end of namespace types
-- 
2.43.0


From 64c7e9aa00d25d4c4ac67cb3c27557a969cea6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 017/100] fix: nearest interpolation read past the end of one
 element axes

---
 types/gen_grid.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/gen_grid.h b/types/gen_grid.h
index 1f73812..8d48fcc 100755
--- a/types/gen_grid.h
+++ b/types/gen_grid.h
@@ -215,7 +215,7 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         const size_t k = index[dim];
         seq_vector::csptr ax = this->_axis[dim];
         const double u = (location[dim] - (*ax)(k)) / ax->increment(k);
-        if (u < 0.5) {
+        if (!(u >= 0.5)) {  // includes short axes without increments
             result = interp(dim - 1, index, location, da, deriv_vec);
         } else {
             size_t next[NUM_DIMS];
-- 
2.43.0


From be37d1c2039626f670aeded39d6accd48b8a08de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 018/100] fix: interpolation type was not changed on axes too
 short for it

---
 types/data_grid.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/data_grid.h b/types/data_grid.h
index 4450fde..9ada706 100755
--- a/types/data_grid.h
+++ b/types/data_grid.h
@@ -130,6 +130,7 @@ class USML_DLLEXPORT data_grid {
      * Define the type of interpolation for one of the axes.
      * Note that linear interpolation requires a minimum of 2 points;
      * pchip requires a minimum of 4 points.
+     * Shorter axes use the best type that they support.
      *
      * @param  dimension        Dimension number to be modified.
      * @param  type             Type of interpolation for this dimension.
@@ -140,9 +141,8 @@ class USML_DLLEXPORT data_grid {
             type = interp_enum::nearest;
         } else if (type > interp_enum::linear && size < 4) {
             type = interp_enum::linear;
-        } else {
-            this->_interp_type[dimension] = type;
         }
+        this->_interp_type[dimension] = type;
     }
 
     /**
-- 
2.43.0


From ef6e3beffe0b6b271cba2cdfd56be0939f13257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 019/100] fix: pchip slopes were wrong at end points and for
 uneven spacing

---
 types/gen_grid.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/types/gen_grid.h b/types/gen_grid.h
index 8d48fcc..1e867d4 100755
--- a/types/gen_grid.h
+++ b/types/gen_grid.h
@@ -460,8 +460,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
             // note that the deriv0 value is bogus values when this is true
 
         } else {
-            slope1 = ((2.0 + h1 + h2) * deriv1 - h1 * deriv2) / (h1 + h2);
-            dslope1 = ((2.0 + h1 + h2) * dderiv1 - h1 * dderiv2) / (h1 + h2);
+            slope1 = ((2.0 * h1 + h2) * deriv1 - h1 * deriv2) / (h1 + h2);
+            dslope1 = ((2.0 * h1 + h2) * dderiv1 - h1 * dderiv2) / (h1 + h2);
             end_point_derivative<DATA_TYPE>::compute(
                 deriv1, deriv2, dderiv1, dderiv2, deriv_vec, slope1, dslope1);
         }
@@ -479,8 +479,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         // average of deriv1 and deriv2.
 
         if (k <= kmax) {
-            const double w1 = 2.0 * h1 + h0;
-            const double w2 = h1 + 2.0 * h0;
+            const double w1 = 2.0 * h2 + h1;
+            const double w2 = h2 + 2.0 * h1;
             derivative<DATA_TYPE>::compute(deriv1, deriv2, dderiv1, dderiv2, w1,
                                            w2, deriv_vec, slope2, dslope2);
 
@@ -489,8 +489,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
             // true
 
         } else {  // otherwise, compute harmonic weighted average
-            slope2 = ((2.0 + h1 + h2) * deriv1 - h1 * deriv0) / (h1 + h0);
-            dslope2 = ((2.0 + h1 + h2) * dderiv1 - h1 * dderiv0) / (h1 + h0);
+            slope2 = ((2.0 * h1 + h0) * deriv1 - h1 * deriv0) / (h1 + h0);
+            dslope2 = ((2.0 * h1 + h0) * dderiv1 - h1 * dderiv0) / (h1 + h0);
             end_point_derivative<DATA_TYPE>::compute(
                 deriv1, deriv0, dderiv1, dderiv0, deriv_vec, slope2, dslope2);
         }
-- 
2.43.0


From 23ddc43e874c1f6b832cc4b2a9225513c0c0776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:40 +0000
Subject: [PATCH 020/100] fix: pchip end point limit used the slope of the
 wrong interval

---
 types/gen_grid_utils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/gen_grid_utils.h b/types/gen_grid_utils.h
index ceaa367..7b560a9 100644
--- a/types/gen_grid_utils.h
+++ b/types/gen_grid_utils.h
@@ -148,8 +148,8 @@ struct end_point_derivative {
                         argument_type& dm) {
         if (m * d0 < 0.0) {
             m = 0.0;
-        } else if ((d0 * d1 < 0.0) && (abs(m) > abs(3.0 * d1))) {
-            m = 3.0 * d1;
+        } else if ((d0 * d1 < 0.0) && (abs(m) > abs(3.0 * d0))) {
+            m = 3.0 * d0;
         }
         if (deriv) {
             if (dm * dd0 < 0.0) {
-- 
2.43.0


From 2ea012e9ccebb6b6c7f449fca19ad81f16111b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:33 +0000
Subject: [PATCH 021/100] fix: derivatives of inner dimensions were not
 interpolated in three dimensions

---
 types/gen_grid.h | 183 +++++++++++++++++++++++++----------------------
 1 file changed, 98 insertions(+), 85 deletions(-)

diff --git a/types/gen_grid.h b/types/gen_grid.h
index 1e867d4..994eb68 100755
--- a/types/gen_grid.h
+++ b/types/gen_grid.h
@@ -258,11 +258,15 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
 
         // build interpolation coefficients
 
-        const DATA_TYPE a = interp(dim - 1, index, location, da, deriv_vec);
+        DATA_TYPE va[NUM_DIMS];  // derivatives of prior dimensions
+        DATA_TYPE vb[NUM_DIMS];
+        const DATA_TYPE a =
+            interp(dim - 1, index, location, da, deriv_vec ? va : nullptr);
         size_t next[NUM_DIMS];
         std::copy_n(index, NUM_DIMS, next);
         ++next[dim];
-        const DATA_TYPE b = interp(dim - 1, next, location, db, deriv_vec);
+        const DATA_TYPE b =
+            interp(dim - 1, next, location, db, deriv_vec ? vb : nullptr);
         const size_t k = index[dim];
         seq_vector::csptr ax = this->_axis[dim];
 
@@ -272,13 +276,13 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         const double u = (location[dim] - (*ax)(k)) / h;
         result = a * (1.0 - u) + b * u;
 
-        // compute derivative in this dimension and prior dimension
+        // compute derivative in this dimension and prior dimensions
 
         if (deriv_vec) {
             deriv = (b - a) / h;
             deriv_vec[dim] = deriv;
-            if (dim > 0) {
-                deriv_vec[dim - 1] = da * (1.0 - u) + db * u;
+            for (int d = 0; d < dim; ++d) {
+                deriv_vec[d] = va[d] * (1.0 - u) + vb[d] * u;
             }
         }
 
@@ -366,26 +370,29 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         DATA_TYPE y2 = zero();
         DATA_TYPE y3 = zero();
 
-        // dim-1 derivatives at k-1, k, k+1, k+2
+        // derivatives of all prior dimensions at k-1, k, k+1, k+2
 
-        DATA_TYPE dy0 = zero();
-        DATA_TYPE dy1 = zero();
-        DATA_TYPE dy2 = zero();
-        DATA_TYPE dy3 = zero();
+        DATA_TYPE dy0[NUM_DIMS];
+        DATA_TYPE dy1[NUM_DIMS];
+        DATA_TYPE dy2[NUM_DIMS];
+        DATA_TYPE dy3[NUM_DIMS];
+        DATA_TYPE dy = zero();
 
         // interpolate in dim-1 dimension to find values and derivs at k, k-1
 
         const size_t k = index[dim];
-        y1 = interp(dim - 1, index, location, dy1, deriv_vec);
+        y1 = interp(dim - 1, index, location, dy,
+                    deriv_vec ? dy1 : nullptr);
 
         if (k >= kmin) {
             size_t prev[NUM_DIMS];
             std::copy_n(index, NUM_DIMS, prev);
             --prev[dim];
-            y0 = interp(dim - 1, prev, location, dy0, deriv_vec);
+            y0 = interp(dim - 1, prev, location, dy,
+                        deriv_vec ? dy0 : nullptr);
         } else {  // use harmless values at left end-point
             y0 = y1;
-            dy0 = dy1;
+            if (deriv_vec) std::copy_n(dy1, dim, dy0);
         }
 
         // interpolate in dim-1 dimension to find values and derivs at k+1, k+2
@@ -393,16 +400,18 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         size_t next[NUM_DIMS];
         std::copy_n(index, NUM_DIMS, next);
         ++next[dim];
-        y2 = interp(dim - 1, next, location, dy2, deriv_vec);
+        y2 = interp(dim - 1, next, location, dy,
+                    deriv_vec ? dy2 : nullptr);
 
         if (k <= kmax) {
             size_t last[NUM_DIMS];
             std::copy_n(next, NUM_DIMS, last);
             ++last[dim];
-            y3 = interp(dim - 1, last, location, dy3, deriv_vec);
+            y3 = interp(dim - 1, last, location, dy,
+                        deriv_vec ? dy3 : nullptr);
         } else {  // use harmless values at right end-point
             y3 = y2;
-            dy3 = dy2;
+            if (deriv_vec) std::copy_n(dy2, dim, dy3);
         }
 
         // compute difference values used frequently in computation
@@ -421,107 +430,111 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         const double sh_term = 3.0 * h1 * s_2 - 2.0 * s_3;
 
         // compute first divided differences (forward derivative)
-        // for both the values, and their derivatives
 
         const DATA_TYPE deriv0 = (y1 - y0) / h0;  // fwd deriv from k-1 to k
         const DATA_TYPE deriv1 = (y2 - y1) / h1;  // fwd deriv from k to k+1
         const DATA_TYPE deriv2 = (y3 - y2) / h2;  // fwd deriv from k+1 to k+2
 
-        // forward derivatives of dim-1 derivatives
+        // compute slopes around index k and k+1 for the values
 
-        DATA_TYPE dderiv0 = zero();
-        DATA_TYPE dderiv1 = zero();
-        DATA_TYPE dderiv2 = zero();
-        if (deriv_vec) {  // fwd deriv of dim-1 derivatives
-            dderiv0 = (dy1 - dy0) / h0;
-            dderiv1 = (dy2 - dy1) / h1;
-            dderiv2 = (dy3 - dy2) / h2;
+        DATA_TYPE slope1 = zero();
+        DATA_TYPE slope2 = zero();
+        pchip_slopes(k >= kmin, k <= kmax, h0, h1, h2, deriv0, deriv1, deriv2,
+                     slope1, slope2);
+
+        // compute interpolation value in this dimension
+
+        result = y2 * sh_term / h1_3 + y1 * (h1_3 - sh_term) / h1_3 +
+                 slope2 * s_2 * sh_minus / h1_2 +
+                 slope1 * s * sh_minus * sh_minus / h1_2;
+
+        // compute derivative in this dimension
+        // assume linear change of slope across interval
+
+        if (deriv_vec) {
+            double v = s / h1;
+            DATA_TYPE u = initialize<DATA_TYPE>::value(deriv, v);
+            DATA_TYPE one_minus_u =
+                initialize<DATA_TYPE>::value(deriv, (1.0 - v));
+            deriv = slope1 * one_minus_u + slope2 * u;
+            deriv_vec[dim] = deriv;
+            for (int d = 0; d < dim; ++d) {  // interpolate prior derivatives
+                const DATA_TYPE dderiv0 = (dy1[d] - dy0[d]) / h0;
+                const DATA_TYPE dderiv1 = (dy2[d] - dy1[d]) / h1;
+                const DATA_TYPE dderiv2 = (dy3[d] - dy2[d]) / h2;
+                DATA_TYPE dslope1 = zero();
+                DATA_TYPE dslope2 = zero();
+                pchip_slopes(k >= kmin, k <= kmax, h0, h1, h2, dderiv0, dderiv1,
+                             dderiv2, dslope1, dslope2);
+                deriv_vec[d] = dy2[d] * sh_term / h1_3 +
+                               dy1[d] * (h1_3 - sh_term) / h1_3 +
+                               dslope2 * s_2 * sh_minus / h1_2 +
+                               dslope1 * s * sh_minus * sh_minus / h1_2;
+            }
         }
 
-        //*************
-        // compute weighted harmonic mean of slopes around index k
-        // for both the values, and their derivatives
-        // set it zero at local maxima or minima
-        // deriv0 * deriv1 condition guards against division by zero
+        // use results for dim+1 iteration
 
-        DATA_TYPE slope1 = zero();
-        DATA_TYPE dslope1 = zero();
+        return result;
+    }
 
-        // when not at an end-point, slope1 is the harmonic, weighted
-        // average of deriv0 and deriv1.
+    /**
+     * Compute the PCHIP slopes at both ends of the interval from k to k+1.
+     *
+     * @param   left        True when there is a point at k-1.
+     * @param   right       True when there is a point at k+2.
+     * @param   h0          Interval from k-1 to k.
+     * @param   h1          Interval from k to k+1.
+     * @param   h2          Interval from k+1 to k+2.
+     * @param   deriv0      Forward derivative from k-1 to k.
+     * @param   deriv1      Forward derivative from k to k+1.
+     * @param   deriv2      Forward derivative from k+1 to k+2.
+     * @param   slope1      Slope at k. Must be zero on input (output).
+     * @param   slope2      Slope at k+1. Must be zero on input (output).
+     */
+    void pchip_slopes(bool left, bool right, double h0, double h1, double h2,
+                      const DATA_TYPE& deriv0, const DATA_TYPE& deriv1,
+                      const DATA_TYPE& deriv2, DATA_TYPE& slope1,
+                      DATA_TYPE& slope2) const {
+        const DATA_TYPE none = zero();
+        DATA_TYPE unused = zero();
+
+        // compute weighted harmonic mean of slopes around index k,
+        // set it zero at local maxima or minima
 
-        if (k >= kmin) {
+        if (left) {
             const double w0 = 2.0 * h1 + h0;
             const double w1 = h1 + 2.0 * h0;
-            derivative<DATA_TYPE>::compute(deriv0, deriv1, dderiv0, dderiv1, w0,
-                                           w1, deriv_vec, slope1, dslope1);
+            derivative<DATA_TYPE>::compute(deriv0, deriv1, none, none, w0, w1,
+                                           false, slope1, unused);
 
             // at left end-point, use Matlab end-point formula with slope limits
             // note that the deriv0 value is bogus values when this is true
 
         } else {
             slope1 = ((2.0 * h1 + h2) * deriv1 - h1 * deriv2) / (h1 + h2);
-            dslope1 = ((2.0 * h1 + h2) * dderiv1 - h1 * dderiv2) / (h1 + h2);
-            end_point_derivative<DATA_TYPE>::compute(
-                deriv1, deriv2, dderiv1, dderiv2, deriv_vec, slope1, dslope1);
+            end_point_derivative<DATA_TYPE>::compute(deriv1, deriv2, none, none,
+                                                     false, slope1, unused);
         }
 
-        //*************
-        // compute weighted harmonic mean of slopes around index k+1
-        // for both the values, and their derivatives
+        // compute weighted harmonic mean of slopes around index k+1,
         // set it zero at local maxima or minima
-        // deriv1 * deriv2 condition guards against division by zero
-
-        DATA_TYPE slope2 = zero();
-        DATA_TYPE dslope2 = zero();
-
-        // when not at an end-point, slope2 is the harmonic, weighted
-        // average of deriv1 and deriv2.
 
-        if (k <= kmax) {
+        if (right) {
             const double w1 = 2.0 * h2 + h1;
             const double w2 = h2 + 2.0 * h1;
-            derivative<DATA_TYPE>::compute(deriv1, deriv2, dderiv1, dderiv2, w1,
-                                           w2, deriv_vec, slope2, dslope2);
+            derivative<DATA_TYPE>::compute(deriv1, deriv2, none, none, w1, w2,
+                                           false, slope2, unused);
 
             // at right end-point, use Matlab end-point formula with slope
             // limits note that the deriv2 value is bogus values when this is
             // true
 
-        } else {  // otherwise, compute harmonic weighted average
+        } else {
             slope2 = ((2.0 * h1 + h0) * deriv1 - h1 * deriv0) / (h1 + h0);
-            dslope2 = ((2.0 * h1 + h0) * dderiv1 - h1 * dderiv0) / (h1 + h0);
-            end_point_derivative<DATA_TYPE>::compute(
-                deriv1, deriv0, dderiv1, dderiv0, deriv_vec, slope2, dslope2);
+            end_point_derivative<DATA_TYPE>::compute(deriv1, deriv0, none, none,
+                                                     false, slope2, unused);
         }
-
-        // compute interpolation value in this dimension
-
-        result = y2 * sh_term / h1_3 + y1 * (h1_3 - sh_term) / h1_3 +
-                 slope2 * s_2 * sh_minus / h1_2 +
-                 slope1 * s * sh_minus * sh_minus / h1_2;
-
-        // compute derivative in this dimension
-        // assume linear change of slope across interval
-
-        if (deriv_vec) {
-            double v = s / h1;
-            DATA_TYPE u = initialize<DATA_TYPE>::value(deriv, v);
-            DATA_TYPE one_minus_u =
-                initialize<DATA_TYPE>::value(deriv, (1.0 - v));
-            deriv = slope1 * one_minus_u + slope2 * u;
-            deriv_vec[dim] = deriv;
-            if (dim > 0) {
-                deriv_vec[dim - 1] = dy2 * sh_term / h1_3 +
-                                     dy1 * (h1_3 - sh_term) / h1_3 +
-                                     dslope2 * s_2 * sh_minus / h1_2 +
-                                     dslope1 * s * sh_minus * sh_minus / h1_2;
-            }
-        }
-
-        // use results for dim+1 iteration
-
-        return result;
     }
 
    protected:
-- 
2.43.0


From 0c4a50d4c63dcd17b8e73163fee1cf9284dcbc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:42 +0000
Subject: [PATCH 022/100] fix: pchip overshot on flat stretches at the end
 points

---
 types/gen_grid_utils.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/types/gen_grid_utils.h b/types/gen_grid_utils.h
index 7b560a9..813cfc5 100644
--- a/types/gen_grid_utils.h
+++ b/types/gen_grid_utils.h
@@ -146,13 +146,13 @@ struct end_point_derivative {
     static void compute(argument_type d0, argument_type d1, argument_type dd0,
                         argument_type dd1, bool deriv, argument_type& m,
                         argument_type& dm) {
-        if (m * d0 < 0.0) {
+        if (m * d0 <= 0.0) {
             m = 0.0;
         } else if ((d0 * d1 < 0.0) && (abs(m) > abs(3.0 * d0))) {
             m = 3.0 * d0;
         }
         if (deriv) {
-            if (dm * dd0 < 0.0) {
+            if (dm * dd0 <= 0.0) {
                 dm = 0.0;
             } else if ((dd0 * dd1 < 0.0) && (abs(dm) > abs(3.0 * dd0))) {
                 dm = 3.0 * dd0;
@@ -194,14 +194,14 @@ struct end_point_derivative<boost::numeric::ublas::vector<T> > {
                         argument_type& dm) {
         size_type size(d0.size());
         for (size_type i = 0; i < size; ++i) {
-            if (m(i) * d0(i) < 0.0) {
+            if (m(i) * d0(i) <= 0.0) {
                 m(i) = 0.0;
             } else if ((d0(i) * d1(i) < 0.0) &&
                        (abs(m(i)) > abs(3.0 * d0(i)))) {
                 m(i) = 3.0 * d0(i);
             }
             if (deriv) {
-                if (dm(i) * dd0(i) < 0.0) {
+                if (dm(i) * dd0(i) <= 0.0) {
                     dm(i) = 0.0;
                 } else if ((dd0(i) * dd1(i) < 0.0) &&
                            (abs(dm(i)) > abs(3.0 * dd0(i)))) {
@@ -231,14 +231,14 @@ struct end_point_derivative<boost::numeric::ublas::matrix<T> > {
         size_type size2(d0.size2());
         for (size_type i = 0; i < size1; ++i) {
             for (size_type j = 0; j < size2; ++j) {
-                if (m(i, j) * d0(i, j) < 0.0) {
+                if (m(i, j) * d0(i, j) <= 0.0) {
                     m(i, j) = 0.0;
                 } else if ((d0(i, j) * d1(i, j) < 0.0) &&
                            (abs(m(i, j)) > abs(3.0 * d0(i, j)))) {
                     m(i, j) = 3.0 * d0(i, j);
                 }
                 if (deriv) {
-                    if (dm(i, j) * dd0(i, j) < 0.0) {
+                    if (dm(i, j) * dd0(i, j) <= 0.0) {
                         dm(i, j) = 0.0;
                     } else if ((dd0(i, j) * dd1(i, j) < 0.0) &&
                                (abs(dm(i, j)) > abs(3.0 * dd0(i, j)))) {
-- 
2.43.0


From 50612066269eb174dc2fbd669c594fca8cb29f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:27 +0000
Subject: [PATCH 023/100] fix: fast bathymetry repeated the next to last point
 in the whole last interval

---
 types/data_grid_bathy.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/types/data_grid_bathy.h b/types/data_grid_bathy.h
index 667f319..4301d86 100755
--- a/types/data_grid_bathy.h
+++ b/types/data_grid_bathy.h
@@ -266,11 +266,17 @@ class USML_DECLSPEC data_grid_bathy : public data_grid<2> {
         for (size_t dim = 0; dim < 2; ++dim) {
             const seq_vector& ax = axis(dim);
 
-            // limit interpolation to axis domain if _edge_limit turned on
+            // short axis
 
-            if (edge_limit(dim)) {
+            if (ax.size() < 2) {
+                loc[dim] = ax(0);
+                offset[dim] = 0;
+
+                // limit interpolation to axis domain if _edge_limit turned on
+
+            } else if (edge_limit(dim)) {
                 double a = ax(0);
-                double b = ax(ax.size() - 2);
+                double b = ax(ax.size() - 1);
                 double sign = (ax.increment(0) < 0) ? -1.0 : 1.0;
                 double d = loc[dim] * sign;
                 if (d <= a * sign) {  // left of the axis
-- 
2.43.0


From efb2241bca8a9b30c0e03bfc11bf4086c6ab6045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:27 +0000
Subject: [PATCH 024/100] fix: fast bathymetry compared locations to indices to
 find the nearest point

---
 types/data_grid_bathy.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/types/data_grid_bathy.h b/types/data_grid_bathy.h
index 4301d86..9e04571 100755
--- a/types/data_grid_bathy.h
+++ b/types/data_grid_bathy.h
@@ -301,9 +301,10 @@ class USML_DECLSPEC data_grid_bathy : public data_grid<2> {
             //****nearest****
             case interp_enum::nearest:
                 for (int dim = 0; dim < 2; ++dim) {
-                    double inc = axis(dim).increment(0);
-                    double u = abs(loc[dim] - offset[dim]) / inc;
-                    if (u < 0.5) {
+                    const seq_vector& ax = axis(dim);
+                    double inc = ax.increment(offset[dim]);
+                    double u = (loc[dim] - ax(offset[dim])) / inc;
+                    if (!(u >= 0.5)) {  // includes short axes
                         fast_index[dim] = offset[dim];
                     } else {
                         fast_index[dim] = offset[dim] + 1;
-- 
2.43.0


From f75a842c91832f465a091f65625648b904fb4bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:27 +0000
Subject: [PATCH 025/100] fix: slopes of fast bathymetry were wrong at edges
 and for uneven spacing

---
 types/data_grid_bathy.h | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/types/data_grid_bathy.h b/types/data_grid_bathy.h
index 9e04571..38b186c 100755
--- a/types/data_grid_bathy.h
+++ b/types/data_grid_bathy.h
@@ -127,26 +127,17 @@ class USML_DECLSPEC data_grid_bathy : public data_grid<2> {
         _inv_bicubic_coeff(15, 12) = _inv_bicubic_coeff(15, 13) =
             _inv_bicubic_coeff(15, 14) = _inv_bicubic_coeff(15, 15) = 1;
 
-        // Pre-construct increments for all intervals once to save time
+        // Pre-construct distances between the points used by the
+        // differences at each point once to save time
         matrix<double> inc_x(_k0max + 1u, 1);
         for (size_t i = 0; i < _k0max + 1u; ++i) {
-            if (i == 0 || i == _k0max) {
-                inc_x(i, 0) = 2;
-            } else {
-                inc_x(i, 0) =
-                    (axis(0).increment(i - 1) + axis(0).increment(i + 1)) /
-                    axis(0).increment(i);
-            }
+            inc_x(i, 0) = axis(0)((i == _k0max) ? i : i + 1) -
+                          axis(0)((i == 0) ? i : i - 1);
         }
         matrix<double> inc_y(_k1max + 1u, 1);
         for (size_t i = 0; i < _k1max + 1u; ++i) {
-            if (i == 0 || i == _k1max) {
-                inc_y(i, 0) = 2;
-            } else {
-                inc_y(i, 0) =
-                    (axis(1).increment(i - 1) + axis(1).increment(i + 1)) /
-                    axis(1).increment(i);
-            }
+            inc_y(i, 0) = axis(1)((i == _k1max) ? i : i + 1) -
+                          axis(1)((i == 0) ? i : i - 1);
         }
 
         // Pre-construct all derivatives and cross-dervs once to save time
@@ -512,6 +503,13 @@ class USML_DECLSPEC data_grid_bathy : public data_grid<2> {
         field(14, 0) = _derv_x_y(k0 + 1, k1);      // f_x_y(1,0)
         field(15, 0) = _derv_x_y(k0 + 1, k1 + 1);  // f_x_y(1,1)
 
+        // Convert derivatives to the interval [0,1] x [0,1]
+        for (int i = 4; i < 8; ++i) {
+            field(i, 0) *= norm0;
+            field(i + 4, 0) *= norm1;
+            field(i + 8, 0) *= norm0 * norm1;
+        }
+
         // Construct the coefficients of the bicubic interpolation
         c_matrix<double, 16, 1> bicubic_coeff = prod(_inv_bicubic_coeff, field);
 
-- 
2.43.0


From 0b4c1413930002b1eb86fb6bfe611931d733ab1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:27 +0000
Subject: [PATCH 026/100] fix: fast bathymetry read past the end of one element
 axes

---
 types/data_grid_bathy.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/types/data_grid_bathy.h b/types/data_grid_bathy.h
index 38b186c..c930bfe 100755
--- a/types/data_grid_bathy.h
+++ b/types/data_grid_bathy.h
@@ -144,6 +144,7 @@ class USML_DECLSPEC data_grid_bathy : public data_grid<2> {
         _derv_x = matrix<double>(_k0max + 1u, _k1max + 1u);
         _derv_y = matrix<double>(_k0max + 1u, _k1max + 1u);
         _derv_x_y = matrix<double>(_k0max + 1u, _k1max + 1u);
+        if (_k0max < 1u || _k1max < 1u) return;  // no differences, not pchip
         for (size_t i = 0; i < _k0max + 1u; ++i) {
             for (size_t j = 0; j < _k1max + 1u; ++j) {
                 if (i < 1 && j < 1) {  // top-left corner
-- 
2.43.0


From 384ff19a3ae54e4f0884fd19d4eb7b2e69d9ce96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:27 +0000
Subject: [PATCH 027/100] fix: fast sound speed grids leaked their tables and
 were printing to standard output

---
 types/data_grid_svp.h | 26 +++++---------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/types/data_grid_svp.h b/types/data_grid_svp.h
index 2a52be3..d7c5a5f 100755
--- a/types/data_grid_svp.h
+++ b/types/data_grid_svp.h
@@ -14,6 +14,7 @@
 #include <cstddef>
 #include <iterator>
 #include <memory>
+#include <vector>
 
 namespace usml {
 namespace types {
@@ -45,7 +46,6 @@ class USML_DECLSPEC data_grid_svp : public gen_grid<3> {
 
         // copy data from original grid
 
-        cout << "copy data from original grid" << endl;
         for (size_t n = 0; n < 3; ++n) {
             this->_axis[n] = grid->axis_csptr(n);
             this->_edge_limit[n] = grid->edge_limit(n);
@@ -62,13 +62,9 @@ class USML_DECLSPEC data_grid_svp : public gen_grid<3> {
         double w1, w2;
         double slope_1, slope_2;
 
-        _derv_z = new double**[_kzmax + 1u];
-        for (size_t i = 0; i < _kzmax + 1u; ++i) {
-            _derv_z[i] = new double*[_kxmax + 1u];
-            for (size_t j = 0; j < _kxmax + 1u; ++j) {
-                _derv_z[i][j] = new double[_kymax + 1u];
-            }
-        }
+        _derv_z.assign(_kzmax + 1u,
+                       std::vector<std::vector<double>>(
+                           _kxmax + 1u, std::vector<double>(_kymax + 1u)));
 
         for (size_t i = 0; i < _kzmax + 1u; ++i) {
             for (size_t j = 0; j < _kxmax + 1u; ++j) {
@@ -129,18 +125,6 @@ class USML_DECLSPEC data_grid_svp : public gen_grid<3> {
         }          // end for-loop in i
     }              // end Constructor
 
-    /**
-     * Destructor
-     */
-    ~data_grid_svp() {
-        for (size_t i = 0; i <= _kzmax; ++i) {
-            for (size_t j = 0; j <= _kxmax; ++j) {
-                delete[] _derv_z[i][j];
-            }
-            delete[] _derv_z[i];
-        }
-    }
-
     /**
      * Overrides the interpolate function within data_grid using the
      * non-recursive formula. Determines which interpolate function to based
@@ -344,7 +328,7 @@ class USML_DECLSPEC data_grid_svp : public gen_grid<3> {
      * to same time and memory.
      */
     size_t _kzmax, _kxmax, _kymax;  // max index on z-axis (depth)
-    double*** _derv_z;
+    std::vector<std::vector<std::vector<double>>> _derv_z;
 
 };  // end data_grid_svp class
 
-- 
2.43.0


From 4f921e7147631cfb4e13baa148ab8bb1a2b08dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:27 +0000
Subject: [PATCH 028/100] fix: fast sound speed grids changed the location and
 did not override interpolation

---
 types/data_grid_svp.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/types/data_grid_svp.h b/types/data_grid_svp.h
index d7c5a5f..5992e3d 100755
--- a/types/data_grid_svp.h
+++ b/types/data_grid_svp.h
@@ -10,6 +10,7 @@
 
 #include <boost/numeric/ublas/detail/iterator.hpp>
 #include <boost/numeric/ublas/matrix.hpp>
+#include <algorithm>
 #include <cmath>
 #include <cstddef>
 #include <iterator>
@@ -132,10 +133,13 @@ class USML_DECLSPEC data_grid_svp : public gen_grid<3> {
      *
      * Interpolate at a single location.
      *
-     * @param location   Location to do the interpolation at
+     * @param loc        Location to do the interpolation at
      * @param derivative Calculates first derivative if not nullptr
      */
-    double interpolate(double* location, double* derivative = nullptr) const {
+    double interpolate(const double loc[],
+                       double* derivative = nullptr) const override {
+        double location[3];  // create copy to allow updating
+        std::copy_n(loc, 3, location);
         double result = 0.0;
         size_t k0, k1, k2;  // indices of he offset data
         size_t offset[3];
-- 
2.43.0


From 556bac73d835d8f52bed4eda78a67b49c0d7fdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:27 +0000
Subject: [PATCH 029/100] fix: slope of fast sound speed grids was wrong at the
 last depth

---
 types/data_grid_svp.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/types/data_grid_svp.h b/types/data_grid_svp.h
index 5992e3d..40a1b51 100755
--- a/types/data_grid_svp.h
+++ b/types/data_grid_svp.h
@@ -88,21 +88,21 @@ class USML_DECLSPEC data_grid_svp : public gen_grid<3> {
                             result = 3.0 * slope_1;
                         }
                     } else if (i == _kzmax) {
-                        inc1 = this->axis(0).increment(i - 1);
-                        inc2 = this->axis(0).increment(i);
+                        inc1 = this->axis(0).increment(i - 2);
+                        inc2 = this->axis(0).increment(i - 1);
                         slope_1 =
                             (data_3d(i - 1, j, k) - data_3d(i - 2, j, k)) /
                             inc1;
                         slope_2 =
                             (data_3d(i, j, k) - data_3d(i - 1, j, k)) / inc2;
                         result =
-                            ((2.0 * inc1 + inc2) * slope_2 - inc1 * slope_1) /
+                            ((2.0 * inc2 + inc1) * slope_2 - inc2 * slope_1) /
                             (inc1 + inc2);
-                        if (result * slope_1 <= 0.0) {
+                        if (result * slope_2 <= 0.0) {
                             result = 0.0;
                         } else if ((slope_1 * slope_2 <= 0.0) &&
-                                   (abs(result) > abs(3.0 * slope_1))) {
-                            result = 3.0 * slope_1;
+                                   (abs(result) > abs(3.0 * slope_2))) {
+                            result = 3.0 * slope_2;
                         }
                     } else {
                         inc1 = this->axis(0).increment(i - 1);
-- 
2.43.0


From 7eea49a128935009d17e3f97b4437bb292de9837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:28 +0000
Subject: [PATCH 030/100] fix: fast sound speed grids read past the end of
 short axes

---
 types/data_grid_svp.h | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/types/data_grid_svp.h b/types/data_grid_svp.h
index 40a1b51..89dba55 100755
--- a/types/data_grid_svp.h
+++ b/types/data_grid_svp.h
@@ -70,7 +70,12 @@ class USML_DECLSPEC data_grid_svp : public gen_grid<3> {
         for (size_t i = 0; i < _kzmax + 1u; ++i) {
             for (size_t j = 0; j < _kxmax + 1u; ++j) {
                 for (size_t k = 0; k < _kymax + 1u; ++k) {
-                    if (i == 0) {
+                    if (_kzmax == 0) {  // constant
+                        result = 0.0;
+                    } else if (_kzmax == 1) {  // straight line
+                        result = (data_3d(1, j, k) - data_3d(0, j, k)) /
+                                 this->axis(0).increment(0);
+                    } else if (i == 0) {
                         inc1 = this->axis(0).increment(i);
                         inc2 = this->axis(0).increment(i + 1);
                         slope_1 =
@@ -155,9 +160,15 @@ class USML_DECLSPEC data_grid_svp : public gen_grid<3> {
         // find the interval index in each dimension
 
         for (size_t dim = 0; dim < 3; ++dim) {
-            // limit interpolation to axis domain if _edge_limit turned on
+            // short axis
 
-            if (this->edge_limit(dim)) {
+            if (this->axis(dim).size() < 2) {
+                location[dim] = this->axis(dim)(0);
+                offset[dim] = 0;
+
+                // limit interpolation to axis domain if _edge_limit turned on
+
+            } else if (this->edge_limit(dim)) {
                 double a = *(this->axis(dim).begin());
                 double b = *(this->axis(dim).rbegin());
                 double inc = this->axis(dim).increment(0);
@@ -204,6 +215,12 @@ class USML_DECLSPEC data_grid_svp : public gen_grid<3> {
         k1 = offset[1];
         k2 = offset[2];
 
+        // index of next point, limited to data on short axes
+
+        const size_t n0 = std::min(k0 + 1, _kzmax);
+        const size_t n1 = std::min(k1 + 1, _kxmax);
+        const size_t n2 = std::min(k2 + 1, _kymax);
+
         // construct the interpolated plane to which the final bi-linear
         // interpolation will happen
 
@@ -214,9 +231,11 @@ class USML_DECLSPEC data_grid_svp : public gen_grid<3> {
             for (int j = 0; j < 2; ++j) {
                 // extract data and take precautions when at boundaries of the
                 // axis
-                double v1 = data_3d(k0, k1 + i, k2 + j);
-                double v2 = data_3d(k0 + 1, k1 + i, k2 + j);
-                inc1 = this->axis(0).increment(k0);
+                const size_t m1 = (i == 0) ? k1 : n1;
+                const size_t m2 = (j == 0) ? k2 : n2;
+                double v1 = data_3d(k0, m1, m2);
+                double v2 = data_3d(n0, m1, m2);
+                inc1 = (n0 > k0) ? this->axis(0).increment(k0) : 1.0;
 
                 t = (location[0] - this->axis(0)(k0)) / inc1;
                 t_2 = t * t;
@@ -229,15 +248,15 @@ class USML_DECLSPEC data_grid_svp : public gen_grid<3> {
                 h11 = (t_3 - t_2);
 
                 interp_plane(i, j) =
-                    h00 * v1 + inc1 * h10 * _derv_z[k0][k1 + i][k2 + j] +
-                    h01 * v2 + inc1 * h11 * _derv_z[k0 + 1][k1 + i][k2 + j];
+                    h00 * v1 + inc1 * h10 * _derv_z[k0][m1][m2] +
+                    h01 * v2 + inc1 * h11 * _derv_z[n0][m1][m2];
 
                 if (derivative) {
                     dz(i, j) =
                         (6 * t_2 - 6 * t) * v1 / inc1 +
-                        (3 * t_2 - 4 * t + 1) * _derv_z[k0][k1 + i][k2 + j] +
+                        (3 * t_2 - 4 * t + 1) * _derv_z[k0][m1][m2] +
                         (6 * t - 6 * t_2) * v2 / inc1 +
-                        (3 * t_2 - 2 * t) * _derv_z[k0 + 1][k1 + i][k2 + j];
+                        (3 * t_2 - 2 * t) * _derv_z[n0][m1][m2];
                 }
             }
         }
@@ -246,10 +265,10 @@ class USML_DECLSPEC data_grid_svp : public gen_grid<3> {
         // extract data around field point
         x = location[1];
         x1 = this->axis(1)(k1);
-        x2 = this->axis(1)(k1 + 1);
+        x2 = (n1 > k1) ? this->axis(1)(n1) : x1 + 1.0;
         y = location[2];
         y1 = this->axis(2)(k2);
-        y2 = this->axis(2)(k2 + 1);
+        y2 = (n2 > k2) ? this->axis(2)(n2) : y1 + 1.0;
         f11 = interp_plane(0, 0);
         f21 = interp_plane(1, 0);
         f12 = interp_plane(0, 1);
-- 
2.43.0


From 0e6ae5ac39f5ff7d834fb8cc8b399d7ac80d3637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:27 +0000
Subject: [PATCH 031/100] fix: beam levels of rotated arrays turned the arrival
 the wrong way

bvector::rotate() goes from the axes of the rotated object to those of its
parent. An array that is turned by some yaw has to see arrivals turned by
the opposite yaw, otherwise its peak ends up on the wrong side.
---
 beampatterns/bp_model.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/beampatterns/bp_model.cc b/beampatterns/bp_model.cc
index 8c9d0c2..1f7941f 100644
--- a/beampatterns/bp_model.cc
+++ b/beampatterns/bp_model.cc
@@ -18,9 +18,10 @@ void bp_model::beam_level(const bvector& arrival, const orientation& orient,
                           const seq_vector::csptr& frequencies,
                           vector<double>* level, const bvector& steering,
                           double sound_speed) const {
-    bvector rotated;
-    rotated.rotate(orient, arrival);
-    this->beam_level(rotated, frequencies, level, steering, sound_speed);
+    // project arrival onto the axes of the rotated array
+    const vector<double> rotated = prod(trans(orient.rotation()), arrival.data());
+    this->beam_level(bvector(rotated(0), rotated(1), rotated(2)), frequencies,
+                     level, steering, sound_speed);
 }
 
 /**
-- 
2.43.0


From dc740bc7d0b5b3cb8e4cc9d8c0a45454fc8bed19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:27 +0000
Subject: [PATCH 032/100] fix: numeric directivity started from the old output
 and repeated one azimuth

The integral was accumulated on top of whatever the output vector held, and
depending on rounding the azimuth loop included both 0 and 360 degrees.
---
 beampatterns/bp_model.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/beampatterns/bp_model.cc b/beampatterns/bp_model.cc
index 1f7941f..322187f 100644
--- a/beampatterns/bp_model.cc
+++ b/beampatterns/bp_model.cc
@@ -33,10 +33,13 @@ void bp_model::directivity(const seq_vector::csptr& frequencies,
     // loop over all solid angles
 
     vector<double> beam(frequencies->size(), 0.0);
+    *level = beam;
     const double dangle = M_PI / 180.0;  // both dtheta and dphi
-    for (double az = 0.0; az <= TWO_PI; az += dangle) {
-        for (double de = -M_PI_2; de <= M_PI_2; de += dangle) {
+    for (int az_deg = 0; az_deg < 360; ++az_deg) {
+        const double az = az_deg * dangle;
+        for (int de_deg = -90; de_deg <= 90; ++de_deg) {
             // compute angle terms
+            const double de = de_deg * dangle;
             const double cos_de = cos(de);
             const double sin_de = sin(de);
             const double cos_az = cos(az);
-- 
2.43.0


From c9f4c48870561c6060076af51276ccee427b3956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:27 +0000
Subject: [PATCH 033/100] fix: sum of beam patterns was too large by one

---
 beampatterns/bp_multi.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beampatterns/bp_multi.cc b/beampatterns/bp_multi.cc
index 16e0198..82a8252 100755
--- a/beampatterns/bp_multi.cc
+++ b/beampatterns/bp_multi.cc
@@ -17,7 +17,8 @@ void bp_multi::beam_level(const bvector& arrival,
                           vector<double>* level, const bvector& steering,
                           double sound_speed) const {
     vector<double> tmp(frequencies->size(), 1.0);
-    *level = vector<double>(frequencies->size(), 1.0);
+    *level = vector<double>(frequencies->size(),
+                            (_type == bp_multi_type::sum) ? 0.0 : 1.0);
 
     for (const auto& pattern : _bp_list) {
         pattern->beam_level(arrival, frequencies, &tmp, steering, sound_speed);
-- 
2.43.0


From c7da1ed47dbff3519a6c1d2038df21ca4aee4fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:27 +0000
Subject: [PATCH 034/100] fix: azimuths of solid angle patterns were not
 wrapped below -180 degrees

---
 beampatterns/bp_gaussian.cc | 2 +-
 beampatterns/bp_solid.cc    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beampatterns/bp_gaussian.cc b/beampatterns/bp_gaussian.cc
index 727e5a3..7a4b2e9 100644
--- a/beampatterns/bp_gaussian.cc
+++ b/beampatterns/bp_gaussian.cc
@@ -34,7 +34,7 @@ void bp_gaussian::beam_level(const bvector& arrival,
     if (_horz_half < 180.0) {
         az = atan2(steering.front(), steering.right());
         az = to_degrees(atan2(arrival.front(), arrival.right()) - az);
-        az = abs(fmod(az + 180.0, 360.0) - 180);
+        az = abs(remainder(az, 360.0));
         az /= (_horz_half * 2.0);
     }
 
diff --git a/beampatterns/bp_solid.cc b/beampatterns/bp_solid.cc
index 6047f28..7851c0e 100644
--- a/beampatterns/bp_solid.cc
+++ b/beampatterns/bp_solid.cc
@@ -27,7 +27,7 @@ void bp_solid::beam_level(const bvector& arrival,
     double az = atan2(steering.front(), steering.right());
     de = abs(to_degrees(asin(arrival.up()) - de));
     az = to_degrees(atan2(arrival.front(), arrival.right()) - az);
-    az = abs(fmod(az + 180.0, 360.0) - 180);
+    az = abs(remainder(az, 360.0));
     const double value = (de <= _vert_half && az <= _horz_half) ? 1.0 : 0.0;
     noalias(*level) = scalar_vector<double>(frequencies->size(), value);
 }
-- 
2.43.0


From 8c85396e58e9019c85870d1d0c4f4efc113bd8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:27 +0000
Subject: [PATCH 035/100] fix: beam levels were not a number for axes rounded
 to more than one

Unit vectors that come out of a rotation can have components that are
larger than one by the last bit.
---
 beampatterns/bp_gaussian.cc | 4 ++--
 beampatterns/bp_grid.cc     | 3 ++-
 beampatterns/bp_piston.cc   | 4 +++-
 beampatterns/bp_solid.cc    | 6 +++---
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/beampatterns/bp_gaussian.cc b/beampatterns/bp_gaussian.cc
index 7a4b2e9..0f2cf76 100644
--- a/beampatterns/bp_gaussian.cc
+++ b/beampatterns/bp_gaussian.cc
@@ -25,8 +25,8 @@ void bp_gaussian::beam_level(const bvector& arrival,
                              double /*sound_speed*/) const {
     double de = 0.0;
     if (_vert_half < 90.0) {
-        de = asin(steering.up());
-        de = abs(to_degrees(asin(arrival.up()) - de));
+        de = asin(max(-1.0, min(1.0, steering.up())));
+        de = abs(to_degrees(asin(max(-1.0, min(1.0, arrival.up()))) - de));
         de /= (_vert_half * 2.0);
     }
 
diff --git a/beampatterns/bp_grid.cc b/beampatterns/bp_grid.cc
index 3792b61..a60d6ec 100644
--- a/beampatterns/bp_grid.cc
+++ b/beampatterns/bp_grid.cc
@@ -6,6 +6,7 @@
 #include <usml/beampatterns/bp_grid.h>
 #include <usml/ublas/math_traits.h>
 
+#include <algorithm>
 #include <cmath>
 #include <memory>
 
@@ -20,7 +21,7 @@ void bp_grid::beam_level(const bvector& arrival,
                          vector<double>* level, const bvector& /* steering */,
                          double /* sound_speed */) const {
     double location[3];
-    location[1] = to_degrees(asin(arrival.up()));
+    location[1] = to_degrees(asin(std::max(-1.0, std::min(1.0, arrival.up()))));
     location[2] = to_degrees(atan2(arrival.right(), arrival.front()));
     for (int f = 0; f < frequencies->size(); ++f) {
         location[0] = (*frequencies)[f];
diff --git a/beampatterns/bp_piston.cc b/beampatterns/bp_piston.cc
index fb6b286..cc42e47 100644
--- a/beampatterns/bp_piston.cc
+++ b/beampatterns/bp_piston.cc
@@ -8,6 +8,7 @@
 #include <usml/types/seq_vector.h>
 
 #include <boost/numeric/ublas/vector.hpp>
+#include <algorithm>
 #include <cmath>
 #include <memory>
 
@@ -30,7 +31,8 @@ void bp_piston::beam_level(const bvector& arrival,
     }
 
     // analytic solution for beam pattern
-    const double sinA = sqrt(1.0 - arrival.front() * arrival.front());
+    const double sinA =
+        sqrt(std::max(0.0, 1.0 - arrival.front() * arrival.front()));
     for (int i = 0; i < frequencies->size(); i++) {
         const double f = (*frequencies)(i);
         const double P1 = M_PI * _diameter / (sound_speed / f) * sinA + 1e-17;
diff --git a/beampatterns/bp_solid.cc b/beampatterns/bp_solid.cc
index 7851c0e..7df8936 100644
--- a/beampatterns/bp_solid.cc
+++ b/beampatterns/bp_solid.cc
@@ -23,9 +23,9 @@ void bp_solid::beam_level(const bvector& arrival,
                           const seq_vector::csptr& frequencies,
                           vector<double>* level, const bvector& steering,
                           double /*sound_speed*/) const {
-    double de = asin(steering.up());
+    double de = asin(max(-1.0, min(1.0, steering.up())));
     double az = atan2(steering.front(), steering.right());
-    de = abs(to_degrees(asin(arrival.up()) - de));
+    de = abs(to_degrees(asin(max(-1.0, min(1.0, arrival.up()))) - de));
     az = to_degrees(atan2(arrival.front(), arrival.right()) - az);
     az = abs(remainder(az, 360.0));
     const double value = (de <= _vert_half && az <= _horz_half) ? 1.0 : 0.0;
@@ -38,7 +38,7 @@ void bp_solid::beam_level(const bvector& arrival,
 void bp_solid::directivity(const seq_vector::csptr& frequencies,
                            vector<double>* level, const bvector& steering,
                            double /*sound_speed*/) const {
-    const double de = to_degrees(asin(steering.up()));
+    const double de = to_degrees(asin(max(-1.0, min(1.0, steering.up()))));
     const double diff =
         min(90.0, de + _vert_half) - max(-90.0, de - _vert_half);
     const double value = diff * _horz_half / (180.0 * 360.0 / 2.0);
-- 
2.43.0


From 1793023324fbafdcbe6d8cb6db9176277f2a60c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:27 +0000
Subject: [PATCH 036/100] fix: baffled beam patterns kept invalid values of the
 output vector

Multiplying by zero does not clear values that are not a number.
---
 beampatterns/bp_arb.cc    | 2 +-
 beampatterns/bp_piston.cc | 2 +-
 beampatterns/bp_planar.cc | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/beampatterns/bp_arb.cc b/beampatterns/bp_arb.cc
index f93ca3a..c3fa8b3 100644
--- a/beampatterns/bp_arb.cc
+++ b/beampatterns/bp_arb.cc
@@ -23,7 +23,7 @@ void bp_arb::beam_level(const bvector& arrival,
 
     if (_back_baffle) {
         if (arrival.front() <= 0.0) {
-            *level *= 0.0;
+            *level = zero_vector<double>(frequencies->size());
             return;
         }
     }
diff --git a/beampatterns/bp_piston.cc b/beampatterns/bp_piston.cc
index cc42e47..378bc25 100644
--- a/beampatterns/bp_piston.cc
+++ b/beampatterns/bp_piston.cc
@@ -25,7 +25,7 @@ void bp_piston::beam_level(const bvector& arrival,
     // set gain to zero in backplane when baffle is on
     if (_back_baffle) {
         if (arrival.front() <= 0.0) {
-            *level *= 0.0;
+            *level = zero_vector<double>(frequencies->size());
             return;
         }
     }
diff --git a/beampatterns/bp_planar.cc b/beampatterns/bp_planar.cc
index 6f965d8..f171e52 100644
--- a/beampatterns/bp_planar.cc
+++ b/beampatterns/bp_planar.cc
@@ -41,7 +41,7 @@ void bp_planar::beam_level(const bvector& arrival,
     // set gain to zero in backplane when baffle is on
     if (_back_baffle) {
         if (arrival.front() <= 0.0) {
-            *level *= 0.0;
+            *level = zero_vector<double>(frequencies->size());
             return;
         }
     }
-- 
2.43.0


From 024501263d86d76917fce6af16f07cc3555b56e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:27 +0000
Subject: [PATCH 037/100] fix: directivity of pistons did not follow its
 formula

The documented directivity gain is (lambda/(pi D))^2. This is the average of
the response when it radiates to the front only, without baffle there is a
second main lobe to the back.
---
 beampatterns/bp_piston.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/beampatterns/bp_piston.cc b/beampatterns/bp_piston.cc
index 378bc25..7d32c75 100644
--- a/beampatterns/bp_piston.cc
+++ b/beampatterns/bp_piston.cc
@@ -48,8 +48,9 @@ void bp_piston::directivity(const seq_vector::csptr& frequencies,
                             vector<double>* level, const bvector& /*steering*/,
                             double sound_speed) const {
     *level = frequencies->data();
-    *level /= (sound_speed * M_PI * _diameter);
-    if (_back_baffle) {
-        *level *= 0.5;
+    *level *= M_PI * _diameter / sound_speed;
+    *level = 1.0 / abs2(*level);
+    if (!_back_baffle) {
+        *level *= 2.0;
     }
 }
-- 
2.43.0


From ba16aa198d90b2606961201182f006698452b05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:49 +0000
Subject: [PATCH 038/100] fix: line and planar array levels were wrong at
 grating lobes

Both sines of the closed form are near zero at multiples of pi, where their
ratio was dominated by the rounding of their arguments. Levels could be
far from one, including more than one, at and around every grating lobe.
---
 beampatterns/bp_line.cc   | 1 +
 beampatterns/bp_planar.cc | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/beampatterns/bp_line.cc b/beampatterns/bp_line.cc
index a0affe4..fca32c7 100644
--- a/beampatterns/bp_line.cc
+++ b/beampatterns/bp_line.cc
@@ -19,6 +19,7 @@ void bp_line::beam_level(const bvector& arrival,
                            : arrival.up() - steering.up();
     *level = frequencies->data();
     *level *= M_PI * _spacing / sound_speed * dot;
+    *level -= M_PI * floor(*level / M_PI + 0.5);  // avoid rounding at grating lobes
     *level = abs2(element_div(sin(_num_elements * (*level)) + 1e-200,
                               sin(*level) * _num_elements + 1e-200));
 }
diff --git a/beampatterns/bp_planar.cc b/beampatterns/bp_planar.cc
index f171e52..9efb8e2 100644
--- a/beampatterns/bp_planar.cc
+++ b/beampatterns/bp_planar.cc
@@ -50,6 +50,7 @@ void bp_planar::beam_level(const bvector& arrival,
     double dot = arrival.up() - steering.up();
     vector<double> kd = frequencies->data();
     kd *= M_PI * _spacing_up / sound_speed * dot;
+    kd -= M_PI * floor(kd / M_PI + 0.5);  // avoid rounding at grating lobes
     *level = abs2(element_div(sin(_num_elem_up * kd) + 1e-200,
                               sin(kd) * _num_elem_up + 1e-200));
 
@@ -57,6 +58,7 @@ void bp_planar::beam_level(const bvector& arrival,
     dot = arrival.right() - steering.right();
     kd = frequencies->data();
     kd *= M_PI * _spacing_right / sound_speed * dot;
+    kd -= M_PI * floor(kd / M_PI + 0.5);  // avoid rounding at grating lobes
     *level = element_prod(
         *level, abs2(element_div(sin(_num_elem_right * kd) + 1e-200,
                                  sin(kd) * _num_elem_right + 1e-200)));
-- 
2.43.0


From e89c6d6aeb3ad8363137de723c414e656721c713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:49 +0000
Subject: [PATCH 039/100] fix: Kaiser windows were not symmetric and short
 windows not finite

The Kaiser window is I0(beta sqrt(1-((n-M)/M)^2))/I0(beta), the square was
missing. All but the boxcar window divided by zero for one sample.
---
 transmit/window.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transmit/window.h b/transmit/window.h
index 38444cf..563b76b 100755
--- a/transmit/window.h
+++ b/transmit/window.h
@@ -73,6 +73,7 @@ class USML_DECLSPEC window {
      * @return		Vector of window samples.
      */
     static vector<double> hann(size_t N) {
+        if (N == 1) return boxcar(N);
         const double M = N - 1;
         const vector<double> x = seq_linear(0.0, 1.0, N).data();
         return 0.5 * (1.0 - cos((TWO_PI / M) * x));
@@ -85,6 +86,7 @@ class USML_DECLSPEC window {
      * @return		Vector of window samples.
      */
     static vector<double> hamming(size_t N) {
+        if (N == 1) return boxcar(N);
         const int M = N - 1;
         const vector<double> x = seq_linear(0.0, 1.0, N).data();
         return 0.54 - 0.46 * cos((TWO_PI / M) * x);
@@ -98,10 +100,12 @@ class USML_DECLSPEC window {
      * @return			Vector of window samples.
      */
     static vector<double> kaiser(size_t N, double beta) {
+        if (N == 1) return boxcar(N);
         const double M = (N - 1.0) / 2.0;
         vector<double> x = seq_linear(0.0, 1.0, N).data();
         for (int n = 0; n < x.size(); ++n) {
-            x[n] = std::cyl_bessel_i(0.0, beta * sqrt(1.0 - (x[n] - M) / M)) /
+            const double r = (x[n] - M) / M;
+            x[n] = std::cyl_bessel_i(0.0, beta * sqrt(1.0 - r * r)) /
                    std::cyl_bessel_i(0.0, beta);
         }
         return x;
-- 
2.43.0


From a9f38bee021b14ec28c2a485de08e54732e36ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:59 +0000
Subject: [PATCH 040/100] fix: transmit signals had their real and imaginary
 parts swapped

The documented waveform is exp(i phase) but usml::ublas::asignal() returns
(sin,cos), which turns the spectrum of the basebanded signal around.
---
 transmit/transmit_cw.cc  | 6 +++++-
 transmit/transmit_lfm.cc | 8 ++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/transmit/transmit_cw.cc b/transmit/transmit_cw.cc
index 06245ca..127cff0 100755
--- a/transmit/transmit_cw.cc
+++ b/transmit/transmit_cw.cc
@@ -12,6 +12,7 @@
 #include <boost/numeric/ublas/vector.hpp>
 #include <boost/numeric/ublas/vector_expression.hpp>
 #include <cmath>
+#include <complex>
 
 using namespace usml::transmit;
 
@@ -37,7 +38,10 @@ cdvector transmit_cw::asignal(double fsample, double fband, double inphase,
         *outphase = fmod(omega * T + inphase, TWO_PI);
     }
     vector<double> t = seq_linear(0.0, 1.0 / fsample, N).data();
-    cdvector signal = usml::ublas::asignal(omega * t + inphase);
+    cdvector signal(t.size());
+    for (size_t n = 0; n < t.size(); ++n) {
+        signal[n] = std::polar(1.0, omega * t[n] + inphase);
+    }
     add_window(signal);
     return signal;
 }
diff --git a/transmit/transmit_lfm.cc b/transmit/transmit_lfm.cc
index f48da4c..2cff0c9 100644
--- a/transmit/transmit_lfm.cc
+++ b/transmit/transmit_lfm.cc
@@ -12,6 +12,7 @@
 #include <boost/numeric/ublas/vector.hpp>
 #include <boost/numeric/ublas/vector_expression.hpp>
 #include <cmath>
+#include <complex>
 
 using namespace usml::transmit;
 
@@ -40,8 +41,11 @@ cdvector transmit_lfm::asignal(double fsample, double fband, double inphase,
         *outphase = fmod(slope * T * T + omega * T + inphase, TWO_PI);
     }
     vector<double> t = seq_linear(0.0, 1.0 / fsample, N).data();
-    cdvector signal = usml::ublas::asignal(slope * usml::ublas::abs2(t) +
-                                           omega * t + inphase);
+    cdvector signal(t.size());
+    for (size_t n = 0; n < t.size(); ++n) {
+        signal[n] =
+            std::polar(1.0, slope * t[n] * t[n] + omega * t[n] + inphase);
+    }
     add_window(signal);
     return signal;
 }
-- 
2.43.0


From 3985a3c39972c8f4111f1bd801a622044463f9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:26 +0000
Subject: [PATCH 041/100] fix: totals of targets without eigenrays were not a
 number

---
 eigenrays/eigenray_collection.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eigenrays/eigenray_collection.cc b/eigenrays/eigenray_collection.cc
index 0f2ec9a..7cd247a 100644
--- a/eigenrays/eigenray_collection.cc
+++ b/eigenrays/eigenray_collection.cc
@@ -174,6 +174,7 @@ void eigenray_collection::sum_eigenrays() {
 
             // weighted average of other eigenray terms
 
+            if (wgt == 0.0) wgt = 1.0;  // no paths to this target
             total.travel_time = time / wgt;
             total.source_de = source_de / wgt;
             total.source_az =
-- 
2.43.0


From 3fbbf4a864eb9a8f0e2717bb2d132f49ed12bc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:26 +0000
Subject: [PATCH 042/100] fix: incoherent eigenray totals added amplitudes
 instead of powers

Two equal paths add up to 3 dB when their phases are unknown. Adding their
amplitudes gave 6 dB, which is the coherent sum of paths in phase.
---
 eigenrays/eigenray_collection.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eigenrays/eigenray_collection.cc b/eigenrays/eigenray_collection.cc
index 7cd247a..dd7e5b4 100644
--- a/eigenrays/eigenray_collection.cc
+++ b/eigenrays/eigenray_collection.cc
@@ -142,7 +142,7 @@ void eigenray_collection::sum_eigenrays() {
                         std::complex<double> value(a * cos(p), a * sin(p));
                         phasor += value;
                     } else {
-                        phasor += a;
+                        phasor += a * a;  // sum of powers
                     }
 
                     // other eigenray terms
@@ -168,6 +168,10 @@ void eigenray_collection::sum_eigenrays() {
 
                 // convert back into intensity (dB) and phase (radians) values
 
+                if (!_coherent) {
+                    phasor = sqrt(phasor);
+                }
+
                 total.intensity(f) = -20.0 * log10(max(1e-15, abs(phasor)));
                 total.phase(f) = arg(phasor);
             }  // end frequency
-- 
2.43.0


From 5e029469202f2e127de9b0376504becf2d9f179c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:26 +0000
Subject: [PATCH 043/100] fix: dead reckoned eigenrays used the wrong direction

Travel time and spreading increased when the source moved towards the
target, and the motion of the target was compared to the direction of the
ray at the source.
---
 eigenrays/eigenray_collection.cc | 18 +++++++++++-------
 eigenrays/eigenray_collection.h  |  4 +++-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/eigenrays/eigenray_collection.cc b/eigenrays/eigenray_collection.cc
index dd7e5b4..b16d2f4 100644
--- a/eigenrays/eigenray_collection.cc
+++ b/eigenrays/eigenray_collection.cc
@@ -367,9 +367,10 @@ eigenray_list eigenray_collection::dead_reckon(
     size_t t1, size_t t2, const wposition1 &source_new,
     const wposition1 &target_new, const profile_model::csptr &profile) const {
     eigenray_list eigenrays =
-        dead_reckon_one(_eigenrays(t1, t2), _source_pos, source_new, profile);
+        dead_reckon_one(_eigenrays(t1, t2), _source_pos, source_new, profile,
+                        false);
     return dead_reckon_one(eigenrays, wposition1(_target_pos, t1, t2),
-                           target_new, profile);
+                           target_new, profile, true);
 }
 
 /**
@@ -377,7 +378,8 @@ eigenray_list eigenray_collection::dead_reckon(
  */
 eigenray_list eigenray_collection::dead_reckon_one(
     const eigenray_list &eigenrays, const wposition1 &oldpos,
-    const wposition1 &newpos, const profile_model::csptr &profile) {
+    const wposition1 &newpos, const profile_model::csptr &profile,
+    bool target) {
     // compute position change in local tangent plane
 
     double dir[3] = {newpos.rho() - oldpos.rho(),
@@ -410,8 +412,8 @@ eigenray_list eigenray_collection::dead_reckon_one(
 
         // compute ray direction in local tangent plane
 
-        const double de = to_radians(ray->source_de);
-        const double az = to_radians(ray->source_az);
+        const double de = to_radians(target ? ray->target_de : ray->source_de);
+        const double az = to_radians(target ? ray->target_az : ray->source_az);
         const double cos_de = cos(de);
         const double sin_de = sin(de);
         const double cos_az = cos(az);
@@ -419,10 +421,12 @@ eigenray_list eigenray_collection::dead_reckon_one(
         const double raydir[3] = {sin_de, -cos_de * cos_az, cos_de * sin_az};
 
         // change in range is proportional to the component of
-        // slant range along the direction of the ray
+        // slant range along the direction of the ray, moving the source
+        // along the ray makes the path shorter
 
         const double dr =
-            (dir[0] * raydir[0] + dir[1] * raydir[1] + dir[2] * raydir[2]);
+            (dir[0] * raydir[0] + dir[1] * raydir[1] + dir[2] * raydir[2]) *
+            (target ? 1.0 : -1.0);
         new_ray->travel_time = ray->travel_time + dr / sound_speed;
 
         // compute change in intensity along ray path
diff --git a/eigenrays/eigenray_collection.h b/eigenrays/eigenray_collection.h
index 90380f5..41e4327 100644
--- a/eigenrays/eigenray_collection.h
+++ b/eigenrays/eigenray_collection.h
@@ -272,6 +272,7 @@ class USML_DECLSPEC eigenray_collection : public eigenray_listener {
      * @param oldpos    Original sensor location.
      * @param newpos    Updated sensor location.
      * @param profile   Ocean profile model used to extract sound speed.
+     * @param target    True if target moves, false if source moves.
      *
      * @xref E. K. Skarsoullis, "Multi-section matched-peak tomographic
      * inversion with a moving source", J. Acoust. Soc. Am.
@@ -280,7 +281,8 @@ class USML_DECLSPEC eigenray_collection : public eigenray_listener {
     static eigenray_list dead_reckon_one(const eigenray_list &eigenrays,
                                          const wposition1 &oldpos,
                                          const wposition1 &newpos,
-                                         const profile_model::csptr &profile);
+                                         const profile_model::csptr &profile,
+                                         bool target);
 };
 
 /// @}
-- 
2.43.0


From be015525ce1442a9f65d30bb6250e0ed2222d84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:26 +0000
Subject: [PATCH 044/100] fix: dead reckoning of eigenrays across the date line
 went around the world

---
 eigenrays/eigenray_collection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eigenrays/eigenray_collection.cc b/eigenrays/eigenray_collection.cc
index b16d2f4..7c1c957 100644
--- a/eigenrays/eigenray_collection.cc
+++ b/eigenrays/eigenray_collection.cc
@@ -384,7 +384,7 @@ eigenray_list eigenray_collection::dead_reckon_one(
 
     double dir[3] = {newpos.rho() - oldpos.rho(),
                      newpos.theta() - oldpos.theta(),
-                     newpos.phi() - oldpos.phi()};
+                     remainder(newpos.phi() - oldpos.phi(), TWO_PI)};
     dir[1] *= oldpos.rho();
     dir[2] *= oldpos.rho() * sin(oldpos.theta());
 
-- 
2.43.0


From 3772d1a6214001ad0be527ff9a4d2f7272ba2085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:52 +0000
Subject: [PATCH 045/100] fix: Rayleigh bottom reflection phase used reciprocal
 impedances and was off by 180 degrees

---
 ocean/reflect_loss_rayleigh.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocean/reflect_loss_rayleigh.cc b/ocean/reflect_loss_rayleigh.cc
index bcafc88..b442f3c 100644
--- a/ocean/reflect_loss_rayleigh.cc
+++ b/ocean/reflect_loss_rayleigh.cc
@@ -112,9 +112,10 @@ void reflect_loss_rayleigh::reflect_loss(const wposition1& /*location*/,
         Zb = 1.0 / ((1.0 / Zb) * cos2As * cos2As + Zs * sin2As * sin2As);
     }
 
-    // compute complex reflection coefficient
+    // compute complex reflection coefficient, Zb and Zw are the
+    // reciprocals of the impedances
 
-    complex<double> R = (Zb - Zw) / (Zb + Zw);
+    complex<double> R = (Zw - Zb) / (Zw + Zb);
     noalias(*amplitude) =
         -20.0 * log10(abs(R)) * scalar_vector<double>(frequencies->size(), 1.0);
     if (phase != nullptr) {
-- 
2.43.0


From dc9dc0ec0d2af602021f54fdaa3d6843633b0a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:34 +0000
Subject: [PATCH 046/100] fix: sloped boundaries kept a reference to the
 caller's location

---
 ocean/boundary_slope.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocean/boundary_slope.h b/ocean/boundary_slope.h
index e522a7b..1fc714b 100644
--- a/ocean/boundary_slope.h
+++ b/ocean/boundary_slope.h
@@ -81,7 +81,7 @@ class USML_DECLSPEC boundary_slope : public boundary_model {
 
    private:
     /** Location at which initial depth and slope are specified. */
-    const wposition1& _location;
+    const wposition1 _location;
 
     /** Surface height in spherical earth coords. */
     const double _height;
-- 
2.43.0


From ea688d49feab956d7ccb56bde26d0b9d78ddf423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:34 +0000
Subject: [PATCH 047/100] fix: gridded profiles left old values in the
 horizontal sound speed gradient

---
 ocean/profile_grid.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocean/profile_grid.h b/ocean/profile_grid.h
index 2194e53..84248ef 100644
--- a/ocean/profile_grid.h
+++ b/ocean/profile_grid.h
@@ -75,6 +75,7 @@ class profile_grid : public profile_model {
                 if (gradient) {
                     matrix<double> rho(location.size1(), location.size2());
                     _sound_speed->interpolate(location.rho(), speed, &rho);
+                    gradient->clear();
                     gradient->rho(rho);
                 } else {
                     _sound_speed->interpolate(location.rho(), speed);
@@ -90,6 +91,7 @@ class profile_grid : public profile_model {
                     matrix<double> theta(location.size1(), location.size2());
                     _sound_speed->interpolate(location.rho(), location.theta(),
                                               speed, &rho, &theta);
+                    gradient->clear();
                     gradient->rho(rho);
                     gradient->theta(theta);
                 } else {
-- 
2.43.0


From af69abc3d1f7b15f3074a11a633c68095dc79ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:34 +0000
Subject: [PATCH 048/100] fix: flat earth option did not adjust the horizontal
 sound speed gradient

---
 ocean/profile_model.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ocean/profile_model.cc b/ocean/profile_model.cc
index 97aab58..348d139 100644
--- a/ocean/profile_model.cc
+++ b/ocean/profile_model.cc
@@ -20,6 +20,12 @@ void profile_model::adjust_speed(const wposition& location,
                 (element_prod(gradient->rho(), location.rho()) + *speed) /
                     wposition::earth_radius,
                 false);
+            gradient->theta(element_prod(gradient->theta(), location.rho()) /
+                                wposition::earth_radius,
+                            false);
+            gradient->phi(element_prod(gradient->phi(), location.rho()) /
+                              wposition::earth_radius,
+                          false);
         }
         *speed = element_prod(*speed, location.rho()) / wposition::earth_radius;
     }
-- 
2.43.0


From 88fd62ab483da5b597ad57eeaebbbb5510468b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:55 +0000
Subject: [PATCH 049/100] fix: text profiles with blank lines or bad numbers
 stored uninitialized values

---
 ocean/ascii_profile.cc | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/ocean/ascii_profile.cc b/ocean/ascii_profile.cc
index 88c8ad0..42c17cc 100644
--- a/ocean/ascii_profile.cc
+++ b/ocean/ascii_profile.cc
@@ -13,7 +13,9 @@
 #include <fstream>
 #include <iostream>
 #include <memory>
+#include <stdexcept>
 #include <string>
+#include <vector>
 
 using namespace usml::ocean;
 
@@ -21,13 +23,18 @@ using namespace usml::ocean;
  * Read a 1-D profile from a text file.
  */
 ascii_profile::ascii_profile(const char *filename) {
-    // count the number of lines in the input file
+    // count the number of lines in the input file, ignoring blank lines
 
     std::ifstream infile(filename);
     size_t size = 0;
     std::string line;
     while (getline(infile, line)) {
-        ++size;
+        if (line.find_first_not_of(" \t\r") != std::string::npos) {
+            ++size;
+        }
+    }
+    if (size == 0) {
+        throw std::invalid_argument("profile file missing or empty");
     }
     infile.clear();
     infile.seekg(0);
@@ -35,8 +42,8 @@ ascii_profile::ascii_profile(const char *filename) {
     // read data from input file
 
     double depth;
-    auto *height = new double[size];
-    auto *speed = new double[size];
+    std::vector<double> height(size);
+    std::shared_ptr<double[]> speed(new double[size]);
     int c;
     for (size_t n = 0; n < size; ++n) {
         infile >> depth;
@@ -48,14 +55,16 @@ ascii_profile::ascii_profile(const char *filename) {
             infile.get();
         }
         infile >> speed[n];
+        if (infile.fail()) {
+            throw std::invalid_argument("malformed profile file");
+        }
         height[n] = wposition::earth_radius - depth;
     }
 
     // load into data_grid variables
 
-    this->_axis[0] = seq_vector::csptr(new seq_data(height, size));
-    this->_data = std::shared_ptr<const double[]>(speed);
-    delete[] height;
+    this->_axis[0] = seq_vector::csptr(new seq_data(height.data(), size));
+    this->_data = speed;
 
     // set interp type and edge limit
 
-- 
2.43.0


From 1c510c8b96912c736a39d02860dc04f0a0f4968c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:22 +0000
Subject: [PATCH 050/100] fix: missing or truncated text bathymetry read
 uninitialized sizes and depths

---
 ocean/ascii_arc_bathy.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ocean/ascii_arc_bathy.cc b/ocean/ascii_arc_bathy.cc
index 438a937..8ae050c 100644
--- a/ocean/ascii_arc_bathy.cc
+++ b/ocean/ascii_arc_bathy.cc
@@ -13,6 +13,8 @@
 #include <fstream>
 #include <iostream>
 #include <memory>
+#include <stdexcept>
+#include <string>
 
 using namespace usml::ocean;
 using namespace usml::types;
@@ -27,7 +29,7 @@ ascii_arc_bathy::ascii_arc_bathy(const char* filename) {
     double yllcorner;
     double cellsize;
     double nodata_value;
-    static char label[80];
+    std::string label;
     const auto R = (double)wposition::earth_radius;
 
     std::ifstream fi(filename);
@@ -41,6 +43,9 @@ ascii_arc_bathy::ascii_arc_bathy(const char* filename) {
     fi >> label >> yllcorner;
     fi >> label >> cellsize;
     fi >> label >> nodata_value;
+    if (fi.fail() || ncols < 1 || nrows < 1) {
+        throw std::invalid_argument("bathymetry file missing or malformed");
+    }
 
     // construct latitude and longitude axes in spherical coordinates
     // note that axis[0] starts in the south and moves north
@@ -54,7 +59,7 @@ ascii_arc_bathy::ascii_arc_bathy(const char* filename) {
     // read depths and convert to rho coordinate of spherical earth system
     // flip latitude direction upside down during the read.
 
-    auto* data = new double[ncols * nrows];
+    std::shared_ptr<double[]> data(new double[ncols * nrows]);
     for (int r = 0; r < nrows; ++r) {
         double* ptr = &(data[r * ncols]);
         for (int c = 0; c < ncols; ++c) {
@@ -62,7 +67,10 @@ ascii_arc_bathy::ascii_arc_bathy(const char* filename) {
             *(ptr++) += R;
         }
     }
-    this->_writeable_data = std::shared_ptr<double[]>(data);
+    if (fi.fail()) {
+        throw std::invalid_argument("bathymetry file missing or malformed");
+    }
+    this->_writeable_data = data;
     this->_data = this->_writeable_data;  // read only reference
 
     // set interp type and edge limit
-- 
2.43.0


From 276039c1f4889382602d63eebb623d1f3f818dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:07 +0000
Subject: [PATCH 051/100] fix: short text profiles and bathymetry were
 interpolated outside of their data

---
 ocean/ascii_arc_bathy.cc | 2 +-
 ocean/ascii_profile.cc   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocean/ascii_arc_bathy.cc b/ocean/ascii_arc_bathy.cc
index 8ae050c..4c27ac0 100644
--- a/ocean/ascii_arc_bathy.cc
+++ b/ocean/ascii_arc_bathy.cc
@@ -76,7 +76,7 @@ ascii_arc_bathy::ascii_arc_bathy(const char* filename) {
     // set interp type and edge limit
 
     for (size_t n = 0; n < 2; ++n) {
-        this->_interp_type[n] = interp_enum::pchip;
+        this->interp_type(n, interp_enum::pchip);
         this->_edge_limit[n] = true;
     }
 }
diff --git a/ocean/ascii_profile.cc b/ocean/ascii_profile.cc
index 42c17cc..636a8f7 100644
--- a/ocean/ascii_profile.cc
+++ b/ocean/ascii_profile.cc
@@ -68,6 +68,6 @@ ascii_profile::ascii_profile(const char *filename) {
 
     // set interp type and edge limit
 
-    this->_interp_type[0] = interp_enum::pchip;
+    this->interp_type(0, interp_enum::pchip);
     this->_edge_limit[0] = true;
 }
-- 
2.43.0


From 6cd8a4749f16315cbf66ae40797d214fe8a51f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:06 +0000
Subject: [PATCH 052/100] fix: tasks created at the same time could get the
 same identifier

---
 threads/thread_task.cc | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/threads/thread_task.cc b/threads/thread_task.cc
index 2dbd9c7..7532298 100755
--- a/threads/thread_task.cc
+++ b/threads/thread_task.cc
@@ -23,12 +23,7 @@ std::atomic<std::size_t> thread_task::_num_active = 0;
  */
 thread_task::thread_task() {
     _abort = false;
-    _id = _id_next;
-    if (_id_next == std::numeric_limits<std::size_t>::max()) {
-        _id_next = 0;
-    } else {
-        ++_id_next;
-    }
+    _id = _id_next++;  // wraps around to zero at the max size of size_t
     ++_num_active;
 }
 
-- 
2.43.0


From 9f4357349cbe51ac72d826af8e1d6a2c0fb2e6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:06 +0000
Subject: [PATCH 053/100] fix: abort and done flags of tasks were shared
 between threads without synchronization

---
 threads/thread_task.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/threads/thread_task.h b/threads/thread_task.h
index 5bf92ca..927e552 100755
--- a/threads/thread_task.h
+++ b/threads/thread_task.h
@@ -121,10 +121,10 @@ class USML_DECLSPEC thread_task {
 
    protected:
     /// Indication that task needs to abort.
-    bool _abort;
+    std::atomic<bool> _abort;
 
     /// Set to true when this task complete.
-    bool _done{false};
+    std::atomic<bool> _done{false};
 
    private:
     /**
-- 
2.43.0


From a0ba5ee618cd1f682ad3edcea75a0ee819f022bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:06 +0000
Subject: [PATCH 054/100] fix: destroying a thread pool dead locked with its
 idle workers

---
 threads/thread_pool.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/threads/thread_pool.cc b/threads/thread_pool.cc
index 21278a7..3dd8d5f 100644
--- a/threads/thread_pool.cc
+++ b/threads/thread_pool.cc
@@ -59,7 +59,6 @@ thread_pool::thread_pool(unsigned num_threads) {
  * Stop the scheduler and terminate the threads used to execute tasks.
  */
 thread_pool::~thread_pool() {
-    write_lock_guard guard(_task_mutex);
     this->_running = false;
     for (auto& thread : _thread_list) {
         thread.join();
-- 
2.43.0


From 0f1368620ab85d26edca7852b87cfd84074aa847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:21 +0000
Subject: [PATCH 055/100] fix: tasks dropped before they ran were counted as
 active forever

---
 threads/thread_pool.cc |  7 +++++++
 threads/thread_task.cc |  2 +-
 threads/thread_task.h  | 15 ++++++++++++++-
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/threads/thread_pool.cc b/threads/thread_pool.cc
index 3dd8d5f..5e25c5c 100644
--- a/threads/thread_pool.cc
+++ b/threads/thread_pool.cc
@@ -63,6 +63,13 @@ thread_pool::~thread_pool() {
     for (auto& thread : _thread_list) {
         thread.join();
     }
+
+    // tasks that were never started do not count as active anymore
+
+    while (!_task_queue.empty()) {
+        _task_queue.front()->end();
+        _task_queue.pop();
+    }
 }
 
 /**
diff --git a/threads/thread_task.cc b/threads/thread_task.cc
index 7532298..be82418 100755
--- a/threads/thread_task.cc
+++ b/threads/thread_task.cc
@@ -39,5 +39,5 @@ void thread_task::start() {
         cerr << "Uncaught exception in thread_task" << endl;
     }
     // After run is completed decrement number of active tasks counter.
-    --_num_active;
+    end();
 }
diff --git a/threads/thread_task.h b/threads/thread_task.h
index 927e552..b9e421d 100755
--- a/threads/thread_task.h
+++ b/threads/thread_task.h
@@ -61,7 +61,7 @@ class USML_DECLSPEC thread_task {
     /**
      * Virtual destructor.
      */
-    virtual ~thread_task() {}
+    virtual ~thread_task() { end(); }
 
     /**
      * Automatically assigned identification number for this task.
@@ -134,6 +134,19 @@ class USML_DECLSPEC thread_task {
      */
     void start();
 
+    /**
+     * Decrements the number of active tasks, but only the first time that
+     * this task has been finished or dropped.
+     */
+    void end() {
+        if (!_ended.exchange(true)) {
+            --_num_active;
+        }
+    }
+
+    /// Set to true when this task no longer counts as active.
+    std::atomic<bool> _ended{false};
+
     /// Next identification number to be assigned to a task.
     static std::atomic<std::size_t> _id_next;
 
-- 
2.43.0


From 4077b90edb5de9a95c97b06d7ba4020baf5c7279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:31 +0000
Subject: [PATCH 056/100] fix: first use of the thread controller from several
 threads was a data race

---
 threads/thread_controller.cc | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/threads/thread_controller.cc b/threads/thread_controller.cc
index 41067cf..eba130b 100644
--- a/threads/thread_controller.cc
+++ b/threads/thread_controller.cc
@@ -25,24 +25,24 @@ read_write_lock thread_controller::_instance_mutex;
  * Constructs the object on the first time that this method is called.
  */
 thread_pool* thread_controller::instance() {
-    thread_pool* pool = _instance.get();
-    if (pool == nullptr) {
-        write_lock_guard guard(_instance_mutex);
-        pool = _instance.get();
-        if (pool == nullptr) {
-            pool = new thread_pool(_num_threads);
-            _instance.reset(pool);
-        }
+    write_lock_guard guard(_instance_mutex);
+    if (_instance == nullptr) {
+        _instance.reset(new thread_pool(_num_threads));
     }
-    return pool;
+    return _instance.get();
 }
 
 /**
  * Reset the thread_controller to empty.
  */
 void thread_controller::reset(unsigned num_threads) {
-    write_lock_guard guard(_instance_mutex);
-    _num_threads = num_threads;
-    auto* pool = new thread_pool(_num_threads);
-    _instance.reset(pool);
+    // the old pool waits for its running tasks when it is destroyed, they may
+    // need instance() to finish, so this must happen outside of the lock
+
+    std::unique_ptr<thread_pool> pool(new thread_pool(num_threads));
+    {
+        write_lock_guard guard(_instance_mutex);
+        _num_threads = num_threads;
+        _instance.swap(pool);
+    }
 }
-- 
2.43.0


From 3f47542310906a598287f21a53e1ba07d00e9d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:35 +0000
Subject: [PATCH 057/100] fix: update listeners could be added or removed while
 they were being notified from another thread

---
 managed/update_notifier.h | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/managed/update_notifier.h b/managed/update_notifier.h
index 63d48e9..4e97a93 100755
--- a/managed/update_notifier.h
+++ b/managed/update_notifier.h
@@ -5,6 +5,7 @@
 #pragma once
 
 #include <usml/managed/update_listener.h>
+#include <usml/threads/read_write_lock.h>
 #include <usml/usml_config.h>
 
 #include <set>
@@ -12,6 +13,8 @@
 namespace usml {
 namespace managed {
 
+using namespace usml::threads;
+
 /// @ingroup managed
 /// @{
 
@@ -32,27 +35,44 @@ class USML_DECLSPEC update_notifier {
     /**
      * Add an update listener to this object.
      */
-    void add_listener(listener_type* listener) { _listeners.insert(listener); }
+    void add_listener(listener_type* listener) {
+        write_lock_guard guard(_listeners_mutex);
+        _listeners.insert(listener);
+    }
 
     /**
      * Remove an update listener to this object.
      */
     void remove_listener(listener_type* listener) {
+        write_lock_guard guard(_listeners_mutex);
         _listeners.erase(listener);
     }
 
     /**
-     * Notify listeners that an object has been updated.
+     * Notify listeners that an object has been updated. Listeners may add or
+     * remove listeners while they are being notified.
      *
      * @param object    Reference to the object that has been updated.
      */
     virtual void notify_update(const obj_type* object) const {
-        for (auto listener : _listeners) {
+        std::set<listener_type*> listeners;
+        {
+            read_lock_guard guard(_listeners_mutex);
+            listeners = _listeners;
+        }
+        for (auto listener : listeners) {
+            {
+                read_lock_guard guard(_listeners_mutex);
+                if (_listeners.count(listener) == 0) continue;
+            }
             listener->notify_update(object);
         }
     }
 
    private:
+    /// Mutex for the list of listeners.
+    mutable read_write_lock _listeners_mutex;
+
     /// List of active managed listeners.
     std::set<listener_type*> _listeners;
 };
-- 
2.43.0


From 23dce74a0d4f3b1b99fa3e8b9b83871ace9ee84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 058/100] fix: overlap of patches separated towards the left
 front or right rear had the wrong sign of its cross term

---
 biverbs/biverb_collection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/biverbs/biverb_collection.cc b/biverbs/biverb_collection.cc
index 6d19cc9..846d7fa 100644
--- a/biverbs/biverb_collection.cc
+++ b/biverbs/biverb_collection.cc
@@ -150,7 +150,7 @@ void biverb_collection::add_biverb(const eigenverb_model::csptr& src_verb,
     const double kappa = -0.25 *
                          (xs2 * (src_sum + new_prod + 2.0 * rcv_length2) +
                           ys2 * (src_sum - new_prod + 2.0 * rcv_width2) -
-                          2.0 * sqrt(xs2 * ys2) * src_diff * sin2alpha) /
+                          2.0 * (xs * ys) * src_diff * sin2alpha) /
                          det_sr;
 #ifdef DEBUG_BIVERB
     cout << "\tdet_sr=" << det_sr << " kappa=" << kappa
-- 
2.43.0


From 323cf24977d9a483e712d34226f7b6cfb64c91f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 059/100] fix: counting patches or overlaps while others are
 added was a data race

---
 biverbs/biverb_collection.h       | 1 +
 eigenverbs/eigenverb_collection.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/biverbs/biverb_collection.h b/biverbs/biverb_collection.h
index 5d90be7..ae4da05 100644
--- a/biverbs/biverb_collection.h
+++ b/biverbs/biverb_collection.h
@@ -72,6 +72,7 @@ class USML_DECLSPEC biverb_collection {
      *                  this number.
      */
     size_t size(size_t interface) const {
+        read_lock_guard guard(_mutex);
         return _collection[interface].size();
     }
 
diff --git a/eigenverbs/eigenverb_collection.h b/eigenverbs/eigenverb_collection.h
index 1a2be57..552b4d1 100644
--- a/eigenverbs/eigenverb_collection.h
+++ b/eigenverbs/eigenverb_collection.h
@@ -84,6 +84,7 @@ class USML_DECLSPEC eigenverb_collection : public eigenverb_listener {
      * @param interface Interface number of the desired list of eigenverbs.
      */
     size_t size(size_t interface) const {
+        read_lock_guard guard(_mutex);
         return _collection[interface].size();
     }
 
-- 
2.43.0


From 37ca2688cbcbe05fc0623ecf7549eba59fb002e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 060/100] fix: a fan of azimuths symmetric about north was
 treated as a full circle

---
 waveq3d/wave_queue.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index eb36bcf..a14892b 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -46,10 +46,10 @@ wave_queue::wave_queue(const ocean_model::csptr& ocean,
       _nc_file(nullptr) {
     _az_boundary = false;
     if (_source_az->size() > 1) {
-        const double az_first = abs((*_source_az)(0));
-        const double az_last = abs((*_source_az)(_source_az->size() - 1));
+        const double az_first = (*_source_az)(0);
+        const double az_last = (*_source_az)(_source_az->size() - 1);
         _az_boundary =
-            (fmod(az_first + 360.0, 360.0) == fmod(az_last + 360.0, 360.0));
+            (fmod(az_first + 720.0, 360.0) == fmod(az_last + 720.0, 360.0));
     }
     if (_target_pos != nullptr) {
         _targets_sin_theta = sin(_target_pos->theta());
-- 
2.43.0


From eec4e3f4dadbf46b412cf0310b540a17ea7c611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:52 +0000
Subject: [PATCH 061/100] fix: restart of a ray after a reflection used a stale
 gradient

---
 waveq3d/reflection_model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waveq3d/reflection_model.cc b/waveq3d/reflection_model.cc
index 79c5310..911b77a 100644
--- a/waveq3d/reflection_model.cc
+++ b/waveq3d/reflection_model.cc
@@ -312,7 +312,7 @@ void reflection_model::reflection_reinit(size_t de, size_t az,
 
     ode_integ::rk2_pos(-time_step, &prev, &next, &temp);
     ode_integ::rk2_ndir(-time_step, &prev, &next, &temp);
-    past.update();
+    temp.update();
 
     ode_integ::rk3_pos(-time_step, &prev, &next, &temp, &past);
     ode_integ::rk3_ndir(-time_step, &prev, &next, &temp, &past);
-- 
2.43.0


From c0eb39a2941bec468fdf0c94a75718ad909e4114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:52 +0000
Subject: [PATCH 062/100] fix: patches of scattering layers were located where
 the ray would meet the surface

---
 waveq3d/wave_queue.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index a14892b..e863e40 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -317,8 +317,7 @@ void wave_queue::detect_volume_scattering(size_t de, size_t az) {
 
         double c = _curr->sound_speed(de, az);
         const double d = c * c * _curr->ndirection.rho(de, az);
-        double time_water =
-            (d == 0.0) ? 0.0 : -_curr->position.altitude(de, az) / d;
+        const double time_water = (d == 0.0) ? 0.0 : d2 / d;
 
         // compute the precise values for position, direction,
         // sound speed, and grazing angle at the point of collision
-- 
2.43.0


From 62bc3d28e5ffd5fc9f0d52ef2d1652326dc386cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:52 +0000
Subject: [PATCH 063/100] fix: memory leak for every reverberation patch below
 the power threshold

---
 waveq3d/wave_queue.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index e863e40..02ea697 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -1119,6 +1119,7 @@ void wave_queue::build_eigenverb(size_t de, size_t az, double dt,
     verb->power =
         pow(10.0, -0.1 * curr()->attenuation(de, az)) * area / sin_grazing;
     if (!above_eigenverb_threshold(verb->power)) {
+        delete verb;
         return;
     }
 
-- 
2.43.0


From 3ccc921fb420898bf30ac6dedd5901630cbe1438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:52 +0000
Subject: [PATCH 064/100] fix: eigenrays with undefined intensity were not
 ignored

---
 waveq3d/wave_queue.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index 02ea697..5a6344f 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -581,7 +581,7 @@ void wave_queue::build_eigenray(size_t t1, size_t t2, size_t de, size_t az,
 
     const vector<double> spread_intensity = _spreading_model->intensity(
         wposition1(*(_curr->targets), t1, t2), de, az, offset, distance);
-    for (size_t i = 0; i < ray->intensity.size(); ++i) {
+    for (size_t i = 0; i < spread_intensity.size(); ++i) {
         if (std::isnan(spread_intensity(i))) {
             #ifdef USML_DEBUG
                 std::cerr << "warning: wave_queue::build_eigenray()" << endl
-- 
2.43.0


From f430bcda328021c3b3b416691b0460e95693468b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:52 +0000
Subject: [PATCH 065/100] fix: width of a Gaussian beam at the next time step
 used the wrong azimuth

---
 waveq3d/spreading_hybrid_gaussian.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/waveq3d/spreading_hybrid_gaussian.cc b/waveq3d/spreading_hybrid_gaussian.cc
index c97afb8..3fad1ed 100644
--- a/waveq3d/spreading_hybrid_gaussian.cc
+++ b/waveq3d/spreading_hybrid_gaussian.cc
@@ -484,8 +484,8 @@ double spreading_hybrid_gaussian::width_de(size_t de, size_t az,
     if (v < 1e-10) {
         length2 = L1;
     } else {
-        L2 = wvector1(pos2, de, az_wrap + 1)
-                 .distance(wvector1(pos2, de + 1, az_wrap + 1));
+        L2 = wvector1(pos2, de, az_wrap)
+                 .distance(wvector1(pos2, de + 1, az_wrap));
         length2 = (1.0 - v) * L1 + v * L2;
     }
 
-- 
2.43.0


From 9e6715f4f6a905f2f0e89511d2b1ebeefe78101b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 066/100] fix: classic ray spreading read outside of the fan
 for targets left of the first azimuth

---
 waveq3d/spreading_ray.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waveq3d/spreading_ray.cc b/waveq3d/spreading_ray.cc
index aa5ea63..d74bcc5 100644
--- a/waveq3d/spreading_ray.cc
+++ b/waveq3d/spreading_ray.cc
@@ -53,7 +53,7 @@ const vector<double>& spreading_ray::intensity(
         --de;
     }
     if (offset(2) < 0.0) {
-        --az;
+        az = (az > 0) ? az - 1 : _wave.num_az() - 2;
     }
 
     // get sound speed at target
-- 
2.43.0


From 8a34342a167f99e8dd19a2ed5204bbd05cacea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:34 +0000
Subject: [PATCH 067/100] fix: targets on the other side of the date line were
 never reached

---
 waveq3d/wave_front.cc | 4 ++++
 waveq3d/wave_queue.cc | 5 +++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/waveq3d/wave_front.cc b/waveq3d/wave_front.cc
index 259fbc8..0cfd0e4 100755
--- a/waveq3d/wave_front.cc
+++ b/waveq3d/wave_front.cc
@@ -4,6 +4,7 @@
  */
 
 #include <usml/ocean/profile_model.h>
+#include <usml/ublas/math_traits.h>
 #include <usml/waveq3d/wave_front.h>
 
 #include <algorithm>
@@ -223,6 +224,9 @@ void wave_front::compute_target_distance() {
     for (size_t n1 = 0; n1 < targets->size1(); ++n1) {
         for (size_t n2 = 0; n2 < targets->size2(); ++n2) {
             wvector1 from(*targets, n1, n2);
+            // use the longitude of the target that is closest to the wavefront
+            const double turns = (position.phi(0, 0) - from.phi()) / TWO_PI;
+            from.phi(from.phi() + TWO_PI * std::round(turns));
             // clang-format off
             noalias(distance2(n1,n2)) = abs(
                 abs2(position.rho()) + from.rho()*from.rho() - 2.0 * from.rho()
diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index 5a6344f..089fcb1 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -899,8 +899,9 @@ void wave_queue::compute_offsets(size_t t1, size_t t2, size_t de, size_t az,
             c_vector<double, 3> tgt_dir;
             tgt_dir[0] = _target_pos->rho(t1, t2) - cpa.rho();
             tgt_dir[1] = (_target_pos->theta(t1, t2) - cpa.theta()) * cpa.rho();
-            tgt_dir[2] = (_target_pos->phi(t1, t2) - cpa.phi()) * cpa.rho() *
-                         sin(cpa.theta());
+            tgt_dir[2] = std::remainder(_target_pos->phi(t1, t2) - cpa.phi(),
+                                        TWO_PI) *
+                         cpa.rho() * sin(cpa.theta());
 
             // switch the sign of distance and offset if target and DE+1 ray
             // on opposite sides of CPA ray in rho direction
-- 
2.43.0


From 9c53c05514ed985ee88af95afedb6f0bce8fa1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 068/100] fix: patches of the first ray of an uneven fan used
 the spacing of the last one

---
 waveq3d/wave_queue.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index 089fcb1..7af1d10 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -1085,14 +1085,15 @@ void wave_queue::build_eigenverb(size_t de, size_t az, double dt,
     const double de_plus =
         de_angle + 0.5 * to_radians(_source_de->increment(de));
     const double de_minus =
-        de_angle - 0.5 * to_radians(_source_de->increment(de - 1));
+        de_angle - 0.5 * to_radians(_source_de->increment(de > 0 ? de - 1 : 0));
 
     const double az_angle = to_radians((*_source_az)(az));
     const double az_plus =
         az_angle + 0.5 * to_radians(_source_az->increment(az));
     const size_t az_index = (az == 0 && _az_boundary) ? _max_az : az;
     const double az_minus =
-        az_angle - 0.5 * to_radians(_source_az->increment(az_index - 1));
+        az_angle -
+        0.5 * to_radians(_source_az->increment(az_index > 0 ? az_index - 1 : 0));
 
     const double area = (sin(de_plus) - sin(de_minus)) * (az_plus - az_minus);
     const double de_delta = de_plus - de_minus;  // average height
-- 
2.43.0


From ac5eaa309b3c98bb73ef3beaef95dd9004e9b759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 069/100] fix: boundary losses and phases of a bounce were
 missing until the end of the time step

---
 waveq3d/reflection_model.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/waveq3d/reflection_model.cc b/waveq3d/reflection_model.cc
index 911b77a..1393d39 100644
--- a/waveq3d/reflection_model.cc
+++ b/waveq3d/reflection_model.cc
@@ -156,8 +156,11 @@ bool reflection_model::bottom_reflection(size_t de, size_t az, double depth) {
     boundary->reflect_loss(position, _wave._frequencies, grazing, &amplitude,
                            &phase);
     for (size_t f = 0; f < _wave._frequencies->size(); ++f) {
-        _wave._next->attenuation(de, az)(f) += amplitude(f);
-        _wave._next->phase(de, az)(f) += phase(f);
+        for (wave_front* wave :
+             {_wave._past, _wave._prev, _wave._curr, _wave._next}) {
+            wave->attenuation(de, az)(f) += amplitude(f);
+            wave->phase(de, az)(f) += phase(f);
+        }
     }
 
     // change direction of the ray ( R = I - 2 dot(n,I) n )
@@ -230,8 +233,11 @@ bool reflection_model::surface_reflection(size_t de, size_t az) {
     vector<double> amplitude(_wave._frequencies->size());
     boundary->reflect_loss(position, _wave._frequencies, grazing, &amplitude);
     for (size_t f = 0; f < _wave._frequencies->size(); ++f) {
-        _wave._next->attenuation(de, az)(f) += amplitude(f);
-        _wave._next->phase(de, az)(f) -= M_PI;
+        for (wave_front* wave :
+             {_wave._past, _wave._prev, _wave._curr, _wave._next}) {
+            wave->attenuation(de, az)(f) += amplitude(f);
+            wave->phase(de, az)(f) -= M_PI;
+        }
     }
 
     // change direction of the ray ( Rz = -Iz )
-- 
2.43.0


From 55eb71dd4db392e1af2820ad4ea1c5dd1d7e8b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:46 +0000
Subject: [PATCH 070/100] fix: arrival azimuth of eigenrays near north mixed
 azimuths of 0 and 360 degrees

---
 waveq3d/wave_queue.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index 7af1d10..4ac240e 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -656,6 +656,12 @@ void wave_queue::build_eigenray(size_t t1, size_t t2, size_t de, size_t az,
     // estimate target AZ angle using 2nd order vector Taylor series
     // re-uses "distance2" variable to store AZ angles
 
+    double center_az;
+    {
+        double dummy;
+        wvector1 ndir(_curr->ndirection, de, az);
+        ndir.direction(&dummy, &center_az);
+    }
     for (size_t nde = 0; nde < 3; ++nde) {
         for (size_t naz = 0; naz < 3; ++naz) {
             size_t d = de + nde - 1;
@@ -680,11 +686,18 @@ void wave_queue::build_eigenray(size_t t1, size_t t2, size_t de, size_t az,
                 wvector1 ndir(_next->ndirection, d, a);
                 ndir.direction(&dummy, &distance2[2][nde][naz]);
             }
+
+            // measure azimuths from that of the central ray,
+            // so that they are continuous across north
+            for (size_t n = 0; n < 3; ++n) {
+                distance2[n][nde][naz] = std::remainder(
+                    distance2[n][nde][naz] - center_az, 360.0);
+            }
         }
     }
 
     make_taylor_coeff(distance2, delta, center, gradient, hessian);
-    ray->target_az = center + inner_prod(gradient, offset) +
+    ray->target_az = center_az + center + inner_prod(gradient, offset) +
                      0.5 * inner_prod(offset, prod(hessian, offset));
 
     #ifdef DEBUG_EIGENRAYS
-- 
2.43.0


From 39ea3d10d1fc84c6fbaa4c553c15e34dfa03caaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:28 +0000
Subject: [PATCH 071/100] fix: eigenverb files could not be read back, and
 empty interfaces crashed their export

---
 eigenverbs/eigenverb_collection.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/eigenverbs/eigenverb_collection.cc b/eigenverbs/eigenverb_collection.cc
index 62f6c67..8656cc9 100644
--- a/eigenverbs/eigenverb_collection.cc
+++ b/eigenverbs/eigenverb_collection.cc
@@ -99,7 +99,6 @@ void eigenverb_collection::write_netcdf(const char* filename,
                                         size_t interface) const {
     netCDF::NcFile nc_file(filename, netCDF::NcFile::replace);
     eigenverb_list list = eigenverbs(interface);
-    size_t num_freq = list.begin()->get()->frequencies->size();
 
     switch (interface) {
         case eigenverb_model::BOTTOM:
@@ -129,6 +128,7 @@ void eigenverb_collection::write_netcdf(const char* filename,
     }
 
     if (!list.empty()) {
+        const size_t num_freq = list.front()->frequencies->size();
         // clang-format off
         // dimensions
 
@@ -245,14 +245,22 @@ void eigenverb_collection::read_netcdf(const char* filename, size_t interface) {
     // dimensions
 
     netCDF::NcDim eigenverb_dim = nc_file.getDim("eigenverbs");
+    if (eigenverb_dim.isNull()) {
+        return;  // file for an interface without eigenverbs
+    }
     size_t num_eigenverbs = eigenverb_dim.getSize();
-    netCDF::NcDim freq_dim = nc_file.getDim("frequency");
+    // names used by write_netcdf(), or those of older files
+    netCDF::NcDim freq_dim = nc_file.getDim("frequencies");
+    const bool old_names = freq_dim.isNull();
+    if (old_names) {
+        freq_dim = nc_file.getDim("frequency");
+    }
     size_t num_freq = freq_dim.getSize();
 
     // variables
 
     netCDF::NcVar time_var = nc_file.getVar("travel_time");
-    netCDF::NcVar freq_var = nc_file.getVar("frequency");
+    netCDF::NcVar freq_var = nc_file.getVar(old_names ? "frequency" : "frequencies");
     netCDF::NcVar power_var = nc_file.getVar("power");
     netCDF::NcVar length_var = nc_file.getVar("length");
     netCDF::NcVar width_var = nc_file.getVar("width");
@@ -260,7 +268,7 @@ void eigenverb_collection::read_netcdf(const char* filename, size_t interface) {
     netCDF::NcVar lng_var = nc_file.getVar("longitude");
     netCDF::NcVar alt_var = nc_file.getVar("altitude");
     netCDF::NcVar direction_var = nc_file.getVar("direction");
-    netCDF::NcVar grazing_var = nc_file.getVar("grazing_angle");
+    netCDF::NcVar grazing_var = nc_file.getVar(old_names ? "grazing_angle" : "grazing");
     netCDF::NcVar sound_speed_var = nc_file.getVar("sound_speed");
     netCDF::NcVar de_index_var = nc_file.getVar("de_index");
     netCDF::NcVar az_index_var = nc_file.getVar("az_index");
-- 
2.43.0


From d0ff446d8d89e3464dec308c725fc6c2795bc92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:27 +0000
Subject: [PATCH 072/100] fix: regions of gridded data files that wrap or start
 west of the first cell could not be read

---
 netcdf/netcdf_bathy.cc   |  97 ++++++++++++++++---------------------
 netcdf/netcdf_profile.cc | 101 ++++++++++++++++-----------------------
 2 files changed, 84 insertions(+), 114 deletions(-)

diff --git a/netcdf/netcdf_bathy.cc b/netcdf/netcdf_bathy.cc
index 18d5914..fd4b3db 100644
--- a/netcdf/netcdf_bathy.cc
+++ b/netcdf/netcdf_bathy.cc
@@ -43,44 +43,23 @@ netcdf_bathy::netcdf_bathy(const char* filename, double south, double north,
     longitude.getVar(index0, &value0);
     longitude.getVar(indexN, &valueN);
 
-    // Is the data set bounds 0 to 359(360)
-    bool zero_to_360 = value0 < 1.0 && valueN >= 359.0;
+    // Is this a global data set? If so, check to see if database
+    // has duplicate data at cut point
 
-    // Is the data set bounds -180 to 179(180)
-    bool bounds_180 = value0 < -179.0 && valueN > 179.0;
+    const double spacing = (valueN - value0) / lng_index_max;
+    const bool global = valueN - value0 + 1.5 * spacing > 360.0;
+    if (global && abs(value0 + 360.0 - valueN) < 1e-4) {
+        duplicate = 1;
+    }
 
-    // Is this set a global data set
-    bool global = (zero_to_360 || bounds_180);
-    if (global) {
-        // check to see if database has duplicate data at cut point
-        if (abs(value0 + 360 - valueN) < 1e-4) {
-            duplicate = 1;
-        }
+    // manage differences between eastern and western hemispheres for
+    // other data sets by looking for the area where the data is
 
-        // manage wrap-around between eastern and western hemispheres
-        if (value0 < 0.0) {
-            // if database has a range (-180,180)
-            // make western longitudes into negative numbers
-            // unless they span the 180 latitude
-            if (west > 180.0 && east > 180.0) {
-                offset = -360.0;
-            }
-        } else {
-            // if database has a range (0,360)
-            // make all western longitudes into positive numbers
-            if (west < 0.0) {
-                offset = 360.0;
-            }
-        }
-    } else {
-        if (value0 > 180.0) {
-            if (west < 0.0) {
-                offset = 360.0;
-            }
-        } else if (value0 < 0.0) {
-            if (east > 180.0) {
-                offset = -360.0;
-            }
+    if (!global) {
+        if (east < value0) {
+            offset = 360.0;
+        } else if (west > valueN) {
+            offset = -360.0;
         }
     }
     west += offset;
@@ -116,11 +95,24 @@ netcdf_bathy::netcdf_bathy(const char* filename, double south, double north,
     const int lng_first = (global) ? index : max(0, index);
     index = int(floor(0.5 + (east - value0) / inc));
     const int lng_last = (global) ? index : min(int(lng_index_max), index);
+    if (lat_last < lat_first || lng_last < lng_first) {
+        throw std::invalid_argument("area outside of data set");
+    }
     const size_t lng_num = lng_last - lng_first + 1;
     _axis[1] = seq_vector::csptr(
         new seq_linear(to_radians(lng_first * inc + value0 - offset),
                        to_radians(inc), lng_num));
 
+    // position of the first and last longitude in the file,
+    // which global data sets repeat every 360 degrees
+
+    int lng_start = lng_first;
+    if (global) {
+        const int period = int(lng_index_max) + 1 - int(duplicate);
+        lng_start -= period * int(floor(double(lng_first) / period));
+    }
+    const int lng_stop = lng_start + int(lng_num) - 1;
+
     // load depth data out of NetCDF file
 
     auto* data = new double[lat_num * lng_num];
@@ -130,38 +122,33 @@ netcdf_bathy::netcdf_bathy(const char* filename, double south, double north,
     std::vector<size_t> start(2);
     std::vector<size_t> count(2);
     start[0] = lat_first;
-    start[1] = lng_first;
+    start[1] = lng_start;
     count[0] = lat_num;
     count[1] = lng_num;
 
-    if (lng_last <= lng_index_max || !global) {
+    if (lng_stop <= int(lng_index_max)) {
         altitude.getVar(start, count, data);
     } else {
         // support datasets that cross the unwrapping longitude
         // assumes that bathy data is repeated on both sides of cut point
 
-        const size_t M = lng_last - lng_index_max;  // # pts on east side
-        const size_t N = lng_num - M;               // # pts on west side
         double* ptr = data;
         for (int lat = lat_first; lat <= lat_last; ++lat) {
-            // the west side of the block is the portion from
-            // lng_first to the last latitude
             start[0] = lat;
-            start[1] = lng_first;
+            start[1] = lng_start;
             count[0] = 1;
-            count[1] = N;
-            altitude.getVar(start, count, ptr);
-            ptr += N;
-
-            // the missing points on the east side of the block
-            // are read from zero until the right # of points are read
-            // skip first longitude if it is a duplicate
-            start[0] = lat;
-            start[1] = duplicate;
-            count[0] = 1;
-            count[1] = M;
-            altitude.getVar(start, count, ptr);
-            ptr += M;
+            for (size_t left = lng_num; left > 0; left -= count[1]) {
+                // the west side of the block is the portion from
+                // lng_start to the last longitude
+                count[1] = std::min(left, lng_index_max + 1 - start[1]);
+                altitude.getVar(start, count, ptr);
+                ptr += count[1];
+
+                // the missing points on the east side of the block
+                // are read from zero until the right # of points are read
+                // skip first longitude if it is a duplicate
+                start[1] = duplicate;
+            }
         }
     }
 
diff --git a/netcdf/netcdf_profile.cc b/netcdf/netcdf_profile.cc
index bbc9b14..64c6b3d 100644
--- a/netcdf/netcdf_profile.cc
+++ b/netcdf/netcdf_profile.cc
@@ -74,44 +74,23 @@ netcdf_profile::netcdf_profile(const char *filename, double date, double south,
     longitude.getVar(index0, &value0);
     longitude.getVar(indexN, &valueN);
 
-    // Is the data set bounds 0 to 359(360)
-    bool zero_to_360 = value0 < 1.0 && valueN >= 359.0;
+    // Is this a global data set? If so, check to see if database
+    // has duplicate data at cut point
 
-    // Is the data set bounds -180 to 179(180)
-    bool bounds_180 = value0 < -179.0 && valueN > 179.0;
+    const double spacing = (valueN - value0) / lng_index_max;
+    const bool global = valueN - value0 + 1.5 * spacing > 360.0;
+    if (global && abs(value0 + 360.0 - valueN) < 1e-4) {
+        duplicate = 1;
+    }
 
-    // Is this set a global data set
-    bool global = (zero_to_360 || bounds_180);
-    if (global) {
-        // check to see if database has duplicate data at cut point
-        if (abs(value0 + 360.0 - valueN) < 1e-4) {
-            duplicate = 1;
-        }
+    // manage differences between eastern and western hemispheres for
+    // other data sets by looking for the area where the data is
 
-        // manage wrap-around between eastern and western hemispheres
-        if (value0 < 0.0) {
-            // if database has a range (-180,180)
-            // make western longitudes into negative numbers
-            // unless they span the 180 latitude
-            if (west > 180.0 && east > 180.0) {
-                offset = -360.0;
-            }
-        } else {
-            // if database has a range (0,360)
-            // make all western longitudes into positive numbers
-            if (west < 0.0) {
-                offset = 360.0;
-            }
-        }
-    } else {
-        if (value0 > 180.0) {
-            if (west < 0.0) {
-                offset = 360.0;
-            }
-        } else if (value0 < 0.0) {
-            if (east > 180.0) {
-                offset = -360.0;
-            }
+    if (!global) {
+        if (east < value0) {
+            offset = 360.0;
+        } else if (west > valueN) {
+            offset = -360.0;
         }
     }
     west += offset;
@@ -147,11 +126,24 @@ netcdf_profile::netcdf_profile(const char *filename, double date, double south,
     const int lng_first = (global) ? index : max(0, index);
     index = int(floor(0.5 + (east - value0) / inc));
     const int lng_last = (global) ? index : min(int(lng_index_max), index);
+    if (lat_last < lat_first || lng_last < lng_first) {
+        throw std::invalid_argument("area outside of data set");
+    }
     const size_t lng_num = lng_last - lng_first + 1;
     _axis[2] = seq_vector::csptr(
         new seq_linear(to_radians(lng_first * inc + value0 - offset),
                        to_radians(inc), lng_num));
 
+    // position of the first and last longitude in the file,
+    // which global data sets repeat every 360 degrees
+
+    int lng_start = lng_first;
+    if (global) {
+        const int period = int(lng_index_max) + 1 - int(duplicate);
+        lng_start -= period * int(floor(double(lng_first) / period));
+    }
+    const int lng_stop = lng_start + int(lng_num) - 1;
+
     // load depth data out of NetCDF file
 
     auto *data = new double[lat_num * lng_num * alt_num];
@@ -161,11 +153,11 @@ netcdf_profile::netcdf_profile(const char *filename, double date, double south,
     std::vector<size_t> start(4);
     std::vector<size_t> count(4);
 
-    if (lng_last <= lng_index_max || !global) {
+    if (lng_stop <= int(lng_index_max)) {
         start[0] = time_index;
         start[1] = 0;
         start[2] = lat_first;
-        start[3] = lng_first;
+        start[3] = lng_start;
         count[0] = 1;
         count[1] = alt_num;
         count[2] = lat_num;
@@ -175,37 +167,28 @@ netcdf_profile::netcdf_profile(const char *filename, double date, double south,
         // support datasets that cross the unwrapping longitude
         // assumes that bathy data is repeated on both sides of cut point
 
-        const size_t M = lng_last - lng_index_max;  // # pts on east side
-        const size_t N = lng_num - M;               // # pts on west side
         double *ptr = data;
         for (long alt = 0; alt < alt_num; ++alt) {
             for (int lat = lat_first; lat <= lat_last; ++lat) {
-                // the west side of the block is the portion from
-                // lng_first to the last latitude
                 start[0] = time_index;
                 start[1] = alt;
                 start[2] = lat;
-                start[3] = lng_first;
+                start[3] = lng_start;
                 count[0] = 1;
                 count[1] = 1;
                 count[2] = 1;
-                count[3] = N;
-                profile.getVar(start, count, ptr);
-                ptr += N;
-
-                // the missing points on the east side of the block
-                // are read from zero until the right # of points are read
-                // skip first longitude if it is a duplicate
-                start[0] = time_index;
-                start[1] = alt;
-                start[2] = lat;
-                start[3] = duplicate;
-                count[0] = 1;
-                count[1] = 1;
-                count[2] = 1;
-                count[3] = M;
-                profile.getVar(start, count, ptr);
-                ptr += M;
+                for (size_t left = lng_num; left > 0; left -= count[3]) {
+                    // the west side of the block is the portion from
+                    // lng_start to the last longitude
+                    count[3] = std::min(left, lng_index_max + 1 - start[3]);
+                    profile.getVar(start, count, ptr);
+                    ptr += count[3];
+
+                    // the missing points on the east side of the block
+                    // are read from zero until the right # of points are read
+                    // skip first longitude if it is a duplicate
+                    start[3] = duplicate;
+                }
             }
         }
     }
-- 
2.43.0


From d9bcc02448c3968da51b56a25d326e5e0398faa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:43 +0000
Subject: [PATCH 073/100] fix: packed profiles with only a scale factor or only
 an offset were not unpacked

---
 netcdf/netcdf_profile.cc | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/netcdf/netcdf_profile.cc b/netcdf/netcdf_profile.cc
index 64c6b3d..879650f 100644
--- a/netcdf/netcdf_profile.cc
+++ b/netcdf/netcdf_profile.cc
@@ -24,8 +24,8 @@ netcdf_profile::netcdf_profile(const char *filename, double date, double south,
     netCDF::NcFile file(fname, netCDF::NcFile::FileMode::read);
 
     double missing = NAN;       // default value for missing information
-    double scale_factor = NAN;  // default value for scale_factor
-    double add_offset = NAN;    // default value for add_offset
+    double scale_factor = 1.0;  // default value for scale_factor
+    double add_offset = 0.0;    // default value for add_offset
     netCDF::NcVar longitude;
     netCDF::NcVar latitude;
     netCDF::NcVar altitude;
@@ -195,18 +195,12 @@ netcdf_profile::netcdf_profile(const char *filename, double date, double south,
 
     // apply logic for missing, scale_factor, and add_offset
 
-    if (!std::isnan(missing) || !std::isnan(scale_factor * add_offset)) {
-        const size_t N = alt_num * lat_num * lng_num;
-        double *ptr = data;
-        while (ptr < data + N) {
-            if (!std::isnan(missing) && *ptr == missing) {
-                *ptr = NAN;
-            }
-            if (!std::isnan(scale_factor * add_offset)) {
-                *ptr = *ptr * scale_factor + add_offset;
-            }
-            ++ptr;
+    const size_t N = alt_num * lat_num * lng_num;
+    for (double *ptr = data; ptr < data + N; ++ptr) {
+        if (!std::isnan(missing) && *ptr == missing) {
+            *ptr = NAN;
         }
+        *ptr = *ptr * scale_factor + add_offset;
     }
 }
 
-- 
2.43.0


From 9680302e971d54b48ca5de82b3d77a8242b14df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:00 +0000
Subject: [PATCH 074/100] fix: filling missing data changed valid samples of
 the deepest layer and tapered the wrong way

---
 netcdf/netcdf_profile.cc | 47 +++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/netcdf/netcdf_profile.cc b/netcdf/netcdf_profile.cc
index 879650f..51221fa 100644
--- a/netcdf/netcdf_profile.cc
+++ b/netcdf/netcdf_profile.cc
@@ -253,7 +253,11 @@ void netcdf_profile::fill_missing() {
                 double r = data(index);
                 if (!std::isnan(r)) {
                     replace.setdata(index, r);
-                    replace_grad(d)(j, k) = profile_grad(d)(j, k);
+                    if (d > 0) {
+                        const size_t index2[] = {d - 1, j, k};
+                        replace_grad(d)(j, k) = (r - replace.data(index2)) /
+                                                depth->increment(d - 1);
+                    }
                 } else {
                     // compute weighted sum
 
@@ -261,7 +265,8 @@ void netcdf_profile::fill_missing() {
                     for (size_t n = 0; n < nlat; ++n) {
                         for (size_t m = 0; m < nlon; ++m) {
                             const size_t index2[] = {d, n, m};
-                            const double tmp = data(index2);
+                            const double tmp =
+                                (d == 0) ? data(index2) : profile_grad(d)(n, m);
                             if (!std::isnan(tmp)) {
                                 const double dj = double(j) - double(n);
                                 const double dk = double(k) - double(m);
@@ -281,7 +286,7 @@ void netcdf_profile::fill_missing() {
 
                                 } else {
                                     replace_grad(d)(j, k) +=
-                                        distScale * profile_grad(d)(n, m);
+                                        distScale * tmp;
                                 }  // end if( d==0 )
                             }      // end if( !isnan(tmp) )
                         }          // end for m<nlon
@@ -300,6 +305,9 @@ void netcdf_profile::fill_missing() {
                                 replace_grad(d)(j, k) * depth->increment(d - 1);
                             replace.setdata(index, r);
                         }
+                    } else if (d > 0) {
+                        const size_t index2[] = {d - 1, j, k};
+                        replace.setdata(index, replace.data(index2));
                     }  // end if( weight > 0.0 )
                 }      // end if( ! isnan(r) )
             }          // end for k<nlon
@@ -313,29 +321,18 @@ void netcdf_profile::fill_missing() {
     for (size_t j = 0; j < nlat; ++j) {
         for (size_t k = 0; k < nlon; ++k) {
             double w = 2.0;
-            if (max_depth + 1 < ndepth) {
-                for (size_t d = max_depth + 1; d < ndepth; ++d) {
-                    replace_grad(d)(j, k) = replace_grad(max_depth)(j, k) / w;
-                    const size_t index[] = {d, j, k};
-                    const size_t prev[] = {d - 1, j, k};
-                    const double v =
-                        replace.data(prev) +
-                        replace_grad(d)(j, k) * abs(depth->increment(d - 1));
-                    replace.setdata(index, v);
-                    w *= 2.0;
-                }
-            } else {
-                replace_grad(max_depth)(j, k) =
-                    replace_grad(max_depth)(j, k) / w;
-                const size_t index[] = {max_depth, j, k};
-                const size_t prev[] = {max_depth - 1, j, k};
-                const double v = replace.data(prev) +
-                                 replace_grad(max_depth)(j, k) *
-                                     abs(depth->increment(max_depth - 1));
+            for (size_t d = max_depth + 1; d < ndepth; ++d) {
+                replace_grad(d)(j, k) = replace_grad(max_depth)(j, k) / w;
+                const size_t index[] = {d, j, k};
+                const size_t prev[] = {d - 1, j, k};
+                const double v =
+                    replace.data(prev) +
+                    replace_grad(d)(j, k) * depth->increment(d - 1);
                 replace.setdata(index, v);
-            }  // end if( max_depth+1 < ndepth )
-        }      // end for k<nlon
-    }          // end for j<nlat
+                w *= 2.0;
+            }
+        }  // end for k<nlon
+    }      // end for j<nlat
 
     size_t N = _axis[0]->size() * _axis[1]->size() * _axis[2]->size();
     std::copy_n(replace.data(), N, _writeable_data.get());
-- 
2.43.0


From 13db69cc866f636970a533d0c852d7eb8854633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:00 +0000
Subject: [PATCH 075/100] fix: merging a shallow file that does not fit the
 deep one wrote out of bounds

---
 netcdf/netcdf_woa.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/netcdf/netcdf_woa.cc b/netcdf/netcdf_woa.cc
index c0321b6..19e058f 100644
--- a/netcdf/netcdf_woa.cc
+++ b/netcdf/netcdf_woa.cc
@@ -12,6 +12,7 @@
 #include <cmath>
 #include <cstddef>
 #include <memory>
+#include <stdexcept>
 
 using namespace usml::netcdf;
 
@@ -27,6 +28,11 @@ netcdf_woa::netcdf_woa(const char* deep, const char* shallow, int month,
     if (shallow != nullptr) {
         netcdf_profile replace(shallow, int(round(30.5 * (month - 0.5))), south,
                                north, west, east);
+        if (replace.axis(0).size() > this->axis(0).size() ||
+            replace.axis(1).size() != this->axis(1).size() ||
+            replace.axis(2).size() != this->axis(2).size()) {
+            throw std::invalid_argument("deep and shallow files do not match");
+        }
         size_t N = replace.axis(0).size() * replace.axis(1).size() *
                    replace.axis(2).size();
         std::copy_n(replace.data(), N, _writeable_data.get());
-- 
2.43.0


From b5713d4fa375a72e19d269a4189ab86ead985e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:46 +0000
Subject: [PATCH 076/100] fix: bottom provinces that do not exist read past the
 end of the table

---
 ocean/reflect_loss_netcdf.cc | 53 +++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/ocean/reflect_loss_netcdf.cc b/ocean/reflect_loss_netcdf.cc
index 9bf4e8f..a262fa0 100644
--- a/ocean/reflect_loss_netcdf.cc
+++ b/ocean/reflect_loss_netcdf.cc
@@ -7,6 +7,8 @@
 
 #include <exception>
 #include <netcdf>
+#include <stdexcept>
+#include <vector>
 
 using namespace usml::ocean;
 
@@ -45,23 +47,23 @@ reflect_loss_netcdf::reflect_loss_netcdf(const char* filename) {
 
     // extracts the data for all of the variables from the netcdf file
 
-    auto* latitude = new double[latdim];
-    auto* longitude = new double[londim];
-    auto* type_num = new double[latdim * londim];
-    auto* speed = new double[n_types];
-    auto* density = new double[n_types];
-    auto* atten = new double[n_types];
-    auto* shearspd = new double[n_types];
-    auto* shearatten = new double[n_types];
-
-    lat.getVar(latitude);
-    lon.getVar(longitude);
-    bot_num.getVar(type_num);
-    bot_speed.getVar(speed);
-    bot_density.getVar(density);
-    bot_atten.getVar(atten);
-    bot_shear_speed.getVar(shearspd);
-    bot_shear_atten.getVar(shearatten);
+    std::vector<double> latitude(latdim);
+    std::vector<double> longitude(londim);
+    std::vector<double> type_num(latdim * londim);
+    std::vector<double> speed(n_types);
+    std::vector<double> density(n_types);
+    std::vector<double> atten(n_types);
+    std::vector<double> shearspd(n_types);
+    std::vector<double> shearatten(n_types);
+
+    lat.getVar(latitude.data());
+    lon.getVar(longitude.data());
+    bot_num.getVar(type_num.data());
+    bot_speed.getVar(speed.data());
+    bot_density.getVar(density.data());
+    bot_atten.getVar(atten.data());
+    bot_shear_speed.getVar(shearspd.data());
+    bot_shear_atten.getVar(shearatten.data());
 
     // creates a sequence vector of axes that are passed to data grid
 
@@ -76,15 +78,19 @@ reflect_loss_netcdf::reflect_loss_netcdf(const char* filename) {
     // creates a data grid and populates the data from the netcdf file
 
     auto* grid = new gen_grid<2>(axis);
+    _bottom_grid = data_grid<2>::csptr(grid);
     size_t index[2];
     for (int i = 0; i < latdim; i++) {
         for (int j = 0; j < londim; j++) {
             index[0] = i;
             index[1] = j;
-            grid->setdata(index, type_num[i * londim + j]);
+            const double type = type_num[i * londim + j];
+            if (!(type >= 0.0 && type < double(n_types))) {
+                throw std::invalid_argument("unknown bottom province type");
+            }
+            grid->setdata(index, type);
         }
     }
-    _bottom_grid = data_grid<2>::csptr(grid);
 
     // set the interpolation type to the nearest neighbor and restrict extrap
 
@@ -100,15 +106,6 @@ reflect_loss_netcdf::reflect_loss_netcdf(const char* filename) {
                                                 shearspd[i], shearatten[i]);
         _loss_model.push_back(reflect_loss_model::csptr(model));
     }
-
-    delete[] latitude;
-    delete[] longitude;
-    delete[] speed;
-    delete[] density;
-    delete[] atten;
-    delete[] shearspd;
-    delete[] shearatten;
-    delete[] type_num;
 }
 
 /**
-- 
2.43.0


From d479b9bef0151637e83888b7916ce734aad5673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 077/100] fix: motion of a platform was read without a lock
 while it was being updated

---
 platforms/platform_model.cc | 13 ++++++++-----
 platforms/platform_model.h  | 31 ++++++++++++++++++++++++++-----
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/platforms/platform_model.cc b/platforms/platform_model.cc
index cd26d47..a3001f0 100644
--- a/platforms/platform_model.cc
+++ b/platforms/platform_model.cc
@@ -18,7 +18,7 @@ using namespace usml::platforms;
  */
 void platform_model::get_motion(time_t* time, wposition1* position,
                                 orientation* orient, double* speed) const {
-    read_lock_guard guard(mutex());
+    std::lock_guard<std::mutex> guard(_motion_mutex);
     if (time != nullptr) {
         *time = _time;
     }
@@ -113,10 +113,13 @@ void platform_model::update_internals(time_t time, const wposition1& pos,
                                       update_type_enum update_type) {
     // update motion of host
 
-    _time = time;
-    _position = pos;
-    _orient = orient;
-    _speed = speed;
+    {
+        std::lock_guard<std::mutex> guard(_motion_mutex);
+        _time = time;
+        _position = pos;
+        _orient = orient;
+        _speed = speed;
+    }
 
     // update motion of children
 
diff --git a/platforms/platform_model.h b/platforms/platform_model.h
index 7a084db..5976d19 100644
--- a/platforms/platform_model.h
+++ b/platforms/platform_model.h
@@ -13,7 +13,9 @@
 #include <usml/types/orientation.h>
 #include <usml/types/wposition1.h>
 
+#include <atomic>
 #include <list>
+#include <mutex>
 #include <string>
 
 namespace usml {
@@ -79,16 +81,28 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
     const platform_model* host() const { return _host; }
 
     /// Time of last update.
-    time_t time() const { return _time; }
+    time_t time() const {
+        std::lock_guard<std::mutex> guard(_motion_mutex);
+        return _time;
+    }
 
     /// Location of the platform in world coordinates.
-    wposition1 position() const { return _position; }
+    wposition1 position() const {
+        std::lock_guard<std::mutex> guard(_motion_mutex);
+        return _position;
+    }
 
     /// Orientation of the platform in world coordinates.
-    orientation orient() const { return _orient; }
+    orientation orient() const {
+        std::lock_guard<std::mutex> guard(_motion_mutex);
+        return _orient;
+    }
 
     /// Platform speed in world coordinates (m/s).
-    double speed() const { return _speed; }
+    double speed() const {
+        std::lock_guard<std::mutex> guard(_motion_mutex);
+        return _speed;
+    }
 
     /// Flag to disable platform as acoustic target
     bool is_acoustic_target() const { return _is_acoustic_target; }
@@ -218,6 +232,13 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
     /// Platform that controls the motion of this platform.
     const platform_model* _host{nullptr};
 
+    /**
+     * Locks the motion parameters while they are copied. Never held during
+     * calls to other objects, so that motion can be read while an update of
+     * this platform is under way.
+     */
+    mutable std::mutex _motion_mutex;
+
     /// Time of last update.
     time_t _time{0};
 
@@ -231,7 +252,7 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
     double _speed{0.0};
 
     /// Flag to disable platform as acoustic target
-    bool _is_acoustic_target{true};
+    std::atomic<bool> _is_acoustic_target{true};
 };
 
 /// @}
-- 
2.43.0


From 9f5f864a5a402911a538d274f5335e614312f20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:53 +0000
Subject: [PATCH 078/100] fix: platforms kept pointing at a host they were
 detached from, which may be gone

---
 platforms/platform_model.cc | 17 ++++++++++++++++-
 platforms/platform_model.h  | 18 ++++++++++--------
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/platforms/platform_model.cc b/platforms/platform_model.cc
index a3001f0..8b54ca5 100644
--- a/platforms/platform_model.cc
+++ b/platforms/platform_model.cc
@@ -13,6 +13,15 @@
 
 using namespace usml::platforms;
 
+/**
+ * Releases the children, which continue without a host.
+ */
+platform_model::~platform_model() {
+    for (const auto& link : _child_manager.list()) {
+        link->child->clear_host(this);
+    }
+}
+
 /**
  * Get all of the motion parameters, locked by a common mutex.
  */
@@ -78,7 +87,8 @@ platform_model::key_type platform_model::add_child(
     const platform_model::sptr& child, const bvector& pos,
     const orientation& orient) {
     write_lock_guard guard(mutex());
-    _child_manager.add(std::make_shared<linkage>(this, child, pos, orient));
+    _child_manager.add(std::make_shared<linkage>(child, pos, orient));
+    child->_host = this;
     update_internals(_time, _position, _orient, _speed, NO_UPDATE);
     return child->keyID();
 }
@@ -88,6 +98,11 @@ platform_model::key_type platform_model::add_child(
  */
 bool platform_model::remove_child(platform_model::key_type keyID) {
     write_lock_guard guard(mutex());
+    linkage::sptr link = _child_manager.find(keyID);
+    if (link == nullptr) {
+        return false;
+    }
+    link->child->clear_host(this);
     return _child_manager.remove(keyID);
 }
 
diff --git a/platforms/platform_model.h b/platforms/platform_model.h
index 5976d19..23124e5 100644
--- a/platforms/platform_model.h
+++ b/platforms/platform_model.h
@@ -72,7 +72,7 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
           _speed(speed) {}
 
     /// Virtual destructor
-    virtual ~platform_model() {}
+    virtual ~platform_model();
 
     /// Mutex to that locks object during changes.
     read_write_lock& mutex() const { return _mutex; }
@@ -199,19 +199,16 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
          * already been assigned a keyID and description, and these values can
          * be reused for this map.
          *
-         * @param host		Reference to the platform that owns this child.
          * @param child		Reference to the child to be linked to the host.
          * @param pos		Position of child relative to host.
          * @param orient	Orientation of child relative to host.
          */
-        linkage(const platform_model* host, platform_model::sptr child,
-                const bvector& pos, const orientation& orient)
+        linkage(platform_model::sptr child, const bvector& pos,
+                const orientation& orient)
             : managed_obj(child->keyID(), child->description()),
               child(child),
               position(pos),
-              orient(orient) {
-            child->_host = host;
-        }
+              orient(orient) {}
 
         /// Reference to the child platform.
         platform_model::sptr child;
@@ -223,6 +220,11 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
         const orientation orient;
     };
 
+    /// Forgets the host, unless platform was attached to another one.
+    void clear_host(const platform_model* host) {
+        _host.compare_exchange_strong(host, nullptr);
+    }
+
     /// Mutex to that locks object during changes.
     mutable read_write_lock _mutex;
 
@@ -230,7 +232,7 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
     manager_template<linkage> _child_manager;
 
     /// Platform that controls the motion of this platform.
-    const platform_model* _host{nullptr};
+    std::atomic<const platform_model*> _host{nullptr};
 
     /**
      * Locks the motion parameters while they are copied. Never held during
-- 
2.43.0


From f63711169a8c4304ddb54579fc3ade1d054c2bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:53 +0000
Subject: [PATCH 079/100] fix: first use of the platform manager by several
 threads at once was a data race

---
 platforms/platform_manager.cc | 16 ++++++++++++----
 platforms/platform_manager.h  |  3 +++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/platforms/platform_manager.cc b/platforms/platform_manager.cc
index ed4c93d..f3df2d6 100755
--- a/platforms/platform_manager.cc
+++ b/platforms/platform_manager.cc
@@ -13,15 +13,22 @@ using namespace usml::platforms;
 std::unique_ptr<platform_manager> platform_manager::_instance;
 
 /** Initializes mutex for singleton construction. */
+read_write_lock platform_manager::_instance_mutex;
+
+/** Initializes mutex for key creation. */
 read_write_lock platform_manager::_mutex;
 
 /**
  * Singleton constructor, implemented using double-checked locking pattern.
  */
 platform_manager* platform_manager::instance() {
-    platform_manager* manager = _instance.get();
+    platform_manager* manager = nullptr;
+    {
+        read_lock_guard guard(_instance_mutex);
+        manager = _instance.get();
+    }
     if (manager == nullptr) {
-        write_lock_guard guard(_mutex);
+        write_lock_guard guard(_instance_mutex);
         manager = _instance.get();
         if (manager == nullptr) {
             manager = new platform_manager();
@@ -36,8 +43,9 @@ platform_manager* platform_manager::instance() {
  * Removes all platforms from the manager and destroys it.
  */
 void platform_manager::reset() {
-    write_lock_guard guard(_mutex);
-    _instance.reset();
+    std::unique_ptr<platform_manager> old;  // destroyed after lock release
+    write_lock_guard guard(_instance_mutex);
+    old.swap(_instance);
 }
 
 /**
diff --git a/platforms/platform_manager.h b/platforms/platform_manager.h
index 52ca391..e045d9a 100755
--- a/platforms/platform_manager.h
+++ b/platforms/platform_manager.h
@@ -54,6 +54,9 @@ class USML_DECLSPEC platform_manager : public manager_template<platform_model> {
     static std::unique_ptr<platform_manager> _instance;
 
     /// Mutex for singleton access.
+    static read_write_lock _instance_mutex;
+
+    /// Mutex for key creation.
     static read_write_lock _mutex;
 
     /// Maximum key value that has been inserted into this manager
-- 
2.43.0


From b1253edd7456b4396798f317793e23919aac7b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:44 +0000
Subject: [PATCH 080/100] fix: a body vector without arguments held whatever
 was in memory, so children without an offset could be anywhere

---
 types/bvector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/bvector.h b/types/bvector.h
index b1b8b7b..4ab4c03 100644
--- a/types/bvector.h
+++ b/types/bvector.h
@@ -25,9 +25,9 @@ class USML_DECLSPEC bvector {
 
    public:
     /**
-     * Constructor using empty parameters.
+     * Constructor using empty parameters, for a vector without length.
      */
-    bvector() : _vector() {}
+    bvector() : bvector(0.0, 0.0, 0.0) {}
 
     /**
      * Constructor using a given front, right, and up.
-- 
2.43.0


From 483f3533a2821bb36377457d06f2b319d3583e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:39 +0000
Subject: [PATCH 081/100] fix: removing a receiver left its pairs with sources
 that do not receive

---
 sensors/sensor_manager.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sensors/sensor_manager.cc b/sensors/sensor_manager.cc
index 0c2415b..6fc1eef 100644
--- a/sensors/sensor_manager.cc
+++ b/sensors/sensor_manager.cc
@@ -282,7 +282,7 @@ void sensor_manager::remove_multistatic_receiver(
     const sensor_model::sptr& receiver,
     update_listener<sensor_pair>* listener) {
     auto receiverID = receiver->keyID();
-    for (auto sourceID : _rcv_list) {
+    for (auto sourceID : _src_list) {
         if (sourceID != receiverID) {
             auto source = platform_manager::instance()->find(sourceID);
             auto hash_key =
-- 
2.43.0


From 1b70092c3c140d252b3d3eecf391bbd83ddae0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:40 +0000
Subject: [PATCH 082/100] fix: first use of the sensor manager by several
 threads at once was a data race

---
 sensors/sensor_manager.cc | 21 +++++++++++++++++----
 sensors/sensor_manager.h  |  5 ++++-
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/sensors/sensor_manager.cc b/sensors/sensor_manager.cc
index 6fc1eef..6b0b355 100644
--- a/sensors/sensor_manager.cc
+++ b/sensors/sensor_manager.cc
@@ -18,6 +18,11 @@ using namespace usml::sensors;
  */
 std::unique_ptr<sensor_manager> sensor_manager::_instance;
 
+/**
+ * Locks creation and destruction of the singleton.
+ */
+read_write_lock sensor_manager::_instance_mutex;
+
 /**
  * The _mutex for the singleton sensor_manager.
  */
@@ -27,9 +32,13 @@ read_write_lock sensor_manager::_mutex;
  * Singleton Constructor - Double Check Locking Pattern DCLP
  */
 sensor_manager* sensor_manager::instance() {
-    sensor_manager* tmp = _instance.get();
+    sensor_manager* tmp = nullptr;
+    {
+        read_lock_guard guard(_instance_mutex);
+        tmp = _instance.get();
+    }
     if (tmp == nullptr) {
-        write_lock_guard guard(_mutex);
+        write_lock_guard guard(_instance_mutex);
         tmp = _instance.get();
         if (tmp == nullptr) {
             tmp = new sensor_manager();
@@ -43,8 +52,12 @@ sensor_manager* sensor_manager::instance() {
  * Reset the sensor_manager instance to empty.
  */
 void sensor_manager::reset() {
-    write_lock_guard guard(_mutex);
-    _instance.reset();
+    std::unique_ptr<sensor_manager> old;  // destroyed after lock release
+    {
+        write_lock_guard guard(_instance_mutex);
+        old.swap(_instance);
+    }
+    old.reset();
     usml::platforms::platform_manager::reset();
 }
 
diff --git a/sensors/sensor_manager.h b/sensors/sensor_manager.h
index df69ebc..6a5a63a 100644
--- a/sensors/sensor_manager.h
+++ b/sensors/sensor_manager.h
@@ -197,7 +197,10 @@ class USML_DECLSPEC sensor_manager : public manager_template<sensor_pair> {
      */
     static std::unique_ptr<sensor_manager> _instance;
 
-    /// Mutex for singleton access.
+    /// Mutex for creation and destruction of the singleton.
+    static read_write_lock _instance_mutex;
+
+    /// Mutex for changes to the list of sensors.
     static read_write_lock _mutex;
 
     /// Frequencies over which propagation is computed (Hz).
-- 
2.43.0


From bb5de6cdba7bdf15c25a023f8ea328bae7463f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:23 +0000
Subject: [PATCH 083/100] fix: wavefront listeners were added and removed
 without a lock while others were notified

---
 wavegen/wavefront_notifier.cc | 32 +++++++++++++++++++++++++++++++-
 wavegen/wavefront_notifier.h  | 23 ++++++++++++++++++++++-
 2 files changed, 53 insertions(+), 2 deletions(-)

diff --git a/wavegen/wavefront_notifier.cc b/wavegen/wavefront_notifier.cc
index 7c69b83..4ee12ca 100644
--- a/wavegen/wavefront_notifier.cc
+++ b/wavegen/wavefront_notifier.cc
@@ -13,6 +13,7 @@ using namespace usml::wavegen;
  * Add an wavefront listener to this object.
  */
 void wavefront_notifier::add_wavefront_listener(wavefront_listener* listener) {
+    std::lock_guard<std::mutex> guard(_listeners_mutex);
     _listeners.insert(listener);
 }
 
@@ -21,7 +22,17 @@ void wavefront_notifier::add_wavefront_listener(wavefront_listener* listener) {
  */
 void wavefront_notifier::remove_wavefront_listener(
     wavefront_listener* listener) {
+    std::unique_lock<std::mutex> guard(_listeners_mutex);
     _listeners.erase(listener);
+    const auto self = std::this_thread::get_id();
+    _notified.wait(guard, [&] {
+        for (const auto& active : _active) {
+            if (active.first == listener && active.second != self) {
+                return false;
+            }
+        }
+        return true;
+    });
 }
 
 /**
@@ -30,7 +41,26 @@ void wavefront_notifier::remove_wavefront_listener(
 void wavefront_notifier::notify_wavefront_listeners(
     const sensor_model* sensor, const eigenray_collection::csptr& eigenrays,
     const eigenverb_collection::csptr& eigenverbs) {
-    for (wavefront_listener* listener : _listeners) {
+    std::set<wavefront_listener*> listeners;
+    {
+        std::lock_guard<std::mutex> guard(_listeners_mutex);
+        listeners = _listeners;
+    }
+    for (wavefront_listener* listener : listeners) {
+        const auto active =
+            std::make_pair(listener, std::this_thread::get_id());
+        {
+            std::lock_guard<std::mutex> guard(_listeners_mutex);
+            if (_listeners.count(listener) == 0) {
+                continue;
+            }
+            _active.insert(active);
+        }
         listener->update_wavefront_data(sensor, eigenrays, eigenverbs);
+        {
+            std::lock_guard<std::mutex> guard(_listeners_mutex);
+            _active.erase(_active.find(active));
+        }
+        _notified.notify_all();
     }
 }
diff --git a/wavegen/wavefront_notifier.h b/wavegen/wavefront_notifier.h
index a51d185..1581b39 100644
--- a/wavegen/wavefront_notifier.h
+++ b/wavegen/wavefront_notifier.h
@@ -9,7 +9,11 @@
 #include <usml/usml_config.h>
 #include <usml/wavegen/wavefront_listener.h>
 
+#include <condition_variable>
+#include <mutex>
 #include <set>
+#include <thread>
+#include <utility>
 
 namespace usml {
 namespace wavegen {
@@ -30,7 +34,9 @@ class USML_DECLSPEC wavefront_notifier {
     void add_wavefront_listener(wavefront_listener* listener);
 
     /**
-     * Remove a wavefront listener to this object.
+     * Remove a wavefront listener to this object. Waits for notifications of
+     * this listener that are under way in other threads, so that the listener
+     * can safely be destroyed afterwards.
      */
     void remove_wavefront_listener(wavefront_listener* listener);
 
@@ -42,10 +48,25 @@ class USML_DECLSPEC wavefront_notifier {
         const eigenverb_collection::csptr& eigenverbs);
 
    private:
+    /**
+     * Locks the list of listeners. Not held while listeners are notified.
+     */
+    std::mutex _listeners_mutex;
+
+    /**
+     * Signals the end of the notification of a listener.
+     */
+    std::condition_variable _notified;
+
     /**
      * List of active wavefront listeners.
      */
     std::set<wavefront_listener*> _listeners;
+
+    /**
+     * Listeners that are currently being notified, and by which thread.
+     */
+    std::multiset<std::pair<wavefront_listener*, std::thread::id> > _active;
 };
 
 /// @}
-- 
2.43.0


From 446702c16e6b17f52da1e1e068bee1746b600bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:23 +0000
Subject: [PATCH 084/100] fix: aborted computations leaked the results they had
 collected

---
 biverbs/biverb_generator.cc    |  4 ++--
 wavegen/wavefront_generator.cc | 21 +++++++++------------
 2 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/biverbs/biverb_generator.cc b/biverbs/biverb_generator.cc
index 03a8bad..3935d0f 100644
--- a/biverbs/biverb_generator.cc
+++ b/biverbs/biverb_generator.cc
@@ -51,7 +51,7 @@ void biverb_generator::run() {
     auto freq = sensor_manager::instance()->frequencies();
     const size_t num_freq = freq->size();
     vector<double> scatter(num_freq, 0.0);
-    auto* collection = new biverb_collection(ocean->num_volume());
+    auto collection = std::make_shared<biverb_collection>(ocean->num_volume());
 
     // loop through eigenverbs for each interface
 
@@ -75,7 +75,7 @@ void biverb_generator::run() {
             }
         }
     }
-    _collection = biverb_collection::csptr(collection);
+    _collection = collection;
     _done = true;
     notify_update(&_collection);
     cout << "task #" << id() << " biverb_generator: done" << endl;
diff --git a/wavegen/wavefront_generator.cc b/wavegen/wavefront_generator.cc
index ba0f041..a290c5d 100755
--- a/wavegen/wavefront_generator.cc
+++ b/wavegen/wavefront_generator.cc
@@ -71,18 +71,19 @@ void wavefront_generator::run() {
 
     // create listener to store eigenrays, if targets exist
 
-    auto* eigenrays = new eigenray_collection(_frequencies, _source_position,
-                                              _target_positions,
-                                              _source->keyID(), _targetIDs);
+    auto eigenrays = std::make_shared<eigenray_collection>(
+        _frequencies, _source_position, _target_positions, _source->keyID(),
+        _targetIDs);
     if (_targetIDs.size1() > 0 && _targetIDs.size2() > 0) {
-        wave.add_eigenray_listener(eigenrays);
+        wave.add_eigenray_listener(eigenrays.get());
     }
 
     // create listener to store eigenverbs
 
-    auto* eigenverbs = new eigenverb_collection(_ocean->num_volume());
+    auto eigenverbs =
+        std::make_shared<eigenverb_collection>(_ocean->num_volume());
     if (_source->compute_reverb()) {
-        wave.add_eigenverb_listener(eigenverbs);
+        wave.add_eigenverb_listener(eigenverbs.get());
     }
 
     // propagate wavefront to build eigenrays and eigenverbs
@@ -113,15 +114,11 @@ void wavefront_generator::run() {
     if (has_wavefront_file) {
         wave.close_netcdf();
     }
-    if (eigenrays != nullptr) {
-        eigenrays->sum_eigenrays();
-    }
+    eigenrays->sum_eigenrays();
 
     // distribute eigenrays and eigenverbs to listeners
 
     _done = true;
-    _source->notify_wavefront_listeners(
-        _source, eigenray_collection::csptr(eigenrays),
-        eigenverb_collection::csptr(eigenverbs));
+    _source->notify_wavefront_listeners(_source, eigenrays, eigenverbs);
     cout << "task #" << id() << " wavefront_generator: done" << endl;
 }
-- 
2.43.0


From 8c04513c897669132984c5cd80c13de93a51f3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:55 +0000
Subject: [PATCH 085/100] fix: computation of a wavefront used its sensor after
 it had been destroyed

---
 platforms/platform_model.h     |  4 +++-
 wavegen/wavefront_generator.cc | 12 ++++++++++++
 wavegen/wavefront_generator.h  |  7 +++++++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/platforms/platform_model.h b/platforms/platform_model.h
index 23124e5..6b4247b 100644
--- a/platforms/platform_model.h
+++ b/platforms/platform_model.h
@@ -15,6 +15,7 @@
 
 #include <atomic>
 #include <list>
+#include <memory>
 #include <mutex>
 #include <string>
 
@@ -40,7 +41,8 @@ using namespace usml::types;
  * notifications for "major" changes like acoustic updates in the sub-classes.
  */
 class platform_model : public managed_obj<uint64_t, platform_model>,
-                       public update_notifier<platform_model> {
+                       public update_notifier<platform_model>,
+                       public std::enable_shared_from_this<platform_model> {
    public:
     /// Thresholds update type.
     enum update_type_enum {
diff --git a/wavegen/wavefront_generator.cc b/wavegen/wavefront_generator.cc
index a290c5d..69c2fd6 100755
--- a/wavegen/wavefront_generator.cc
+++ b/wavegen/wavefront_generator.cc
@@ -33,6 +33,8 @@ wavefront_generator::wavefront_generator(
     int max_bottom, int max_surface, const std::string& wavefront_file)
     : _ocean(ocean_shared::current()),
       _source(source),
+      _source_ref(source->weak_from_this()),
+      _source_shared(!_source_ref.expired()),
       _source_position(source->position()),
       _target_positions(target_positions),
       _targetIDs(targetIDs),
@@ -58,6 +60,16 @@ void wavefront_generator::run() {
         return;
     }
 
+    // keep the sensor alive until its results have been distributed
+
+    const std::shared_ptr<void> source_ref = _source_ref.lock();
+    if (_source_shared && source_ref == nullptr) {
+        cout << "task #" << id()
+             << " wavefront_generator *** sensor has been destroyed ***"
+             << endl;
+        return;
+    }
+
     // create a new wavefront
 
     cout << "task #" << id()
diff --git a/wavegen/wavefront_generator.h b/wavegen/wavefront_generator.h
index fda1f92..16a2f41 100644
--- a/wavegen/wavefront_generator.h
+++ b/wavegen/wavefront_generator.h
@@ -12,6 +12,7 @@
 #include <usml/usml_config.h>
 
 #include <boost/numeric/ublas/matrix.hpp>
+#include <memory>
 
 namespace usml {
 namespace sensors {
@@ -81,6 +82,12 @@ class USML_DECLSPEC wavefront_generator : public thread_task {
     /// Also the destination of wavefront_listener callbacks.
     sensor_model* _source;
 
+    /// Shared reference to the sensor, used to keep it alive during run().
+    std::weak_ptr<void> _source_ref;
+
+    /// False if the sensor is not controlled by shared pointers.
+    bool _source_shared;
+
     /// Position of the source at the time of invocation.
     /// Cached to avoid change while the calculation is being performed.
     const wposition1 _source_position;
-- 
2.43.0


From 564cbe3674616c0aceaf5fc0b91a53151c15dd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:55 +0000
Subject: [PATCH 086/100] fix: a replaced wavefront computation could overwrite
 the results of the newer one

---
 wavegen/wavefront_generator.cc |  3 ++-
 wavegen/wavefront_notifier.cc  |  7 ++++++-
 wavegen/wavefront_notifier.h   | 19 +++++++++++++++++--
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/wavegen/wavefront_generator.cc b/wavegen/wavefront_generator.cc
index 69c2fd6..63f7b53 100755
--- a/wavegen/wavefront_generator.cc
+++ b/wavegen/wavefront_generator.cc
@@ -131,6 +131,7 @@ void wavefront_generator::run() {
     // distribute eigenrays and eigenverbs to listeners
 
     _done = true;
-    _source->notify_wavefront_listeners(_source, eigenrays, eigenverbs);
+    _source->notify_wavefront_listeners(_source, eigenrays, eigenverbs,
+                                        &_abort);
     cout << "task #" << id() << " wavefront_generator: done" << endl;
 }
diff --git a/wavegen/wavefront_notifier.cc b/wavegen/wavefront_notifier.cc
index 4ee12ca..6dd67ce 100644
--- a/wavegen/wavefront_notifier.cc
+++ b/wavegen/wavefront_notifier.cc
@@ -40,7 +40,12 @@ void wavefront_notifier::remove_wavefront_listener(
  */
 void wavefront_notifier::notify_wavefront_listeners(
     const sensor_model* sensor, const eigenray_collection::csptr& eigenrays,
-    const eigenverb_collection::csptr& eigenverbs) {
+    const eigenverb_collection::csptr& eigenverbs,
+    const std::atomic<bool>* superseded) {
+    std::lock_guard<std::recursive_mutex> publish(_publish_mutex);
+    if (superseded != nullptr && *superseded) {
+        return;
+    }
     std::set<wavefront_listener*> listeners;
     {
         std::lock_guard<std::mutex> guard(_listeners_mutex);
diff --git a/wavegen/wavefront_notifier.h b/wavegen/wavefront_notifier.h
index 1581b39..f37b7a5 100644
--- a/wavegen/wavefront_notifier.h
+++ b/wavegen/wavefront_notifier.h
@@ -9,6 +9,7 @@
 #include <usml/usml_config.h>
 #include <usml/wavegen/wavefront_listener.h>
 
+#include <atomic>
 #include <condition_variable>
 #include <mutex>
 #include <set>
@@ -41,13 +42,27 @@ class USML_DECLSPEC wavefront_notifier {
     void remove_wavefront_listener(wavefront_listener* listener);
 
     /**
-     * Distribute wavefront updates to all listeners.
+     * Distribute wavefront updates to all listeners. Updates are distributed
+     * one after the other, so that all listeners see them in the same order.
+     *
+     * @param sensor        Sensor whose wavefront has been computed.
+     * @param eigenrays     Eigenrays of the targets of this sensor.
+     * @param eigenverbs    Eigenverbs of this sensor.
+     * @param superseded    Optional flag that is set when these results have
+     *                      been replaced by a newer computation. They are not
+     *                      distributed if it is set before this starts.
      */
     void notify_wavefront_listeners(
         const sensor_model* sensor, const eigenray_collection::csptr& eigenrays,
-        const eigenverb_collection::csptr& eigenverbs);
+        const eigenverb_collection::csptr& eigenverbs,
+        const std::atomic<bool>* superseded = nullptr);
 
    private:
+    /**
+     * Held while one set of results is being distributed.
+     */
+    std::recursive_mutex _publish_mutex;
+
     /**
      * Locks the list of listeners. Not held while listeners are notified.
      */
-- 
2.43.0


From 8a968faab9b3f7a80052d8696f4c7f5412959574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:55 +0000
Subject: [PATCH 087/100] fix: paths computed from the receiver had both ends
 at the source and angles of the wrong direction of travel

---
 sensors/sensor_pair.cc | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index c7cd34f..4de69c3 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -19,6 +19,7 @@
 #include <usml/types/wposition1.h>
 
 #include <boost/numeric/ublas/matrix.hpp>
+#include <cmath>
 #include <sstream>
 
 using namespace usml::sensors;
@@ -83,37 +84,31 @@ void sensor_pair::update_wavefront_data(
         // eigenray collection has eigenray list for all targets near this
         // sensor find the eigenray list specific to this pair
 
-        auto sourceID = _source->keyID();
-        auto targetID = _receiver->keyID();
-        wposition1 source_pos(_source->position());
-        wposition1 receiver_pos(_receiver->position());
-        eigenray_list raylist = eigenrays->find_eigenrays(targetID);
-
-        // swap source/receiver sense of direct path eigenrays, if needed
-
-        if (_source != _receiver && sensor->keyID() == _receiver->keyID()) {
-            sourceID = _receiver->keyID();
-            targetID = _source->keyID();
-            source_pos = _receiver->position();
-            receiver_pos = _source->position();
-            eigenray_list new_list;
-            for (const auto& ray : eigenrays->find_eigenrays(targetID)) {
+        eigenray_list raylist;
+        if (_source == _receiver || sensor->keyID() == _source->keyID()) {
+            raylist = eigenrays->find_eigenrays(_receiver->keyID());
+        } else {
+            // reverse the direction of travel, so that paths computed from
+            // the receiver also start at the source
+
+            for (const auto& ray : eigenrays->find_eigenrays(_source->keyID())) {
                 auto* copy = new eigenray_model(*ray);
-                std::swap(copy->source_de, copy->target_de);
-                std::swap(copy->source_az, copy->target_az);
-                new_list.push_back(eigenray_model::csptr(copy));
+                copy->source_de = -ray->target_de;
+                copy->source_az = fmod(ray->target_az + 180.0, 360.0);
+                copy->target_de = -ray->source_de;
+                copy->target_az = fmod(ray->source_az + 180.0, 360.0);
+                raylist.push_back(eigenray_model::csptr(copy));
             }
-            raylist = new_list;  // replace original list
         }
 
         // create new direct path collection with just rays for a single target
 
         matrix<uint64_t> receiverID(1, 1);
-        receiverID(0, 0) = targetID;
+        receiverID(0, 0) = _receiver->keyID();
 
         auto* collection = new eigenray_collection(
             eigenrays->frequencies(), _source->position(),
-            wposition(receiver_pos), sourceID, receiverID,
+            wposition(_receiver->position()), _source->keyID(), receiverID,
             eigenrays->coherent());
         for (const auto& ray : raylist) {
             collection->add_eigenray(0, 0, ray);
-- 
2.43.0


From 6697ea5e12944b3e4d467f9e3142892a40b60475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 088/100] fix: replaced overlaps and envelopes were neither
 aborted nor kept from overwriting newer ones, overlaps without schedule were
 not announced and a first schedule without overlaps crashed

---
 biverbs/biverb_generator.h |  10 +++
 rvbts/rvbts_generator.cc   |   7 +-
 rvbts/rvbts_generator.h    |  16 +++++
 sensors/sensor_model.cc    |   3 +-
 sensors/sensor_pair.cc     | 130 +++++++++++++++++++++++++++----------
 sensors/sensor_pair.h      |  33 ++++++++--
 6 files changed, 156 insertions(+), 43 deletions(-)

diff --git a/biverbs/biverb_generator.h b/biverbs/biverb_generator.h
index 1ed4731..7e801bb 100644
--- a/biverbs/biverb_generator.h
+++ b/biverbs/biverb_generator.h
@@ -69,6 +69,16 @@ class USML_DECLSPEC biverb_generator
      */
     virtual void run();
 
+    /**
+     * Checks if these results were computed by this task, but replaced by a
+     * newer computation in the mean time.
+     *
+     * @param result    Reference passed to the listeners of this task.
+     */
+    bool superseded(const biverb_collection::csptr* result) const {
+        return _abort && result == &_collection;
+    }
+
    private:
     /**
      * The sensor pair that instantiated this class
diff --git a/rvbts/rvbts_generator.cc b/rvbts/rvbts_generator.cc
index fdaa55c..1b0e98a 100644
--- a/rvbts/rvbts_generator.cc
+++ b/rvbts/rvbts_generator.cc
@@ -26,7 +26,8 @@ rvbts_generator::rvbts_generator(const sensor_pair::sptr& pair,
                                  const sensor_model::sptr& receiver,
                                  const double treverb,
                                  const biverb_collection::csptr& biverbs)
-    : _description(pair->description()),
+    : _sensor_pair(pair),
+      _description(pair->description()),
       _source(source),
       _source_pos(source->position()),
       _source_orient(source->orient()),
@@ -92,7 +93,7 @@ void rvbts_generator::run() {
     auto* collection = new rvbts_collection(
         _source, _source_pos, _source_orient, _source_speed, _receiver,
         _receiver_pos, _receiver_orient, _receiver_speed, _travel_times);
-    rvbts_collection::csptr result(collection);
+    _collection = rvbts_collection::csptr(collection);
 
     cout << "task #" << id() << " rvbts_generator: " << _description << endl;
 
@@ -121,6 +122,6 @@ void rvbts_generator::run() {
     // notify listeners of results
 
     _done = true;
-    notify_update(&result);
+    notify_update(&_collection);
     cout << "task #" << id() << " rvbts_generator: done" << endl;
 }
diff --git a/rvbts/rvbts_generator.h b/rvbts/rvbts_generator.h
index 421ba40..e649c1d 100644
--- a/rvbts/rvbts_generator.h
+++ b/rvbts/rvbts_generator.h
@@ -65,6 +65,16 @@ class USML_DECLSPEC rvbts_generator
      */
     virtual void run();
 
+    /**
+     * Checks if these results were computed by this task, but replaced by a
+     * newer computation in the mean time.
+     *
+     * @param result    Reference passed to the listeners of this task.
+     */
+    bool superseded(const rvbts_collection::csptr* result) const {
+        return _abort && result == &_collection;
+    }
+
    private:
     /**
      * Compute source steerings for each transmit waveform. Steerings in the
@@ -79,9 +89,15 @@ class USML_DECLSPEC rvbts_generator
      */
     matrix<double> compute_src_steering() const;
 
+    /// The sensor pair that instantiated this class
+    const sensor_pair::sptr _sensor_pair;
+
     /// Human readable name for this object instance.
     const std::string _description;
 
+    /// Reverberation time series generated by this calculation.
+    rvbts_collection::csptr _collection;
+
     /// Reference to source sensor
     const sensor_model::sptr _source;
 
diff --git a/sensors/sensor_model.cc b/sensors/sensor_model.cc
index 7edf8ce..a207148 100644
--- a/sensors/sensor_model.cc
+++ b/sensors/sensor_model.cc
@@ -137,8 +137,7 @@ void sensor_model::transmit_schedule(const transmit_list& schedule,
     if (old_schedule.empty() || update_type == FORCE_UPDATE) {
         sensor_manager* sensor_mgr = sensor_manager::instance();
         for (const sensor_pair::sptr& pair : sensor_mgr->find_source(keyID())) {
-            biverb_collection::csptr biverbs = pair->biverbs();
-            pair->notify_update(&biverbs);
+            pair->update_rvbts();
         }
     }
 }
diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index 4de69c3..8bb3162 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -24,6 +24,41 @@
 
 using namespace usml::sensors;
 
+namespace {
+
+/**
+ * Aborts all unfinished tasks.
+ */
+template <class task_type>
+void abort_tasks(std::list<std::weak_ptr<task_type> >* tasks) {
+    for (auto iter = tasks->begin(); iter != tasks->end();) {
+        const auto task = iter->lock();
+        if (task == nullptr) {
+            iter = tasks->erase(iter);
+        } else {
+            task->abort();
+            ++iter;
+        }
+    }
+}
+
+/**
+ * Checks if results came from a task that was replaced by a newer one.
+ */
+template <class task_type, class result_type>
+bool is_superseded(const std::list<std::weak_ptr<task_type> >& tasks,
+                   const result_type* result) {
+    for (const auto& entry : tasks) {
+        const auto task = entry.lock();
+        if (task != nullptr && task->superseded(result)) {
+            return true;
+        }
+    }
+    return false;
+}
+
+}  // namespace
+
 /**
  * Construct link between source and receiver.
  */
@@ -70,6 +105,14 @@ sensor_model::sptr sensor_pair::complement(
     return _source;
 }
 
+/**
+ * Finds shared reference to this object in the sensor_manager.
+ */
+sensor_pair::sptr sensor_pair::shared_reference() const {
+    auto reference = sensor_manager::instance()->find(keyID());
+    return reference.get() == this ? reference : nullptr;
+}
+
 /**
  * Update eigenrays and eigenverbs using results of the wavefront_generator
  * background task.
@@ -78,6 +121,7 @@ void sensor_pair::update_wavefront_data(
     const sensor_model* sensor, eigenray_collection::csptr eigenrays,
     eigenverb_collection::csptr eigenverbs) {
     bool notify_early{true};
+    const sensor_pair::sptr reference = shared_reference();
     {
         write_lock_guard guard(_mutex);
 
@@ -131,18 +175,15 @@ void sensor_pair::update_wavefront_data(
 
             // launch a new bistatic eigenverb generator background task
 
-            if (_src_eigenverbs != nullptr && _rcv_eigenverbs != nullptr) {
-                if (_biverb_task != nullptr) {  // abort incomplete tasks
-                    _biverb_task->abort();
-                }
-                sensor_pair::sptr reference =
-                    sensor_manager::instance()->find(keyID());
+            if (reference != nullptr && _src_eigenverbs != nullptr &&
+                _rcv_eigenverbs != nullptr) {
+                abort_tasks(&_biverb_tasks);  // abort incomplete tasks
                 eigenverb_collection::csptr src_verbs = _src_eigenverbs;
                 eigenverb_collection::csptr rcv_verbs = _rcv_eigenverbs;
-                _biverb_task = std::make_shared<biverb_generator>(
+                auto task = std::make_shared<biverb_generator>(
                     reference, src_verbs, rcv_verbs);
-                thread_controller::instance()->run(_biverb_task);
-                _biverb_task.reset();  // destroy background task shared pointer
+                _biverb_tasks.push_back(task);
+                thread_controller::instance()->run(task);
             }
         }
     }
@@ -157,41 +198,59 @@ void sensor_pair::update_wavefront_data(
  */
 void sensor_pair::notify_update(const biverb_collection::csptr* object) {
     bool notify_early{true};
+    const sensor_pair::sptr reference = shared_reference();
     {
         write_lock_guard guard(_mutex);
-        _biverbs = *object;
-        if (_source->transmit_schedule().empty()) {
+        if (is_superseded(_biverb_tasks, object)) {
             return;
         }
+        _biverbs = *object;
+        notify_early = !launch_rvbts(reference);
+    }
+    if (notify_early) {
+        notify_update(this);
+    }
+}
 
-        // compute treverb from transmit schedule
+/**
+ * Recompute reverberation time series from the current overlaps.
+ */
+void sensor_pair::update_rvbts() {
+    const sensor_pair::sptr reference = shared_reference();
+    write_lock_guard guard(_mutex);
+    launch_rvbts(reference);
+}
 
-        const double treverb_min = 0.1;
-        double treverb = 0.0;
-        for (const auto& transmit : _source->transmit_schedule()) {
-            if (treverb == 0.0) {
-                treverb = transmit->duration;
-            } else {
-                treverb = std::min(treverb, transmit->duration);
-            }
-        }
-        treverb = std::max(treverb_min, treverb / 2.0);
+/**
+ * Launch a new reverberation time series generator background task.
+ */
+bool sensor_pair::launch_rvbts(const sensor_pair::sptr& reference) {
+    const transmit_list schedule = _source->transmit_schedule();
+    if (schedule.empty() || _biverbs == nullptr || reference == nullptr) {
+        return false;
+    }
 
-        // launch a new reverberation time series generator background task
+    // compute treverb from transmit schedule
 
-        notify_early = false;
-        if (_rvbts_task != nullptr) {  // abort incomplete tasks
-            _rvbts_task->abort();
+    const double treverb_min = 0.1;
+    double treverb = 0.0;
+    for (const auto& transmit : schedule) {
+        if (treverb == 0.0) {
+            treverb = transmit->duration;
+        } else {
+            treverb = std::min(treverb, transmit->duration);
         }
-        sensor_pair::sptr reference = sensor_manager::instance()->find(keyID());
-        _rvbts_task = std::make_shared<rvbts_generator>(
-            reference, _source, _receiver, treverb, _biverbs);
-        thread_controller::instance()->run(_rvbts_task);
-        _rvbts_task.reset();  // destroy background task shared pointer
-    }
-    if (notify_early) {
-        notify_update(this);
     }
+    treverb = std::max(treverb_min, treverb / 2.0);
+
+    // launch a new reverberation time series generator background task
+
+    abort_tasks(&_rvbts_tasks);  // abort incomplete tasks
+    auto task = std::make_shared<rvbts_generator>(
+        reference, _source, _receiver, treverb, _biverbs);
+    _rvbts_tasks.push_back(task);
+    thread_controller::instance()->run(task);
+    return true;
 }
 
 /**
@@ -201,6 +260,9 @@ void sensor_pair::notify_update(const biverb_collection::csptr* object) {
 void sensor_pair::notify_update(const rvbts_collection::csptr* object) {
     {
         write_lock_guard guard(_mutex);
+        if (is_superseded(_rvbts_tasks, object)) {
+            return;
+        }
         _rvbts = *object;
     }
     notify_update(this);
diff --git a/sensors/sensor_pair.h b/sensors/sensor_pair.h
index 0674a08..7e4bba7 100755
--- a/sensors/sensor_pair.h
+++ b/sensors/sensor_pair.h
@@ -201,6 +201,13 @@ class USML_DECLSPEC sensor_pair
      */
     virtual void notify_update(const rvbts_collection::csptr* object) override;
 
+    /**
+     * Recomputes the reverberation time series from the current overlaps in a
+     * background task, when the transmit schedule of the source has changed.
+     * Does nothing if there are no overlaps yet.
+     */
+    void update_rvbts();
+
     /**
      * Notify listeners that acoustic data for this sensor_pair has been
      * updated. Invoked early after eigenrays computed if this pair does not
@@ -212,6 +219,22 @@ class USML_DECLSPEC sensor_pair
     virtual void notify_update(const sensor_pair* object) const override;
 
    private:
+    /**
+     * Finds shared reference to this object in the sensor_manager.
+     *
+     * @return  nullptr if it is not, or no longer, part of the manager.
+     */
+    std::shared_ptr<sensor_pair> shared_reference() const;
+
+    /**
+     * Launch a new reverberation time series generator background task.
+     * Invoked while this object is locked.
+     *
+     * @param reference Shared reference to this object.
+     * @return          False if there is nothing to compute it from.
+     */
+    bool launch_rvbts(const std::shared_ptr<sensor_pair>& reference);
+
     /// Mutex to that locks pair updates.
     mutable read_write_lock _mutex;
 
@@ -241,11 +264,13 @@ class USML_DECLSPEC sensor_pair
     /// Reverberation time series time series.
     rvbts_collection::csptr _rvbts;
 
-    /// Background task used to generate biverb objects.
-    std::shared_ptr<biverb_generator> _biverb_task;
+    /// Unfinished background tasks used to generate biverb objects. All but
+    /// the last one have been aborted.
+    std::list<std::weak_ptr<biverb_generator> > _biverb_tasks;
 
-    /// Background task used to generate reverberation time series objects.
-    std::shared_ptr<rvbts_generator> _rvbts_task;
+    /// Unfinished background tasks used to generate reverberation time series
+    /// objects. All but the last one have been aborted.
+    std::list<std::weak_ptr<rvbts_generator> > _rvbts_tasks;
 };
 
 typedef std::list<sensor_pair::sptr> pair_list;
-- 
2.43.0


From 42ac457377990d1e3b1e7a052c7eff5b09508d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 089/100] fix: beams and update flags of a sensor were changed
 without its lock, unknown channels read past the end

---
 sensors/sensor_model.cc | 13 +++++++++++--
 sensors/sensor_model.h  |  3 ++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/sensors/sensor_model.cc b/sensors/sensor_model.cc
index a207148..9fcfef9 100644
--- a/sensors/sensor_model.cc
+++ b/sensors/sensor_model.cc
@@ -25,7 +25,10 @@ using namespace usml::sensors;
 /**
  * Reset source beams.
  */
-void sensor_model::reset_src_beams() { _src_beams.clear(); }
+void sensor_model::reset_src_beams() {
+    write_lock_guard guard(mutex());
+    _src_beams.clear();
+}
 
 /**
  * Add source beam pattern to this sensor.
@@ -64,7 +67,10 @@ std::list<int> sensor_model::src_keys() const {
 /**
  * Reset receiver beams.
  */
-void sensor_model::reset_rcv_beams() { _rcv_beams.clear(); }
+void sensor_model::reset_rcv_beams() {
+    write_lock_guard guard(mutex());
+    _rcv_beams.clear();
+}
 
 /**
  * Add receiver beam pattern to this sensor.
@@ -96,6 +102,9 @@ bp_model::csptr sensor_model::rcv_beam(int keyID) const {
 bvector sensor_model::rcv_steering(int keyID) const {
     read_lock_guard guard(mutex());
     auto iter = _rcv_steering.find(keyID);
+    if (iter == _rcv_steering.end()) {
+        return bvector(1.0, 0.0, 0.0);
+    }
     return iter->second;
 }
 
diff --git a/sensors/sensor_model.h b/sensors/sensor_model.h
index 5b3b6e9..4f1543e 100644
--- a/sensors/sensor_model.h
+++ b/sensors/sensor_model.h
@@ -19,6 +19,7 @@
 #include <usml/usml_config.h>
 #include <usml/wavegen/wavefront_notifier.h>
 
+#include <atomic>
 #include <cstddef>
 #include <list>
 #include <map>
@@ -379,7 +380,7 @@ class USML_DECLSPEC sensor_model : public platform_model,
     std::string _wavefront_file;
 
     /// True if acoustics ever updated.
-    bool _needs_update{true};
+    std::atomic<bool> _needs_update{true};
 
     /// Location of the platform at last acoustic update.
     wposition1 _update_position;
-- 
2.43.0


From 471dd70dee34da667fdbe358534b560e6c2579c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 090/100] fix: removing a sensor could deadlock with an update
 that was being announced

---
 sensors/sensor_manager.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sensors/sensor_manager.cc b/sensors/sensor_manager.cc
index 6b0b355..7ed8fae 100644
--- a/sensors/sensor_manager.cc
+++ b/sensors/sensor_manager.cc
@@ -129,7 +129,9 @@ void sensor_manager::add_sensor(const sensor_model::sptr& sensor,
  */
 void sensor_manager::remove_sensor(const sensor_model::sptr& sensor,
                                    update_listener<sensor_pair>* listener) {
+    pair_list old_pairs;  // released after lock, pairs wait for their updates
     write_lock_guard guard(_mutex);
+    old_pairs = list();
 
     // remove sensor from the lists of active sources and receivers
 
-- 
2.43.0


From 8d8820d9f28647ea291f7da68134b43a4779cc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 091/100] fix: reverberation added the levels of source,
 overlap and beams instead of multiplying them

---
 rvbts/rvbts_collection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index 9f56918..0d166c4 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -95,7 +95,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
     bvector src_arrival(verb->source_de, verb->source_az);
     src_arrival.rotate(_source_orient, src_arrival);
     src_beam->beam_level(src_arrival, frequencies, &level, steering);
-    double src_level = transmit->source_level + level[0];
+    double src_level = transmit->source_level * level[0];
     if (src_level < power_threshold) {
         return;
     }
@@ -110,7 +110,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
         rcv_arrival.rotate(_receiver_orient, rcv_arrival);
         bvector rcv_steering = _receiver->rcv_steering(rcv);
         rcv_beam->beam_level(rcv_arrival, frequencies, &level, rcv_steering);
-        double rcv_level = src_level + verb_level + level[0];
+        double rcv_level = src_level * verb_level * level[0];
         if (rcv_level < power_threshold) {
             continue;
         }
-- 
2.43.0


From dd5eaecc40b00ba30e0e523a1e66269479dd08f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 092/100] fix: reverberation took angles in radians for degrees
 and rotated them away from the axes of the arrays

---
 rvbts/rvbts_collection.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index 0d166c4..2673852 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -92,9 +92,10 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
     const seq_vector::csptr frequencies(
         new seq_linear(transmit->fcenter, 1.0, 1));
     vector<double> level(1);
-    bvector src_arrival(verb->source_de, verb->source_az);
-    src_arrival.rotate(_source_orient, src_arrival);
-    src_beam->beam_level(src_arrival, frequencies, &level, steering);
+    bvector src_arrival(to_degrees(verb->source_de),
+                        to_degrees(verb->source_az));
+    src_beam->beam_level(src_arrival, _source_orient, frequencies, &level,
+                         steering);
     double src_level = transmit->source_level * level[0];
     if (src_level < power_threshold) {
         return;
@@ -106,10 +107,11 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
         // compute received level for this transmission
 
         bp_model::csptr rcv_beam = _receiver->rcv_beam(rcv);
-        bvector rcv_arrival(verb->receiver_de, verb->receiver_az);
-        rcv_arrival.rotate(_receiver_orient, rcv_arrival);
+        bvector rcv_arrival(to_degrees(verb->receiver_de),
+                            to_degrees(verb->receiver_az));
         bvector rcv_steering = _receiver->rcv_steering(rcv);
-        rcv_beam->beam_level(rcv_arrival, frequencies, &level, rcv_steering);
+        rcv_beam->beam_level(rcv_arrival, _receiver_orient, frequencies,
+                             &level, rcv_steering);
         double rcv_level = src_level * verb_level * level[0];
         if (rcv_level < power_threshold) {
             continue;
-- 
2.43.0


From 8fa9074a60ae633ac8e83b0de111760d4923171d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 093/100] fix: reverberation read past the power of the last
 frequency, interpolated in the wrong interval and ignored the pulse length
 for several frequencies

---
 rvbts/rvbts_collection.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index 2673852..edd97ce 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -74,17 +74,15 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
 
     // interpolate eigenverb power
 
-    double verb_level = verb->power[0] * transmit->duration;
+    double verb_power = verb->power[0];
     if (verb->frequencies->size() > 1) {
         double freq = transmit->fcenter;
         const seq_vector &axis = *(verb->frequencies);
-        size_t index = axis.find_nearest(freq);
-        if (index >= axis.size()) {
-            --index;
-        }
+        size_t index = axis.find_index(freq);
         double u = (freq - axis[index]) / axis.increment(index);
-        verb_level = u * verb->power[index + 1] + (1 - u) * verb->power[index];
+        verb_power = u * verb->power[index + 1] + (1 - u) * verb->power[index];
     }
+    const double verb_level = verb_power * transmit->duration;
 
     // compute source level for this transmission
 
-- 
2.43.0


From df5a79f8d4d88e3487e123ebed6a4c2390a0bfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 094/100] fix: reverberation used channel numbers as row
 numbers, started from uninitialized memory and crashed without the ordered
 beam

---
 rvbts/rvbts_collection.cc | 17 ++++++++++++++---
 rvbts/rvbts_collection.h  |  4 ++++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index edd97ce..908f644 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -47,7 +47,9 @@ rvbts_collection::rvbts_collection(
       _receiver_orient(receiver_orient),
       _receiver_speed(receiver_speed),
       _travel_times(travel_times),
-      _time_series(receiver->rcv_num_keys(), travel_times->size()) {}
+      _channels(receiver->rcv_keys()),
+      _time_series(boost::numeric::ublas::zero_matrix<double>(
+          _channels.size(), travel_times->size())) {}
 
 /**
  * Adds the intensity contribution for a single bistatic eigenverb.
@@ -87,6 +89,9 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
     // compute source level for this transmission
 
     bp_model::csptr src_beam = _source->src_beam(transmit->transmit_mode);
+    if (src_beam == nullptr) {
+        return;
+    }
     const seq_vector::csptr frequencies(
         new seq_linear(transmit->fcenter, 1.0, 1));
     vector<double> level(1);
@@ -101,10 +106,16 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
 
     // add Gaussian to each receiver channel
 
-    for (int rcv : this->_receiver->rcv_keys()) {
+    size_t row = 0;
+    for (int rcv : _channels) {
+        const size_t channel = row++;
+
         // compute received level for this transmission
 
         bp_model::csptr rcv_beam = _receiver->rcv_beam(rcv);
+        if (rcv_beam == nullptr) {
+            continue;
+        }
         bvector rcv_arrival(to_degrees(verb->receiver_de),
                             to_degrees(verb->receiver_az));
         bvector rcv_steering = _receiver->rcv_steering(rcv);
@@ -119,7 +130,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
 
         for (size_t n = 0; n < gaussian.size(); ++n) {
             auto t = n + first;
-            _time_series(rcv, t) += rcv_level * gaussian[n];
+            _time_series(channel, t) += rcv_level * gaussian[n];
         }
     }
 }
diff --git a/rvbts/rvbts_collection.h b/rvbts/rvbts_collection.h
index e068708..32662fe 100644
--- a/rvbts/rvbts_collection.h
+++ b/rvbts/rvbts_collection.h
@@ -13,6 +13,7 @@
 #include <usml/usml_config.h>
 
 #include <boost/numeric/ublas/matrix.hpp>
+#include <list>
 #include <memory>
 
 namespace usml {
@@ -223,6 +224,9 @@ class USML_DECLSPEC rvbts_collection {
     /// Receiver times at which reverberation is computed (sec).
     const seq_vector::csptr _travel_times;
 
+    /// Receiver channel for each row of the time series.
+    const std::list<int> _channels;
+
     /// Reverberation time series for each receiver channel.
     matrix<double> _time_series;
 };
-- 
2.43.0


From 756070bd078ba461dc25ebb9d162dc3adfeed606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 095/100] fix: reverberation left out the last two samples of
 its time axis

---
 rvbts/rvbts_collection.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index 908f644..d1a932e 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -16,6 +16,7 @@
 #include <boost/numeric/ublas/vector.hpp>
 #include <boost/numeric/ublas/vector_expression.hpp>
 #include <boost/numeric/ublas/vector_proxy.hpp>
+#include <algorithm>
 #include <cmath>
 #include <cstddef>
 #include <list>
@@ -64,7 +65,8 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
     const auto duration = verb->duration + transmit->duration;
     const auto delay = transmit->delay + verb->travel_time + duration;
     size_t first = _travel_times->find_index(delay - 5.0 * duration);
-    size_t last = _travel_times->find_index(delay + 5.0 * duration);
+    size_t last = std::min(_travel_times->find_index(delay + 5.0 * duration) + 2,
+                           _travel_times->size());
     range window(first, last);
 
     // update Gaussian time series in this window
-- 
2.43.0


From d4c589a71f86b40630a06aad92da97f8aaf97f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 096/100] fix: all pulses of a schedule were sent at the same
 time instead of one after the other

---
 rvbts/rvbts_collection.cc | 5 +++--
 rvbts/rvbts_collection.h  | 3 ++-
 rvbts/rvbts_generator.cc  | 4 +++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index d1a932e..24adf23 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -57,13 +57,14 @@ rvbts_collection::rvbts_collection(
  */
 void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
                                   const transmit_model::csptr &transmit,
-                                  const bvector &steering) {
+                                  const bvector &steering, double start) {
     static const double SQRT_TWO_PI = sqrt(TWO_PI);
 
     // find range of time indices to update
 
     const auto duration = verb->duration + transmit->duration;
-    const auto delay = transmit->delay + verb->travel_time + duration;
+    const auto delay =
+        start + transmit->delay + verb->travel_time + duration;
     size_t first = _travel_times->find_index(delay - 5.0 * duration);
     size_t last = std::min(_travel_times->find_index(delay + 5.0 * duration) + 2,
                            _travel_times->size());
diff --git a/rvbts/rvbts_collection.h b/rvbts/rvbts_collection.h
index 32662fe..baee264 100644
--- a/rvbts/rvbts_collection.h
+++ b/rvbts/rvbts_collection.h
@@ -120,10 +120,11 @@ class USML_DECLSPEC rvbts_collection {
      * @param verb	   	Bistatic eigenverb for time series contribution.
      * @param transmit	Single waveform in a transmission schedule.
      * @param steering 	Transmit steering relative to source array.
+     * @param start 	Time at which the previous pulse was completed (sec).
      */
     void add_biverb(const biverb_model::csptr& verb,
                     const transmit_model::csptr& transmit,
-                    const bvector& steering);
+                    const bvector& steering, double start = 0.0);
 
     /**
      * Writes reverberation time series data to disk.
diff --git a/rvbts/rvbts_generator.cc b/rvbts/rvbts_generator.cc
index 1b0e98a..7fdf8de 100644
--- a/rvbts/rvbts_generator.cc
+++ b/rvbts/rvbts_generator.cc
@@ -104,10 +104,12 @@ void rvbts_generator::run() {
         auto verb_list = _biverbs->biverbs(interface);
         for (const auto& verb : verb_list) {
             int n = 0;
+            double start = 0.0;
             for (const auto& transmit : _transmit_schedule) {
                 bvector steering(
                     matrix_column<matrix<double> >(_source_steering, n));
-                collection->add_biverb(verb, transmit, steering);
+                collection->add_biverb(verb, transmit, steering, start);
+                start += transmit->delay + transmit->duration;
                 if (_abort) {
                     cout << "task #" << id()
                          << " rvbts_generator *** aborted during execution ***"
-- 
2.43.0


From 81f83a6ea4a18244acff58c7360def429eafe84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 097/100] fix: adding a sensor could deadlock with an update of
 all platforms

---
 sensors/sensor_manager.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/sensors/sensor_manager.cc b/sensors/sensor_manager.cc
index 7ed8fae..6c44502 100644
--- a/sensors/sensor_manager.cc
+++ b/sensors/sensor_manager.cc
@@ -82,6 +82,11 @@ void sensor_manager::frequencies(const seq_vector::csptr& freq) {
  */
 void sensor_manager::add_sensor(const sensor_model::sptr& sensor,
                                 update_listener<sensor_pair>* listener) {
+    // sensor must not be locked after manager, updates do it the other way
+
+    const bool is_source = sensor->is_source();
+    const bool is_receiver = sensor->is_receiver();
+
     write_lock_guard guard(_mutex);
     if (_frequencies == nullptr || _frequencies->size() < 1) {
         throw freq_missing();
@@ -98,26 +103,26 @@ void sensor_manager::add_sensor(const sensor_model::sptr& sensor,
 
     // add sensor ID to the lists of active sources and receivers
 
-    if (sensor->is_source()) {
+    if (is_source) {
         _src_list.insert(sensor->keyID());
     }
-    if (sensor->is_receiver()) {
+    if (is_receiver) {
         _rcv_list.insert(sensor->keyID());
     }
 
     // add monostatic pair if this sensor can both transmit and receive
 
-    if (sensor->is_source() && sensor->is_receiver()) {
+    if (is_source && is_receiver) {
         add_monostatic_pair(sensor, listener);
     }
 
     // add bistatic pairs for other sensors in the same multistatic group
 
     if (multistatic > 0) {
-        if (sensor->is_source()) {
+        if (is_source) {
             add_multistatic_source(sensor, multistatic, listener);
         }
-        if (sensor->is_receiver()) {
+        if (is_receiver) {
             add_multistatic_receiver(sensor, multistatic, listener);
         }
     }
-- 
2.43.0


From 46d07b5bf7865d636d61f9e6abbb8e1d0dc921d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 098/100] fix: overlaps crashed when the sensors were reset or
 the ocean was replaced while they were computed

---
 biverbs/biverb_generator.cc | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/biverbs/biverb_generator.cc b/biverbs/biverb_generator.cc
index 3935d0f..7784aa2 100644
--- a/biverbs/biverb_generator.cc
+++ b/biverbs/biverb_generator.cc
@@ -12,6 +12,7 @@
 #include <usml/types/seq_vector.h>
 
 #include <boost/numeric/ublas/vector.hpp>
+#include <algorithm>
 #include <iostream>
 #include <memory>
 
@@ -48,18 +49,28 @@ void biverb_generator::run() {
     // initialize workspace for results
 
     auto ocean = ocean_shared::current();
-    auto freq = sensor_manager::instance()->frequencies();
-    const size_t num_freq = freq->size();
-    vector<double> scatter(num_freq, 0.0);
-    auto collection = std::make_shared<biverb_collection>(ocean->num_volume());
+    if (ocean == nullptr) {
+        cout << "task #" << id() << " biverb_generator: *** no ocean ***"
+             << endl;
+        return;
+    }
+
+    // the ocean may have changed since the eigenverbs were computed
+
+    const size_t num_interfaces =
+        std::min({_src_eigenverbs->num_interfaces(),
+                  _rcv_eigenverbs->num_interfaces(),
+                  2 * (1 + ocean->num_volume())});
+    auto collection =
+        std::make_shared<biverb_collection>(num_interfaces / 2 - 1);
 
     // loop through eigenverbs for each interface
 
-    auto num_interfaces = _rcv_eigenverbs->num_interfaces();
     for (size_t interface = 0; interface < num_interfaces; ++interface) {
         for (const auto& rcv_verb : _rcv_eigenverbs->eigenverbs(interface)) {
             eigenverb_list found_verbs =
                 _src_eigenverbs->find_eigenverbs(rcv_verb, interface);
+            vector<double> scatter(rcv_verb->frequencies->size(), 0.0);
             for (const auto& src_verb : found_verbs) {
                 ocean->scattering(interface, rcv_verb->position,
                                   rcv_verb->frequencies, src_verb->grazing,
-- 
2.43.0


From 68553cef7e1c8eaf1c585afc109205f7f9ed9154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:58 +0000
Subject: [PATCH 099/100] fix: Gaussian beams next to the last elevation used
 the normalization of the second

---
 waveq3d/spreading_hybrid_gaussian.cc | 39 ++++------------------------
 1 file changed, 5 insertions(+), 34 deletions(-)

diff --git a/waveq3d/spreading_hybrid_gaussian.cc b/waveq3d/spreading_hybrid_gaussian.cc
index 3fad1ed..0968365 100644
--- a/waveq3d/spreading_hybrid_gaussian.cc
+++ b/waveq3d/spreading_hybrid_gaussian.cc
@@ -49,7 +49,7 @@ spreading_hybrid_gaussian::spreading_hybrid_gaussian(wave_queue& wave)
     _norm_de(wave.num_de() - 1) = _norm_de(wave.num_de() - 2);
     size_t n = wave.num_de() - 1;
     size_t m = wave.num_de() - 2;
-    for (size_t a = 0; a < wave._source_az->size() - 1; ++a) {
+    for (size_t a = 0; a < wave._source_az->size(); ++a) {
         _init_area(n, a) = _init_area(m, a);
         _norm_az(n, a) = _norm_az(m, a);
     }
@@ -268,8 +268,6 @@ void spreading_hybrid_gaussian::intensity_az(size_t de, size_t az,
     size_t az_upper;
     size_t az_lower;
     size_t max_az;
-    size_t max_de;
-    max_de = _wave._source_de->size() - 2;  // Maximum allowed DE
     max_az = _wave._source_az->size() - 1;  // Maximum index in AZ
 
     // Check for an az branch point condition and set the upper and lower
@@ -292,14 +290,7 @@ void spreading_hybrid_gaussian::intensity_az(size_t de, size_t az,
     double cell_dist = L - cell_width;  // dist from center of this cell
     double _new_norm;
 
-    // Check for an abnormal normalization constant, ie when DE is close to a de
-    // branch pt
-
-    if (de >= max_de) {
-        _new_norm = _norm_az(1, a);
-    } else {
-        _new_norm = _norm_az(de, a);
-    }
+    _new_norm = _norm_az(de, a);
     _intensity_az = gaussian(cell_dist, cell_width, _new_norm);
 
     // contribution from AZ angle one lower than central cell
@@ -313,14 +304,7 @@ void spreading_hybrid_gaussian::intensity_az(size_t de, size_t az,
     cell_width = width_az(de, a, offset);  // half width of this cell
     cell_dist = L + cell_width;            // dist from center of this cell
 
-    // Check for an abnormal normalization constant, ie when DE is close to a de
-    // branch pt
-
-    if (de >= max_de) {
-        _new_norm = _norm_az(1, a);
-    } else {
-        _new_norm = _norm_az(de, a);
-    }
+    _new_norm = _norm_az(de, a);
     _intensity_az += gaussian(cell_dist, cell_width, _new_norm);
 
     // exit early if central rays have a tiny contribution
@@ -358,14 +342,7 @@ void spreading_hybrid_gaussian::intensity_az(size_t de, size_t az,
 
         const double old_tl = _intensity_az(0);
 
-        // Check for an abnormal normalization constant, ie when DE is close to
-        // a de branch pt
-
-        if (de >= max_de) {
-            _new_norm = _norm_az(1, a);
-        } else {
-            _new_norm = _norm_az(de, a);
-        }
+        _new_norm = _norm_az(de, a);
         _intensity_az += gaussian(cell_dist, cell_width, _new_norm);
 
         if (_intensity_az(0) / old_tl < THRESHOLD) {
@@ -408,13 +385,7 @@ void spreading_hybrid_gaussian::intensity_az(size_t de, size_t az,
         // compute propagation loss contribution of this cell
 
         const double old_tl = _intensity_az(0);
-        // Check for an abnormal normalization constant, ie when DE is close to
-        // a de branch pt
-        if (de >= max_de) {
-            _new_norm = _norm_az(1, a);
-        } else {
-            _new_norm = _norm_az(de, a);
-        }
+        _new_norm = _norm_az(de, a);
         _intensity_az += gaussian(cell_dist, cell_width, _new_norm);
 
         if (_intensity_az(0) / old_tl < THRESHOLD) {
-- 
2.43.0


From fa72b42036aa67b4d6f5063e99d68f15acad67dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:17 +0000
Subject: [PATCH 100/100] fix: widths of Gaussian beams next to the last
 elevation ignored the last ray

---
 waveq3d/spreading_hybrid_gaussian.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/waveq3d/spreading_hybrid_gaussian.cc b/waveq3d/spreading_hybrid_gaussian.cc
index 0968365..9e87b0a 100644
--- a/waveq3d/spreading_hybrid_gaussian.cc
+++ b/waveq3d/spreading_hybrid_gaussian.cc
@@ -492,8 +492,8 @@ double spreading_hybrid_gaussian::width_az(size_t de, size_t az,
     size_t az_wrap;
     size_t de_upper = de;
     // Check for DE branch point condition
-    if (de + 1 >= max_de) {
-        de_upper = max_de - 2;
+    if (de + 1 > max_de) {
+        de_upper = max_de - 1;
     } else {
         de_upper = de;
     }
-- 
2.43.0

