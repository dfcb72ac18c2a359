From 28ec5101e427cc5a173c088bd0732941b84d9192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 01/32] fix: List += and extend lose the elements of the list
 itself

---
 sources/list.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index b279934..87c2369 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -187,7 +187,7 @@ public:
     {
         internal::check_full(size() / 2 + list.size() / 2, INT_MAX / 2);
 
-        vector_.insert(end(), list.begin(), list.end());
+        extend(list.begin(), list.end());
 
         return *this;
     }
@@ -322,7 +322,9 @@ public:
     template <std::input_iterator InputIt>
     void extend(const InputIt& first, const InputIt& last)
     {
-        vector_.insert(vector_.end(), first, last);
+        // take the elements first: the range may refer to this list, and copying an element may fail
+        std::vector<T> buffer(first, last);
+        vector_.insert(vector_.end(), std::make_move_iterator(buffer.begin()), std::make_move_iterator(buffer.end()));
     }
 
     /// Remove all of the elements from the list.
-- 
2.43.0


From c78f142c41d441a23eb18d34cb8f5a190114507e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 02/32] fix: List /= an element of the list itself

---
 sources/list.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index 87c2369..f12bf13 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -212,7 +212,8 @@ public:
     /// Remove all the specified `element`s from the list.
     List& operator/=(const T& element)
     {
-        auto it = std::remove(vector_.begin(), vector_.end(), element);
+        const T value = element; // `element` may refer to an element of this list
+        auto it = std::remove(vector_.begin(), vector_.end(), value);
         vector_.erase(it, vector_.end());
         return *this;
     }
-- 
2.43.0


From 9c2df98b3582d488646fa912a6a39983b5b6e6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 03/32] fix: erase of an inverted range is undefined behavior

---
 sources/list.hpp | 2 +-
 sources/str.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index f12bf13..e1787fd 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -293,7 +293,7 @@ public:
     List& erase(int start, int stop)
     {
         internal::check_bounds(start, 0, size() + 1);
-        internal::check_bounds(stop, 0, size() + 1);
+        internal::check_bounds(stop, start, size() + 1);
 
         vector_.erase(vector_.begin() + start, vector_.begin() + stop);
 
diff --git a/sources/str.hpp b/sources/str.hpp
index 5b85716..b606ea4 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -537,7 +537,7 @@ public:
     Str erase(int start, int stop) const
     {
         internal::check_bounds(start, 0, size() + 1);
-        internal::check_bounds(stop, 0, size() + 1);
+        internal::check_bounds(stop, start, size() + 1);
 
         std::string buffer = str_;
         buffer.erase(buffer.begin() + start, buffer.begin() + stop);
-- 
2.43.0


From 90905f8ddd5852911a9114e5bf5200448a06a6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 04/32] fix: searching an inverted range reads out of bounds

---
 sources/list.hpp | 5 +++++
 sources/str.hpp  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/sources/list.hpp b/sources/list.hpp
index e1787fd..645736e 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -127,6 +127,11 @@ public:
     int index(const T& element, int start = 0, int stop = INT_MAX) const
     {
         stop = stop > size() ? size() : stop;
+        if (start > stop)
+        {
+            return -1;
+        }
+
         auto it = std::find(begin() + start, begin() + stop, element);
         return it == begin() + stop ? -1 : it - begin();
     }
diff --git a/sources/str.hpp b/sources/str.hpp
index b606ea4..39af732 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -230,6 +230,11 @@ public:
         }
 
         stop = stop > size() ? size() : stop;
+        if (start > stop)
+        {
+            return -1;
+        }
+
         std::string_view view(str_.data() + start, stop - start);
         auto pos = view.find(pattern.str_);
 
-- 
2.43.0


From eeda16ef40b405127aa668092ad2bf8ab0353796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 05/32] fix: slice overflows the index with a huge step

---
 sources/list.hpp | 2 +-
 sources/str.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index 645736e..59c3186 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -361,7 +361,7 @@ public:
 
         // copy
         std::vector<T> buffer;
-        for (int i = start; (step > 0) ? (i < stop) : (i > stop); i += step)
+        for (long long i = start; (step > 0) ? (i < stop) : (i > stop); i += step)
         {
             buffer.push_back(vector_[i]);
         }
diff --git a/sources/str.hpp b/sources/str.hpp
index 39af732..cd10fd9 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -617,7 +617,7 @@ public:
 
         // copy
         std::string buffer;
-        for (int i = start; (step > 0) ? (i < stop) : (i > stop); i += step)
+        for (long long i = start; (step > 0) ? (i < stop) : (i > stop); i += step)
         {
             buffer += str_[i];
         }
-- 
2.43.0


From debf4cc3f450aff517a23ba928e41a2b3b229efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 06/32] fix: right rotation by INT_MIN overflows

---
 sources/deque.hpp | 7 +------
 sources/list.hpp  | 7 +------
 sources/str.hpp   | 7 +------
 3 files changed, 3 insertions(+), 18 deletions(-)

diff --git a/sources/deque.hpp b/sources/deque.hpp
index 0fbd3ce..ab8114f 100644
--- a/sources/deque.hpp
+++ b/sources/deque.hpp
@@ -209,12 +209,7 @@ public:
             return *this;
         }
 
-        if (n < 0)
-        {
-            return *this <<= -n;
-        }
-
-        return *this <<= size() - n;
+        return *this <<= -(n % size());
     }
 
     /// Rotate `n` elements to the left.
diff --git a/sources/list.hpp b/sources/list.hpp
index 59c3186..bd1eabb 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -231,12 +231,7 @@ public:
             return *this;
         }
 
-        if (n < 0)
-        {
-            return *this <<= -n;
-        }
-
-        return *this <<= size() - n;
+        return *this <<= -(n % size());
     }
 
     /// Rotate the list to left `n` elements.
diff --git a/sources/str.hpp b/sources/str.hpp
index cd10fd9..70bdca1 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -480,12 +480,7 @@ public:
             return *this;
         }
 
-        if (n < 0)
-        {
-            return *this << -n;
-        }
-
-        return *this << size() - n;
+        return *this << -(n % size());
     }
 
     /// Copy and rotate the string to left `n` characters.
-- 
2.43.0


From 4f613b143e6509ef55ea02efef27899a43cc0649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 07/32] fix: repeating a List or Str overflows the size

---
 sources/list.hpp    | 2 +-
 sources/str.hpp     | 2 ++
 sources/utility.hpp | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index bd1eabb..32fd931 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -390,7 +390,7 @@ public:
             throw std::runtime_error("Error: Times to repeat can not be less than zero.");
         }
 
-        internal::check_full(size() * times, INT_MAX);
+        internal::check_full(1LL * size() * times, INT_MAX);
 
         std::vector<T> buffer(size() * times);
         for (int part = 0; part < times; part++)
diff --git a/sources/str.hpp b/sources/str.hpp
index 70bdca1..619a477 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -640,6 +640,8 @@ public:
             throw std::runtime_error("Error: Times to repeat can not be less than zero.");
         }
 
+        internal::check_full(1LL * size() * times, INT_MAX);
+
         std::string buffer(size() * times, 0);
         for (int part = 0; part < times; part++)
         {
diff --git a/sources/utility.hpp b/sources/utility.hpp
index 7dce01e..c45c72a 100644
--- a/sources/utility.hpp
+++ b/sources/utility.hpp
@@ -46,7 +46,7 @@ static inline void check_empty(int size)
 }
 
 // Check whether there is any remaining capacity.
-static inline void check_full(int size, int capacity)
+static inline void check_full(long long size, long long capacity)
 {
     if (size >= capacity)
     {
-- 
2.43.0


From 2e034cd93c0d642ee043a7c6305e21dad072592d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 08/32] fix: Set.pop() loses the element when copying it fails

---
 sources/set.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/set.hpp b/sources/set.hpp
index bb0768c..d600c02 100644
--- a/sources/set.hpp
+++ b/sources/set.hpp
@@ -174,7 +174,10 @@ public:
     {
         internal::check_empty(size());
 
-        return set_.extract(set_.begin()).value();
+        T element = *set_.cbegin(); // copy first, since copying may fail
+        set_.erase(set_.cbegin());
+
+        return element;
     }
 
     /// Intersection.
-- 
2.43.0


From 5ca542e62426de22197d9c3001a8bfcf5465f983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 09/32] fix: Dict.pop() loses the item when copying it fails

---
 sources/dict.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/dict.hpp b/sources/dict.hpp
index 33d971e..5b2f357 100644
--- a/sources/dict.hpp
+++ b/sources/dict.hpp
@@ -208,8 +208,10 @@ public:
     {
         internal::check_empty(size());
 
-        auto node = map_.extract(begin());
-        return Pair<K, V>{node.key(), node.mapped()};
+        Pair<K, V> pair = *map_.cbegin(); // copy first, since copying may fail
+        map_.erase(map_.cbegin());
+
+        return pair;
     }
 
     /// Extend the dictionary by adding elements of the range [`first`, `last`).
-- 
2.43.0


From 2dfa0c5328db66abb2372496932dd7530c5b6f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 10/32] fix: min() and max() of an empty Dict are undefined
 behavior

---
 sources/dict.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/dict.hpp b/sources/dict.hpp
index 5b2f357..ae0921c 100644
--- a/sources/dict.hpp
+++ b/sources/dict.hpp
@@ -146,12 +146,16 @@ public:
     /// Get the smallest key of the dictionary.
     K min() const
     {
+        internal::check_empty(size());
+
         return map_.cbegin()->first;
     }
 
     /// Get the largest key of the dictionary.
     K max() const
     {
+        internal::check_empty(size());
+
         return map_.crbegin()->first;
     }
 
-- 
2.43.0


From e31396aa02bb9f8e6b97f47e322e87c7f33c144e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 11/32] fix: Int subtraction writes past the end for operands
 of equal length

---
 sources/int.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index 83999b6..9fa98eb 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -405,7 +405,10 @@ public:
         {
             auto tmp = a[i] - b[i];
             a[i] = cycle_mod(tmp, BASE);
-            a[i + 1] += floor_div(tmp, BASE);
+            if (tmp < 0) // borrow, the higher digit exists since a >= b
+            {
+                --a[i + 1];
+            }
         }
         for (int i = b.size(); i < a.size() && a[i] < 0; ++i) // carry
         {
-- 
2.43.0


From 4ea7fce62cb031236a953fbe2c09c86cba1d0545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 12/32] fix: adding an Int to itself is wrong and writes out of
 bounds

---
 sources/int.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/int.hpp b/sources/int.hpp
index 9fa98eb..8351791 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -338,6 +338,12 @@ public:
     /// Return this += `rhs`.
     Int& operator+=(const Int& rhs)
     {
+        // if the operands are the same object, add a copy
+        if (this == &rhs)
+        {
+            return *this += Int(rhs);
+        }
+
         // if one of the operands is zero, just return another one
         if (sign_ == 0 || rhs.sign_ == 0)
         {
-- 
2.43.0


From f6f39d7b46dc7cfdfeede3ff326a7a501aa4e14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 13/32] fix: a failed Int assignment or increment leaves an
 inconsistent sign

---
 sources/int.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index 8351791..d0c8a47 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -252,7 +252,13 @@ public:
      */
 
     /// Copy assignment operator.
-    Int& operator=(const Int& that) = default;
+    Int& operator=(const Int& that)
+    {
+        chunks_ = that.chunks_; // may throw, so before the sign
+        sign_ = that.sign_;
+
+        return *this;
+    }
 
     /// Move assignment operator.
     Int& operator=(Int&& that)
@@ -552,8 +558,8 @@ public:
     {
         if (sign_ == 0)
         {
+            chunks_.push_back(1); // may throw, so before the sign
             sign_ = 1;
-            chunks_.push_back(1);
         }
         else
         {
@@ -568,8 +574,8 @@ public:
     {
         if (sign_ == 0)
         {
+            chunks_.push_back(1); // may throw, so before the sign
             sign_ = -1;
-            chunks_.push_back(1);
         }
         else
         {
-- 
2.43.0


From 6a6652ea31ff1845bfc00108e7f414c0fa6c3f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 14/32] fix: a failed Int division or modulus destroys the
 dividend

---
 sources/int.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index d0c8a47..3d958b8 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -490,7 +490,7 @@ public:
         result.sign_ = (sign_ == rhs.sign_ ? 1 : -1); // the sign is depends on the sign of operands
         result.chunks_.resize(size);
 
-        sign_ = 1;
+        Int rest = abs(); // what is left of this, which must not change if something below throws
 
         // calculation
         for (int i = size - 1; i >= 0; --i)
@@ -500,10 +500,10 @@ public:
             // my guess is that deque's various operations take longer than vector's
             tmp.chunks_.erase(tmp.chunks_.begin());
 
-            while (*this >= tmp) // <= 9 loops, so O(1)
+            while (rest >= tmp) // <= 9 loops, so O(1)
             {
                 result.chunks_[i]++;
-                *this -= tmp;
+                rest -= tmp;
             }
         }
 
@@ -527,7 +527,7 @@ public:
         // prepare variables
         int size = chunks_.size() - rhs.chunks_.size() + 1;
 
-        sign_ = 1;
+        Int rest = abs(); // what is left of this, which must not change if something below throws
 
         Int tmp;       // intermediate variable for rhs * 10^i
         tmp.sign_ = 1; // positive
@@ -544,13 +544,13 @@ public:
             // my guess is that deque's various operations take longer than vector's
             tmp.chunks_.erase(tmp.chunks_.begin());
 
-            while (*this >= tmp) // <= 9 loops, so O(1)
+            while (rest >= tmp) // <= 9 loops, so O(1)
             {
-                *this -= tmp;
+                rest -= tmp;
             }
         }
 
-        return trim();
+        return *this = std::move(rest);
     }
 
     /// Increment the value by 1 quickly.
-- 
2.43.0


From 41219eb64fb4dcb6f539c13c3af2f6e1fa72b598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 15/32] fix: Int modulus loses the sign of the dividend

---
 sources/int.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sources/int.hpp b/sources/int.hpp
index 3d958b8..3825299 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -550,6 +550,9 @@ public:
             }
         }
 
+        // the sign of the remainder is the same as the dividend
+        rest.sign_ *= sign_;
+
         return *this = std::move(rest);
     }
 
-- 
2.43.0


From e6e51237c6f0a7b8afeeeab13d9b403a580627b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 16/32] fix: Int(INT_MIN) is not a valid integer

---
 sources/int.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index 3825299..79a548e 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -161,11 +161,11 @@ public:
     Int(int integer = 0)
     {
         sign_ = integer == 0 ? 0 : (integer > 0 ? 1 : -1);
-        integer = std::abs(integer);
-        while (integer > 0)
+        unsigned value = integer < 0 ? 0u - unsigned(integer) : integer; // std::abs(INT_MIN) overflows
+        while (value > 0)
         {
-            chunks_.push_back(integer % BASE);
-            integer /= BASE;
+            chunks_.push_back(value % BASE);
+            value /= BASE;
         }
     }
 
-- 
2.43.0


From da7c1dc359e392151f476337277c37e39022e2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 17/32] fix: to_integer() overflows for the minimum of the type

---
 sources/int.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index 79a548e..f08d295 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -700,9 +700,9 @@ public:
         T result = 0;
         for (int i = chunks_.size() - 1; i >= 0; --i) // i = -1 if is zero, ok
         {
-            result = result * BASE + chunks_[i];
+            result = result * BASE + chunks_[i] * sign_; // the minimum of T has no opposite value
         }
-        return result * sign_;
+        return result;
     }
 
     /*
-- 
2.43.0


From efbf962b917b043acd70d44db1eb5c8dd38f337e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 18/32] fix: Int::sqrt() never terminates for k*k-1

---
 sources/int.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index f08d295..f38c2b5 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -733,14 +733,17 @@ public:
         Int cur_sqrt{1, std::vector<int>(integer.chunks_.size() / 2, 0)};
         cur_sqrt.chunks_.push_back(1);
 
+        // after one iteration it is not less than the result, and then it decreases until the result
+        cur_sqrt = (cur_sqrt + integer / cur_sqrt) / 2;
+
         Int pre_sqrt;
-        while (cur_sqrt != pre_sqrt)
+        do
         {
             pre_sqrt = cur_sqrt;
             cur_sqrt = (cur_sqrt + integer / cur_sqrt) / 2;
-        }
+        } while (cur_sqrt < pre_sqrt);
 
-        return cur_sqrt;
+        return pre_sqrt;
     }
 
     /// Return `(base**exp) % mod` (`mod` default = 0 means does not perform module).
-- 
2.43.0


From b1180751e79693e9d5a1249c41c1b3094791f16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 19/32] fix: Int::pow() ignores the modulus for an exponent of
 0 or a base of 1

---
 sources/int.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index f38c2b5..c80e9fd 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -753,7 +753,8 @@ public:
         // if base.abs() is 1, only when base is negative and exp is odd return -1, otherwise return 1
         if (base.digits() == 1 && base.chunks_[0] == 1)
         {
-            return base.sign_ == -1 && exp.is_odd() ? -1 : 1;
+            Int result = base.sign_ == -1 && exp.is_odd() ? -1 : 1;
+            return mod.is_zero() ? result : result % mod;
         }
 
         // then, check if exp is negative
@@ -771,7 +772,7 @@ public:
 
         Int num = base;
         Int n = exp;
-        Int result = 1; // this**0 == 1
+        Int result = mod.is_zero() ? Int(1) : Int(1) % mod; // this**0 == 1
 
         while (!n.is_zero())
         {
-- 
2.43.0


From 481c44d130feb5a436029fcb02c1c31d3e73f512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 20/32] fix: extracting a Fraction or Complex from an exhausted
 stream never terminates

---
 sources/complex.hpp  | 2 +-
 sources/fraction.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/complex.hpp b/sources/complex.hpp
index e4f4244..a6a9189 100644
--- a/sources/complex.hpp
+++ b/sources/complex.hpp
@@ -224,7 +224,7 @@ public:
     /// ```
     friend std::istream& operator>>(std::istream& is, Complex& complex)
     {
-        while (is.peek() <= 0x20)
+        while (is && is.peek() <= 0x20) // is.peek() is EOF (-1) forever when the stream ends or fails
         {
             is.ignore();
         }
diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 19a226e..a6c0321 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -263,7 +263,7 @@ public:
     /// ```
     friend std::istream& operator>>(std::istream& is, Fraction& fraction)
     {
-        while (is.peek() <= 0x20)
+        while (is && is.peek() <= 0x20) // is.peek() is EOF (-1) forever when the stream ends or fails
         {
             is.ignore();
         }
-- 
2.43.0


From 8f75f91d4546a7b1ec879f96bac2485b2fc5e933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 21/32] fix: extraction of Fraction and Complex accepts
 malformed, truncated and failed input

---
 sources/complex.hpp  | 18 ++++++++++++------
 sources/fraction.hpp | 13 +++++++------
 sources/utility.hpp  | 12 ++++++++++++
 3 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/sources/complex.hpp b/sources/complex.hpp
index a6a9189..a747ca4 100644
--- a/sources/complex.hpp
+++ b/sources/complex.hpp
@@ -234,8 +234,11 @@ public:
         }
 
         double real;
-        is >> real;
-        if (is.peek() <= 0x20) // next char is white space, ok
+        if (!(is >> real)) // handle "+-1" or overflow
+        {
+            throw std::runtime_error("Error: Wrong complex literal.");
+        }
+        if (internal::is_token_end(is)) // next char is white space, ok
         {
             complex = real;
             return is;
@@ -243,7 +246,7 @@ public:
         if (is.peek() == 'j') // next char is 'j', ok
         {
             is.get();
-            if (is.peek() <= 0x20) // next char is white space, ok
+            if (internal::is_token_end(is)) // next char is white space, ok
             {
                 complex = Complex(0, real);
                 return is;
@@ -251,10 +254,13 @@ public:
             throw std::runtime_error("Error: Wrong complex literal.");
         }
 
+        if (is.peek() != '-' && is.peek() != '+') // handle "1z+2j" or "1.5.5j" or "1jj2j"
+        {
+            throw std::runtime_error("Error: Wrong complex literal.");
+        }
+
         double imag;
-        char c;
-        is >> imag >> c;
-        if (c != 'j' || is.peek() > 0x20) // handle "1z+2j" or "1+z2j" or "1+2zj" or "1jj2j"
+        if (!(is >> imag) || is.get() != 'j' || !internal::is_token_end(is)) // handle "1+z2j" or "1+2zj" or "1+2 j" or overflow
         {
             throw std::runtime_error("Error: Wrong complex literal.");
         }
diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index a6c0321..9301d7b 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -273,22 +273,23 @@ public:
         }
 
         int num;
-        is >> num;
-        if (is.peek() <= 0x20) // next char is white space, ok
+        if (!(is >> num)) // handle "+-1" or overflow
+        {
+            throw std::runtime_error("Error: Wrong fraction literal.");
+        }
+        if (internal::is_token_end(is)) // next char is white space, ok
         {
             fraction = num;
             return is;
         }
 
-        char c;
+        int c = is.get();
         int den;
-        is >> c;
         if (!(std::isdigit(is.peek()) || is.peek() == '-' || is.peek() == '+')) // handle "1z/2" or "1/z2"
         {
             throw std::runtime_error("Error: Wrong fraction literal.");
         }
-        is >> den;
-        if (c != '/' || is.peek() > 0x20) // handle "1|2" or "1/2z"
+        if (!(is >> den) || c != '/' || !internal::is_token_end(is)) // handle "1|2" or "1/2z" or overflow
         {
             throw std::runtime_error("Error: Wrong fraction literal.");
         }
diff --git a/sources/utility.hpp b/sources/utility.hpp
index c45c72a..0313444 100644
--- a/sources/utility.hpp
+++ b/sources/utility.hpp
@@ -64,6 +64,18 @@ static inline void check_zero(T number)
     }
 }
 
+// Check whether the token that has just been extracted ends here, by a blank or by the end of the stream.
+static inline bool is_token_end(std::istream& is)
+{
+    if (is.eof()) // do not peek, which turns the end of the stream into a failure
+    {
+        return true;
+    }
+
+    bool result = is.peek() <= 0x20;
+    return result && !is.bad();
+}
+
 // Print helper for Pair.
 // This function can only be placed here because of the header file reference order.
 template <typename K, typename V>
-- 
2.43.0


From d3b91a178cf9e754cc06c49179ad69d04924644a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 22/32] fix: extraction of Int accepts a token cut short by an
 error or by a null character

---
 sources/int.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index c80e9fd..4e2ec29 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -899,7 +899,10 @@ public:
     friend std::istream& operator>>(std::istream& is, Int& integer)
     {
         std::string str;
-        is >> str;
+        if (!(is >> str) || str.find('\0') != std::string::npos) // the token is incomplete or contains '\0'
+        {
+            throw std::runtime_error("Error: Wrong integer literal.");
+        }
         integer = str.c_str();
 
         return is;
-- 
2.43.0


From cf5c334e517353d2a7a23aa29c7b850c5c67dabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:04 +0000
Subject: [PATCH 23/32] fix: Fraction with INT_MIN as numerator or denominator
 is undefined behavior

---
 sources/fraction.hpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 9301d7b..82d39e3 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -34,17 +34,28 @@ public:
         // make sure the denominator is not zero
         internal::check_zero(denominator_);
 
+        // use a wider type, since INT_MIN has no opposite value
+        long long num = numerator_;
+        long long den = denominator_;
+
         // make sure the denominator is a positive number
-        if (denominator_ < 0)
+        if (den < 0)
         {
-            numerator_ = -numerator_;
-            denominator_ = -denominator_;
+            num = -num;
+            den = -den;
         }
 
         // simplify
-        int gcd = std::gcd(numerator_, denominator_);
-        numerator_ /= gcd;
-        denominator_ /= gcd;
+        long long gcd = std::gcd(num, den);
+        num /= gcd;
+        den /= gcd;
+
+        if (num > INT_MAX || den > INT_MAX)
+        {
+            throw std::runtime_error("Error: Fraction out of range.");
+        }
+        numerator_ = num;
+        denominator_ = den;
     }
 
     /// Copy constructor.
-- 
2.43.0


From 113ceb7b62d4323db96ae3a99663129fa5df2076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 24/32] fix: insertion of Int leaves the fill character of the
 stream changed

---
 sources/int.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index 4e2ec29..2fbdfd7 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -889,7 +889,10 @@ public:
         if (integer.chunks_.size() > 1)
         {
             std::for_each(integer.chunks_.rbegin() + 1, integer.chunks_.rend(), [&](const auto& c)
-                          { os << std::setw(Int::DIGITS_PER_CHUNK) << std::setfill('0') << std::to_string(c); });
+                          {
+                              const std::string digits = std::to_string(c);
+                              os << std::string(Int::DIGITS_PER_CHUNK - digits.size(), '0') + digits; // leading zeros without changing the fill character of os
+                          });
         }
 
         return os;
-- 
2.43.0


From eca523ba2330fdd58e90bd205f04ee68cc9b63ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 25/32] fix: Str::lower() and Str::upper() corrupt characters
 that are not letters

---
 sources/str.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index 619a477..f31d9f6 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -518,7 +518,7 @@ public:
     {
         std::string buffer = str_;
         std::for_each(buffer.begin(), buffer.end(), [](char& c)
-                      { c |= 0b0010'0000; });
+                      { c |= (c >= 'A' && c <= 'Z') ? 0b0010'0000 : 0; });
 
         return buffer;
     }
@@ -528,7 +528,7 @@ public:
     {
         std::string buffer = str_;
         std::for_each(buffer.begin(), buffer.end(), [](char& c)
-                      { c &= 0b1101'1111; });
+                      { c &= (c >= 'a' && c <= 'z') ? 0b1101'1111 : 0b1111'1111; });
 
         return buffer;
     }
-- 
2.43.0


From 42295eeedc7f9594d408f3726c955a4ec3ee0ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 26/32] fix: Str::strip() removes non-ASCII bytes as blank
 characters

---
 sources/str.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index f31d9f6..ea72e48 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -578,14 +578,14 @@ public:
         std::string buffer = str_;
 
         int i = 0;
-        while (i < int(buffer.size()) && (ch == -1 ? buffer[i] <= 0x20 : buffer[i] == ch))
+        while (i < int(buffer.size()) && (ch == -1 ? static_cast<unsigned char>(buffer[i]) <= 0x20 : buffer[i] == ch))
         {
             ++i;
         }
         buffer.erase(buffer.begin(), buffer.begin() + i);
 
         i = buffer.size() - 1;
-        while (i >= 0 && (ch == -1 ? buffer[i] <= 0x20 : buffer[i] == ch))
+        while (i >= 0 && (ch == -1 ? static_cast<unsigned char>(buffer[i]) <= 0x20 : buffer[i] == ch))
         {
             --i;
         }
-- 
2.43.0


From 64ac9f906fa64caff8b35194f0344c08510ce9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 27/32] fix: Str::replace() of the empty string truncates the
 replacement and loses text on allocation failure

---
 sources/str.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index ea72e48..59d505c 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -556,9 +556,14 @@ public:
     {
         if (old_str.is_empty())
         {
-            std::ostringstream ss;
-            std::copy(str_.begin(), str_.end(), std::ostream_iterator<char>(ss, new_str.data()));
-            return new_str.str_ + ss.str();
+            std::string buffer = new_str.str_;
+            for (const char& c : str_)
+            {
+                buffer += c;
+                buffer += new_str.str_;
+            }
+
+            return buffer;
         }
 
         std::string buffer;
-- 
2.43.0


From 2159d5253ea0caca524a0accaf08da07ba3640de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 28/32] fix: Str::format() returns a truncated string when an
 allocation fails

---
 sources/str.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/str.hpp b/sources/str.hpp
index 59d505c..2a21db1 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -717,6 +717,7 @@ public:
     Str format(const Args&... args) const
     {
         std::ostringstream oss;
+        oss.exceptions(std::ios_base::badbit); // a failed allocation must not truncate the result
         std::string_view str(str_);
         (format_helper(oss, str, args), ...);
         oss << str;
-- 
2.43.0


From 1646cb97a9d065ba75ee84a34bbbe3e457bb512c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 29/32] fix: a Str longer than INT_MAX characters was accepted
 with a wrapped size

---
 sources/str.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/str.hpp b/sources/str.hpp
index 2a21db1..1eccb53 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -120,6 +120,7 @@ public:
     Str(const std::string& string)
         : str_(string)
     {
+        internal::check_full(str_.size(), INT_MAX + 1LL); // size() is an int
     }
 
     /// Copy constructor.
-- 
2.43.0


From 62604a311524d507c43accd6af7b6774c9768bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 30/32] fix: List.extend() beyond INT_MAX elements was accepted
 with a wrapped size

---
 sources/list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/list.hpp b/sources/list.hpp
index 32fd931..de9aec2 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -325,6 +325,7 @@ public:
     {
         // take the elements first: the range may refer to this list, and copying an element may fail
         std::vector<T> buffer(first, last);
+        internal::check_full(vector_.size() + buffer.size(), INT_MAX + 1LL); // size() is an int
         vector_.insert(vector_.end(), std::make_move_iterator(buffer.begin()), std::make_move_iterator(buffer.end()));
     }
 
-- 
2.43.0


From d1d22f52460929fc37768d2525dc514ba1712d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:39 +0000
Subject: [PATCH 31/32] fix: Fraction ordering overflowed int and reversed the
 order of large fractions

---
 sources/fraction.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 82d39e3..0226b02 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -80,10 +80,10 @@ public:
         // this = a/b; that = c/d;
         // so, this - that = a/b - c/d = (ad - bc)/(bd)
         // since bd is always positive, compute (ad-bc) only
-        int a = this->numerator_;
-        int b = this->denominator_;
-        int c = that.numerator_;
-        int d = that.denominator_;
+        long long a = this->numerator_;
+        long long b = this->denominator_;
+        long long c = that.numerator_;
+        long long d = that.denominator_;
 
         return a * d - b * c;
     }
-- 
2.43.0


From 73bbe90bee8bfe09566de9985e23dd8bceea2272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:39 +0000
Subject: [PATCH 32/32] fix: distinct fractions compared equal through double
 although their hashes differ

---
 sources/fraction.hpp | 7 +++++++
 sources/utility.hpp  | 1 +
 2 files changed, 8 insertions(+)

diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 0226b02..6b944f7 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -74,6 +74,13 @@ public:
      * Comparison
      */
 
+    /// Determine whether this fraction is equal to another fraction.
+    template <std::same_as<Fraction> T> // comparing with a number still goes through double
+    bool operator==(const T& that) const
+    {
+        return numerator_ == that.numerator_ && denominator_ == that.denominator_; // both are simplified
+    }
+
     /// Compare the fraction with another fraction.
     auto operator<=>(const Fraction& that) const
     {
diff --git a/sources/utility.hpp b/sources/utility.hpp
index 0313444..52d718a 100644
--- a/sources/utility.hpp
+++ b/sources/utility.hpp
@@ -9,6 +9,7 @@
 #include <algorithm>   // std::copy std::find std::rotate ...
 #include <climits>     // INT_MAX
 #include <cmath>       // std::abs std::pow std::sqrt std::atan2 std::hypot INFINITY NAN
+#include <concepts>    // std::same_as
 #include <cstring>     // std::strlen
 #include <iomanip>     // std::setw std::setfill
 #include <istream>     // std::istream
-- 
2.43.0

