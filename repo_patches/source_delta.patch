From 8f5313ff7ff8284edefe79edaf1c5ad86cbc3c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:52 +0000
Subject: [PATCH 01/31] fix: value_snapshot inequality returned equality

---
 cxxmetrics/snapshots.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 89eca9e..3fc081f 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -67,12 +67,12 @@ inline bool value_snapshot::operator==(const metric_value &value) const noexcept
 
 inline bool value_snapshot::operator!=(const value_snapshot &other) const noexcept
 {
-    return value_ == other.value_;
+    return value_ != other.value_;
 }
 
 inline bool value_snapshot::operator!=(const metric_value &value) const noexcept
 {
-    return value_ == value;
+    return value_ != value;
 }
 
 class cumulative_value_snapshot : public value_snapshot
-- 
2.43.0


From aa03b0f77aa669e4db63ca9b5c9b50d26de7986d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:00 +0000
Subject: [PATCH 02/31] fix: metric_value comparisons truncated the other
 operand and were not antisymmetric

---
 cxxmetrics/metric_value.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 55271e1..afebcbb 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -145,17 +145,13 @@ public:
     int compare(const variant_data& other) const noexcept override
     {
         bool valid;
-        auto lv = static_cast<T>(other.to_integral(&valid));
+        auto fv = other.to_float(&valid);
         if (!valid)
-        {
-            auto fv = other.to_float(&valid);
-            if (!valid)
-                return -1;
-
-            return val_ < fv ? -1 : val_ == fv ? 0 : 1;
-        }
+            return -1;
 
-        return val_ - lv;
+        // a long double represents every integral value exactly
+        auto v = to_float(nullptr);
+        return v < fv ? -1 : v == fv ? 0 : 1;
     }
 };
 
@@ -248,7 +244,7 @@ public:
     int compare(const variant_data& other) const noexcept override
     {
         bool valid;
-        auto fv = static_cast<T>(other.to_float(&valid));
+        auto fv = other.to_float(&valid);
         if (!valid)
             return -1;
 
@@ -672,6 +668,8 @@ public:
 
     int compare(const variant_data_holder& other) const
     {
+        if (other.as<variant_data>()->type_score() > as<variant_data>()->type_score())
+            return -other.as<variant_data>()->compare(*as<variant_data>());
         return as<variant_data>()->compare(*other.as<variant_data>());
     }
 
-- 
2.43.0


From 62a5d395066a0657ff85f5c549b87b6c77fb75fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:32 +0000
Subject: [PATCH 03/31] fix: metric_value division was inverted when the
 divisor had the wider type

---
 cxxmetrics/metric_value.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index afebcbb..b5cf09c 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -690,7 +690,12 @@ public:
     variant_data_holder divide(const variant_data_holder& other) const
     {
         if (other.as<variant_data>()->type_score() > as<variant_data>()->type_score())
-            return other.uc_div(*this);
+        {
+            // promote the dividend to the type of the divisor: dividing by zero leaves that type's zero
+            variant_data_holder result(other.uc_div(variant_data_holder(0)));
+            result.as<variant_data>()->add(*as<variant_data>());
+            return result.uc_div(other);
+        }
         return uc_div(other);
     }
 
-- 
2.43.0


From beae4f587d683525799e3d29663b59e12df30886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:40 +0000
Subject: [PATCH 04/31] fix: metric_value subtraction negated narrow unsigned
 operands before widening them

---
 cxxmetrics/metric_value.hpp | 43 +++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index b5cf09c..3b3215c 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -26,6 +26,7 @@ public:
     virtual void copy(void* into) const noexcept = 0;
     virtual void move(void* into) noexcept { return copy(into); }
     virtual void add(const variant_data& other) noexcept = 0;
+    virtual void subtract(const variant_data& other) noexcept = 0;
     virtual void multiply(const variant_data& other) noexcept = 0;
     virtual void divide(const variant_data& other) noexcept = 0;
     virtual void negate() noexcept = 0;
@@ -92,6 +93,16 @@ public:
             val_ += other.to_float(nullptr);
     }
 
+    void subtract(const variant_data& other) noexcept override
+    {
+        bool valid;
+        auto lv = other.to_integral(&valid);
+        if (valid)
+            val_ -= lv;
+        else
+            val_ -= other.to_float(nullptr);
+    }
+
     void multiply(const variant_data& other) noexcept override
     {
         bool valid;
@@ -211,6 +222,11 @@ public:
         val_ += other.to_float(nullptr);
     }
 
+    void subtract(const variant_data& other) noexcept override
+    {
+        val_ -= other.to_float(nullptr);
+    }
+
     void multiply(const variant_data& other) noexcept override
     {
         bool valid;
@@ -357,6 +373,13 @@ public:
         val_ += other.to_string();
     }
 
+    void subtract(const variant_data& other) noexcept override
+    {
+        string_variant_data negated(other.to_string());
+        negated.negate();
+        add(negated);
+    }
+
     void multiply(const variant_data& other) noexcept override
     {
     }
@@ -455,6 +478,11 @@ public:
         dur_ += std::chrono::duration_cast<std::chrono::duration<TRep, TPeriod>>(other.to_nanos(nullptr));
     }
 
+    void subtract(const variant_data& other) noexcept override
+    {
+        dur_ -= std::chrono::duration_cast<std::chrono::duration<TRep, TPeriod>>(other.to_nanos(nullptr));
+    }
+
     void multiply(const variant_data& other) noexcept override
     {
         bool valid;
@@ -680,6 +708,17 @@ public:
         return uc_add(other);
     }
 
+    variant_data_holder subtract(const variant_data_holder& other) const
+    {
+        if (other.as<variant_data>()->type_score() > as<variant_data>()->type_score())
+            return other.negate().uc_add(*this);
+
+        variant_data_holder result(as<variant_data>());
+        result.as<variant_data>()->subtract(*other.as<variant_data>());
+
+        return result;
+    }
+
     variant_data_holder multiply(const variant_data_holder& other) const
     {
         if (other.as<variant_data>()->type_score() > as<variant_data>()->type_score())
@@ -756,7 +795,7 @@ public:
 
     metric_value& operator-=(const metric_value& other)
     {
-        value_ = (value_.add(other.value_.negate()));
+        value_ = (value_.subtract(other.value_));
         return *this;
     }
 
@@ -779,7 +818,7 @@ public:
 
     metric_value operator-(const metric_value& other) const
     {
-        return metric_value(value_.add(other.value_.negate()));
+        return metric_value(value_.subtract(other.value_));
     }
 
     metric_value operator/(const metric_value& other) const
-- 
2.43.0


From 9cc7b9c405bd5d288aa808514776050903743443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 05/31] fix: metric_value arithmetic of a 64 bit integer and a
 float dropped the fraction

---
 cxxmetrics/metric_value.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 3b3215c..b7d8f91 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -214,7 +214,7 @@ public:
 
     int type_score() const override
     {
-        return (sizeof(T) * 20);
+        return (sizeof(T) * 20) + 3; // above the 64 bit integers and durations, also for float
     }
 
     void add(const variant_data& other) noexcept override
-- 
2.43.0


From 2253a8729176384f6ed2546ce1f11b92d93bf595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 06/31] fix: equal metric values and equal tag collections
 could hash differently

---
 cxxmetrics/metric_value.hpp   | 14 +++++++++++---
 cxxmetrics/tag_collection.hpp |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index b7d8f91..1295b2f 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -70,7 +70,8 @@ public:
 
     std::size_t hash_value() const override
     {
-        return std::hash<T>()(val_);
+        // equal numbers hash the same whatever their type
+        return std::hash<long double>()(to_float(nullptr));
     }
 
     void copy(void* into) const noexcept override
@@ -204,7 +205,8 @@ public:
 
     std::size_t hash_value() const override
     {
-        return std::hash<T>()(val_);
+        // equal numbers hash the same whatever their type
+        return std::hash<long double>()(to_float(nullptr));
     }
 
     void copy(void* into) const noexcept override
@@ -350,6 +352,11 @@ public:
 
     std::size_t hash_value() const override
     {
+        // a string can be equal to the number that it represents
+        bool valid;
+        auto fv = to_float(&valid);
+        if (valid)
+            return std::hash<long double>()(fv);
         return std::hash<std::string>()(val_);
     }
 
@@ -457,7 +464,8 @@ public:
 
     std::size_t hash_value() const override
     {
-        return std::hash<std::chrono::duration<TRep, TPeriod>>()(dur_);
+        // equal durations hash the same whatever their unit
+        return std::hash<long double>()(static_cast<long double>(to_nanos(nullptr).count()));
     }
 
     void copy(void* into) const noexcept override
diff --git a/cxxmetrics/tag_collection.hpp b/cxxmetrics/tag_collection.hpp
index bc5f4ce..c2cb7ea 100644
--- a/cxxmetrics/tag_collection.hpp
+++ b/cxxmetrics/tag_collection.hpp
@@ -70,7 +70,7 @@ struct hash<cxxmetrics::tag_collection>
         std::hash<std::string> h;
         std::hash<cxxmetrics::metric_value> v;
         for (const auto& p : collection)
-            result = (result * 397) ^ (h(p.first) ^ v(p.second));
+            result += (h(p.first) * 397) ^ v(p.second); // equal collections can iterate in a different order
 
         return result;
     }
-- 
2.43.0


From 2d6775438002c4754a288bee7fb7c5538ec6fe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:26 +0000
Subject: [PATCH 07/31] fix: prefixing a path with an empty literal added an
 empty element

---
 cxxmetrics/metric_path.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/cxxmetrics/metric_path.hpp b/cxxmetrics/metric_path.hpp
index af3d62e..b2b456b 100644
--- a/cxxmetrics/metric_path.hpp
+++ b/cxxmetrics/metric_path.hpp
@@ -121,13 +121,7 @@ inline bool metric_path::operator!=(const cxxmetrics::metric_path &other) const
 template<std::size_t Size>
 inline metric_path operator/(const char (&pstr)[Size], const metric_path& other)
 {
-    std::vector<std::string> paths;
-    paths.reserve(other.paths_.size() + 1);
-
-    paths.emplace_back(pstr);
-    paths.insert(paths.end(), other.paths_.begin(), other.paths_.end());
-
-    return metric_path(std::move(paths));
+    return metric_path(pstr) / other;
 }
 
 }
-- 
2.43.0


From d20985753c96f9d548cc4f42e5cc66076e16dada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:46 +0000
Subject: [PATCH 08/31] fix: copies of a ringbuf were empty and its assignment
 returned nothing

---
 cxxmetrics/ringbuf.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cxxmetrics/ringbuf.hpp b/cxxmetrics/ringbuf.hpp
index a954d79..b35ffd7 100644
--- a/cxxmetrics/ringbuf.hpp
+++ b/cxxmetrics/ringbuf.hpp
@@ -195,6 +195,7 @@ ringbuf<TElemType, TSize>::ringbuf(TInputIterator start, const TInputIterator &e
         data_[i] = *start;
 
     tail_ = i;
+    size_ = i;
 }
 
 
@@ -207,6 +208,9 @@ ringbuf<TElemType, TSize>::ringbuf(const ringbuf &other) noexcept :
 template<typename TElemType, size_t TSize>
 ringbuf<TElemType, TSize> &ringbuf<TElemType, TSize>::operator=(const ringbuf &other) noexcept
 {
+    if (this == &other)
+        return *this;
+
     tail_ = 0;
     size_ = 0;
 
@@ -216,6 +220,8 @@ ringbuf<TElemType, TSize> &ringbuf<TElemType, TSize>::operator=(const ringbuf &o
         data_[i] = *it;
 
     tail_ = i;
+    size_ = i;
+    return *this;
 }
 
 template<typename TElemType, size_t TSize>
-- 
2.43.0


From d9e43cbccfcd8b86afbab3f01d406372ee87b7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 09/31] fix: assigning a sliding_window_reservoir flowed off
 the end of a function with a result

---
 cxxmetrics/sliding_window.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cxxmetrics/sliding_window.hpp b/cxxmetrics/sliding_window.hpp
index daf46f1..b10c5e0 100644
--- a/cxxmetrics/sliding_window.hpp
+++ b/cxxmetrics/sliding_window.hpp
@@ -250,6 +250,7 @@ sliding_window_reservoir<TElem, TMaxSize, TClockGet>::operator=(const sliding_wi
     data_ = other.data_;
     clock_ = other.clock_;
     window_ = other.window_;
+    return *this;
 }
 
 template<typename TElem, size_t TMaxSize, typename TClockGet>
-- 
2.43.0


From 2faecfe1ed33aeeeb0a1d668fa9a472555a14c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 10/31] fix: uniform_reservoir could write past its end and
 could not be assigned

---
 cxxmetrics/uniform_reservoir.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cxxmetrics/uniform_reservoir.hpp b/cxxmetrics/uniform_reservoir.hpp
index fda6148..e0f9734 100644
--- a/cxxmetrics/uniform_reservoir.hpp
+++ b/cxxmetrics/uniform_reservoir.hpp
@@ -82,17 +82,19 @@ uniform_reservoir<TElem, TSize>::uniform_reservoir() noexcept :
 template<typename TElem, std::size_t TSize>
 uniform_reservoir<TElem, TSize>::uniform_reservoir(const uniform_reservoir &other) noexcept :
         gen_(generate_seed()),
-        count_(other.count_.load())
+        count_(0)
 {
-    for (std::size_t i = 0; i < count_; i++)
-        elems_[i] = other.elems_[i];
+    *this = other;
 }
 
 template<typename TElem, std::size_t TSize>
 uniform_reservoir<TElem, TSize> &uniform_reservoir<TElem, TSize>::operator=(const uniform_reservoir &other) noexcept
 {
-    elems_ = other.elems_;
-    count_ = other.count_;
+    auto count = std::min(other.count_.load(), static_cast<decltype(count_.load())>(TSize));
+    for (std::size_t i = 0; i < count; i++)
+        elems_[i] = other.elems_[i];
+
+    count_ = count;
     return *this;
 }
 
@@ -110,7 +112,7 @@ void uniform_reservoir<TElem, TSize>::update(const TElem &value) noexcept
     // so we don't run out of count
     count_.store(TSize);
 
-    std::uniform_int_distribution<> d(0, TSize);
+    std::uniform_int_distribution<> d(0, TSize - 1);
     elems_[d(gen_)] = value;
 }
 
-- 
2.43.0


From f5f076f546bdc4b5462055341a8c9058c5f952bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:24 +0000
Subject: [PATCH 11/31] fix: merging histogram snapshots dropped, repeated and
 invented values

---
 cxxmetrics/snapshots.hpp | 120 ++-------------------------------------
 1 file changed, 5 insertions(+), 115 deletions(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 3fc081f..75278e5 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -4,6 +4,7 @@
 #include <unordered_map>
 #include <vector>
 #include <algorithm>
+#include <iterator>
 #include "meta.hpp"
 #include "metric_value.hpp"
 
@@ -425,119 +426,6 @@ inline reservoir_snapshot& reservoir_snapshot::operator=(reservoir_snapshot&& ot
 class histogram_snapshot : public reservoir_snapshot
 {
     uint64_t count_;
-
-    template<typename TContainer1, typename TContainer2>
-    class alternating_iterator : public std::iterator<std::forward_iterator_tag, metric_value>
-    {
-        using iterator1 = typename TContainer1::const_iterator;
-        using iterator2 = typename TContainer2::const_iterator;
-
-        const TContainer1& srca_;
-        const TContainer2& srcb_;
-
-        iterator1 a_;
-        iterator2 b_;
-
-        bool ata_;
-
-        metric_value current_;
-        void set_current()
-        {
-            if ((ata_ || b_ == srcb_.end()) && a_ != srca_.end())
-                current_ = metric_value(*a_);
-            else if (b_ != srcb_.end())
-                current_ = metric_value(*b_);
-        }
-    public:
-
-        alternating_iterator(const TContainer1& first, const TContainer2& second, iterator1&& a, iterator2&& b) :
-                srca_(first),
-                srcb_(second),
-                a_(std::forward<iterator1>(a)),
-                b_(std::forward<iterator2>(b)),
-                ata_(false),
-                current_(0)
-        {
-            if (a_ != srca_.end() && b_ != srcb_.end())
-                set_current();
-        }
-        alternating_iterator(const TContainer1& first, const TContainer2& second) :
-                alternating_iterator(first, second, first.begin(), second.begin())
-        { }
-
-        alternating_iterator begin() const
-        {
-            return alternating_iterator(srca_, srcb_);
-        }
-
-        alternating_iterator end()
-        {
-            return alternating_iterator(srca_, srcb_, srca_.end(), srcb_.end());
-        }
-
-        alternating_iterator& operator++()
-        {
-            if (a_ == srca_.end() && b_ == srcb_.end())
-                return *this;
-
-            ata_ = !ata_;
-            if (ata_ && a_ != srca_.end())
-            {
-                while (a_ != srca_.end() && *a_ <= current_)
-                    ++a_;
-
-                if (a_ == srca_.end() && b_ != srcb_.end())
-                    ++b_;
-            }
-            else
-            {
-                while (b_ != srcb_.end() && *b_ <= current_)
-                    ++b_;
-
-                if (b_ == srcb_.end() && a_ != srca_.end())
-                    ++a_;
-            }
-
-            if (a_ == srca_.end() && b_ == srcb_.end())
-                return *this;
-
-            set_current();
-            return *this;
-        }
-
-        void operator++(int)
-        {
-            this->operator++();
-        }
-
-        const metric_value* operator->() const
-        {
-            return &current_;
-        }
-
-        const metric_value& operator*() const
-        {
-            return current_;
-        }
-
-        bool operator==(const alternating_iterator& other) const
-        {
-            if (a_ == srca_.end() && b_ == srcb_.end())
-                return other.a_ == other.srca_.end() && other.b_ == other.srcb_.end();
-            return a_ == other.a_ && b_ == other.b_;
-        }
-
-        bool operator!=(const alternating_iterator& other) const
-        {
-            return !operator==(other);
-        }
-    };
-
-    template<typename TContainer1, typename TContainer2>
-    static constexpr alternating_iterator<TContainer1, TContainer2> make_alternating_iterator(const TContainer1& a, const TContainer2& b)
-    {
-        return alternating_iterator<TContainer1, TContainer2>(a, b);
-    }
 public:
     histogram_snapshot(reservoir_snapshot&& q, uint64_t count) :
             reservoir_snapshot(std::move(q)),
@@ -558,8 +446,10 @@ public:
 
     void merge(const histogram_snapshot& other)
     {
-        auto b = make_alternating_iterator(values_, other.values_);
-        reservoir_snapshot::operator=(reservoir_snapshot(b, b.end(), std::max(count_, other.count_)));
+        std::vector<metric_value> merged;
+        merged.reserve(values_.size() + other.values_.size());
+        std::merge(values_.begin(), values_.end(), other.values_.begin(), other.values_.end(), std::back_inserter(merged));
+        values_ = std::move(merged);
         count_ += other.count_;
     }
 
-- 
2.43.0


From 3ed2d4d926b1a9145091621a89d9af6134d31548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:59 +0000
Subject: [PATCH 12/31] fix: sampling a snapshot of one value divided by zero

---
 cxxmetrics/snapshots.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 75278e5..15e8d0a 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -304,6 +304,10 @@ public:
     template <typename Handler>
     void sample(std::size_t max_to_visit, Handler hnd) const
     {
+        // there is nothing between the ends to interpolate
+        if (values_.size() < 2)
+            return;
+
         long double q_proportion = 1.0L / std::min(
             static_cast<long double>(max_to_visit + 1),
             static_cast<long double>(values_.size() - 1));
-- 
2.43.0


From c38125eabda831bfc353779dc4c15164094d599f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:23 +0000
Subject: [PATCH 13/31] fix: gauges ignored their aggregation and gauges of
 different types shared a type name

---
 cxxmetrics/gauge.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/cxxmetrics/gauge.hpp b/cxxmetrics/gauge.hpp
index 2e4f767..1b63c48 100644
--- a/cxxmetrics/gauge.hpp
+++ b/cxxmetrics/gauge.hpp
@@ -146,7 +146,7 @@ typename functional_gauge<TFn, TAggregation>::gauge_type functional_gauge<TFn, T
 }
 
 template<typename TRefType, gauge_aggregation_type TAggregation = aggregation_average>
-class referential_gauge : public gauge<TRefType>
+class referential_gauge : public gauge<TRefType, TAggregation>
 {
     std::reference_wrapper<TRefType> value_;
 public:
@@ -212,7 +212,7 @@ TRefType referential_gauge<TRefType, TAggregation>::get() const noexcept
  * \tparam TGaugeType The type of data for the gauge
  */
 template<typename TGaugeType, gauges::gauge_aggregation_type TAggregation = gauges::aggregation_average>
-class gauge : public gauges::primitive_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType>>
+class gauge : public gauges::primitive_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType, TAggregation>>
 {
 public:
     explicit gauge(const TGaugeType& value = TGaugeType()) noexcept :
@@ -225,7 +225,7 @@ public:
 
     gauge& operator=(const TGaugeType& value) noexcept
     {
-        gauges::primitive_gauge<TGaugeType>::operator=(value);
+        gauges::primitive_gauge<TGaugeType, TAggregation>::operator=(value);
         return *this;
     }
     gauge& operator=(const gauge& other) = default;
@@ -233,14 +233,14 @@ public:
 };
 
 template<typename T, gauges::gauge_aggregation_type TAggregation>
-class gauge<std::function<T()>, TAggregation> : public gauges::functional_gauge<std::function<T()>>, public metric<gauge<std::function<T()>>>
+class gauge<std::function<T()>, TAggregation> : public gauges::functional_gauge<std::function<T()>, TAggregation>, public metric<gauge<std::function<T()>, TAggregation>>
 {
 public:
     explicit gauge(const std::function<T()> &fn) :
-            gauges::functional_gauge<std::function<T()>>(fn)
+            gauges::functional_gauge<std::function<T()>, TAggregation>(fn)
     { }
     explicit gauge(std::function<T()> &&fn) noexcept :
-            gauges::functional_gauge<std::function<T()>>(std::move(fn))
+            gauges::functional_gauge<std::function<T()>, TAggregation>(std::move(fn))
     { }
     gauge(const gauge& copy) = default;
     gauge(gauge&& mv) = default;
@@ -251,11 +251,11 @@ public:
 };
 
 template<typename TGaugeType, gauges::gauge_aggregation_type TAggregation>
-class gauge<TGaugeType*, TAggregation> : public gauges::referential_gauge<TGaugeType>, public metric<gauge<TGaugeType &>>
+class gauge<TGaugeType*, TAggregation> : public gauges::referential_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType *, TAggregation>>
 {
 public:
     inline explicit gauge(TGaugeType* ptr) noexcept :
-            gauges::referential_gauge<TGaugeType>(*ptr)
+            gauges::referential_gauge<TGaugeType, TAggregation>(*ptr)
     { }
     gauge(const gauge& copy) = default;
     ~gauge() = default;
@@ -264,11 +264,11 @@ public:
 };
 
 template<typename TGaugeType, gauges::gauge_aggregation_type TAggregation>
-class gauge<TGaugeType &, TAggregation> : public gauges::referential_gauge<TGaugeType>, public metric<gauge<TGaugeType &>>
+class gauge<TGaugeType &, TAggregation> : public gauges::referential_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType &, TAggregation>>
 {
 public:
     inline explicit gauge(TGaugeType& ref) noexcept :
-            gauges::referential_gauge<TGaugeType>(ref)
+            gauges::referential_gauge<TGaugeType, TAggregation>(ref)
     { }
     gauge(const gauge& copy) = default;
     ~gauge() = default;
-- 
2.43.0


From d21837365b9b76dcc1ae2898edcda861bc745c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:59 +0000
Subject: [PATCH 14/31] fix: prometheus label names could start with a digit

---
 cxxmetrics_prometheus/snapshot_writer.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index 6708ff6..028bb74 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -62,19 +62,28 @@ inline std::ostream& format_tag_value(std::ostream& into, const std::string& val
     return into;
 }
 
+inline std::ostream& format_tag_name(std::ostream& into, const std::string& name)
+{
+    // label names can't start with a digit
+    if (!name.empty() && std::isdigit(name[0]))
+        into << '_';
+
+    return format_name_element(into, name);
+}
+
 inline std::ostream& format_tags(std::ostream& into, const cxxmetrics::tag_collection& tags)
 {
     auto tag = tags.begin();
     if (tag == tags.end())
         return into;
 
-    format_name_element(into, tag->first);
+    format_tag_name(into, tag->first);
     into << "=\"";
     format_tag_value(into, tag->second) << "\"";
     for (++tag; tag != tags.end(); ++tag)
     {
         into << ",";
-        format_name_element(into, tag->first) << "=\"";
+        format_tag_name(into, tag->first) << "=\"";
         format_tag_value(into, tag->second) << "\"";
     }
 
-- 
2.43.0


From c1e2133d310793b1bfec3c3b31d9ab093507abfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:05 +0000
Subject: [PATCH 15/31] fix: prometheus label values did not escape backslashes
 and line feeds

---
 cxxmetrics_prometheus/snapshot_writer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index 028bb74..6828b4f 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -55,6 +55,10 @@ inline std::ostream& format_tag_value(std::ostream& into, const std::string& val
     {
         if (c == '"')
             into << "\\\"";
+        else if (c == '\\')
+            into << "\\\\";
+        else if (c == '\n')
+            into << "\\n";
         else
             into << c;
     }
-- 
2.43.0


From 9ace73b61c193982fe3f7a11c2daf04565079667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:11 +0000
Subject: [PATCH 16/31] fix: different rate windows could be published under
 the same window label

---
 cxxmetrics_prometheus/snapshot_writer.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index 6828b4f..79209bf 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -98,27 +98,28 @@ template<typename TRep, typename TPer>
 std::ostream& format_window(std::ostream& into, const std::chrono::duration<TRep, TPer>& time)
 {
     using namespace std::chrono_literals;
-    if (time >= 1h)
+    // the largest unit that doesn't lose anything, so that different windows have different labels
+    if (time >= 1h && time % 1h == time.zero())
     {
         into << std::chrono::duration_cast<std::chrono::hours>(time).count() << "hr";
         return into;
     }
-    if (time >= 1min)
+    if (time >= 1min && time % 1min == time.zero())
     {
         into << std::chrono::duration_cast<std::chrono::minutes>(time).count() << "min";
         return into;
     }
-    if (time >= 1s)
+    if (time >= 1s && time % 1s == time.zero())
     {
         into << std::chrono::duration_cast<std::chrono::seconds>(time).count() << "sec";
         return into;
     }
-    if (time >= 1ms)
+    if (time >= 1ms && time % 1ms == time.zero())
     {
         into << std::chrono::duration_cast<std::chrono::milliseconds>(time).count() << "msec";
         return into;
     }
-    if (time >= 1us)
+    if (time >= 1us && time % 1us == time.zero())
     {
         into << std::chrono::duration_cast<std::chrono::microseconds>(time).count() << "usec";
         return into;
-- 
2.43.0


From 2fde77a911d2a0653b85be42d7c430273581fb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:16 +0000
Subject: [PATCH 17/31] fix: a line feed in a timer's path broke the prometheus
 HELP line

---
 cxxmetrics_prometheus/prometheus_timer.hpp |  3 ++-
 cxxmetrics_prometheus/snapshot_writer.hpp  | 15 +++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics_prometheus/prometheus_timer.hpp b/cxxmetrics_prometheus/prometheus_timer.hpp
index b5ae3ac..c618f02 100644
--- a/cxxmetrics_prometheus/prometheus_timer.hpp
+++ b/cxxmetrics_prometheus/prometheus_timer.hpp
@@ -11,7 +11,8 @@ class snapshot_writer<cxxmetrics::timer_snapshot>
 {
     void write_header() const
     {
-        stream << "# HELP " << internal::name(path) << " " << path.join("/") << " in microseconds\n";
+        stream << "# HELP " << internal::name(path) << " ";
+        internal::format_help(stream, path.join("/")) << " in microseconds\n";
         stream << "# TYPE " << internal::name(path) << " summary\n";
     }
 
diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index 79209bf..2ffd8be 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -66,6 +66,21 @@ inline std::ostream& format_tag_value(std::ostream& into, const std::string& val
     return into;
 }
 
+inline std::ostream& format_help(std::ostream& into, const std::string& text)
+{
+    for (auto c : text)
+    {
+        if (c == '\\')
+            into << "\\\\";
+        else if (c == '\n')
+            into << "\\n";
+        else
+            into << c;
+    }
+
+    return into;
+}
+
 inline std::ostream& format_tag_name(std::ostream& into, const std::string& name)
 {
     // label names can't start with a digit
-- 
2.43.0


From 19ff90c0c2e68988bf1dd4113091931b8154a2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:42 +0000
Subject: [PATCH 18/31] fix: timer_publish_options lost their scale, their
 rates flag on assignment and their quantiles

---
 cxxmetrics/publisher.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/publisher.hpp b/cxxmetrics/publisher.hpp
index 0cc6918..f7de02e 100644
--- a/cxxmetrics/publisher.hpp
+++ b/cxxmetrics/publisher.hpp
@@ -275,24 +275,28 @@ class timer_publish_options : public histogram_publish_options, public meter_pub
     bool rates_;
 public:
     timer_publish_options(timer_publish_options&& other) noexcept :
+            value_publish_options(other),
             histogram_publish_options(std::move(other)),
             meter_publish_options(std::move(other)),
             rates_(other.rates_)
     { }
 
     timer_publish_options(bool rates = true, const scale_factor& sf = scale_factor()) noexcept :
+            value_publish_options(sf),
             histogram_publish_options(sf),
             meter_publish_options(sf),
             rates_(rates)
     { }
 
     timer_publish_options(bool rates, bool publish_count, const scale_factor& sf = scale_factor()) noexcept :
+            value_publish_options(sf),
             histogram_publish_options(publish_count, sf),
             meter_publish_options(sf),
             rates_(rates)
     { }
 
     timer_publish_options(bool rates, bool publish_count, bool publish_mean, const scale_factor& sf = scale_factor()) noexcept :
+            value_publish_options(sf),
             histogram_publish_options(publish_count, sf),
             meter_publish_options(publish_mean, sf),
             rates_(rates)
@@ -300,7 +304,8 @@ public:
 
     template<typename TQuantileOptions, typename = typename std::enable_if<std::is_base_of<basic_quantile_options, TQuantileOptions>::value, void>::type>
     timer_publish_options(TQuantileOptions&& quantile_options, bool rates, bool publish_count = true, const scale_factor& sf = scale_factor()) :
-            histogram_publish_options(quantile_options, publish_count, sf),
+            value_publish_options(sf),
+            histogram_publish_options(std::forward<TQuantileOptions>(quantile_options), publish_count, false, sf),
             meter_publish_options(sf),
             rates_(rates)
     { }
@@ -308,7 +313,8 @@ public:
 
     template<typename TQuantileOptions, typename = typename std::enable_if<std::is_base_of<basic_quantile_options, TQuantileOptions>::value, void>::type>
     timer_publish_options(TQuantileOptions&& quantile_options, bool rates, bool publish_count, bool publish_mean, const scale_factor& sf = scale_factor()) :
-            histogram_publish_options(quantile_options, publish_count, sf),
+            value_publish_options(sf),
+            histogram_publish_options(std::forward<TQuantileOptions>(quantile_options), publish_count, false, sf),
             meter_publish_options(publish_mean, sf),
             rates_(rates)
     { }
@@ -317,6 +323,7 @@ public:
     {
         histogram_publish_options::operator=(std::move(other));
         meter_publish_options::operator=(std::move(other));
+        rates_ = other.rates_;
         return *this;
     }
 
-- 
2.43.0


From 160ce2e0676b852f00212ea85e7767c2fd2db19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:45 +0000
Subject: [PATCH 19/31] fix: reading the rate of a const ewma changed its later
 rates

---
 cxxmetrics/ewma.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index 0127f15..34a5ab1 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -189,6 +189,10 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at)
         if ((at - last) < period(TInterval))
             return pending;
 
+        // only looking must not change what comes later
+        if (!TWrite)
+            return pending;
+
         bool ticked = false;
         if (ticked_.compare_exchange_weak(ticked, true))
         {
-- 
2.43.0


From 832241ae9bbdca848ce3864087598299f31d83cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:51 +0000
Subject: [PATCH 20/31] fix: assigning an ewma did not copy whether it had
 ticked

---
 cxxmetrics/ewma.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index 34a5ab1..a0d7293 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -260,6 +260,7 @@ ewma<TClockGet, TWindow, TInterval, TValue> &ewma<TClockGet, TWindow, TInterval,
     rate_.store(c.rate_.load());
     pending_.store(c.pending_.load());
     last_ = c.last_;
+    ticked_.store(c.ticked_.load());
     return *this;
 }
 
-- 
2.43.0


From af2152c204b3bc8727d9efe8af1334f5310af26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 21/31] fix: a long silence could raise the rate of an ewma or
 leave it undecayed

---
 cxxmetrics/ewma.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index a0d7293..2dfbf4b 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -173,7 +173,7 @@ template<typename TClockGet, period::value TWindow, period::value TInterval, typ
 template<bool TWrite>
 TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at) noexcept
 {
-    int missed_intervals;
+    int64_t missed_intervals;
     clock_point last;
 
     last = last_;
@@ -222,9 +222,9 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at)
         // we missed some intervals - we'll average in zeros
         if ((TWindow > TInterval) && (at - last) > period(TWindow))
         {
-            constexpr auto intervals_per_window = TWindow / TInterval;
-            period::value missed_windows = missed_intervals / intervals_per_window;
-            rate = pow(rate, 1/pow(missed_windows, 2));
+            constexpr int64_t intervals_per_window = TWindow / TInterval;
+            int64_t missed_windows = missed_intervals / intervals_per_window;
+            rate = rate * std::pow(1 - alpha_, static_cast<long double>(missed_windows * intervals_per_window));
 
             // figure out the missed intervals now
             missed_intervals -= (missed_windows * intervals_per_window);
@@ -232,7 +232,7 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at)
 
         // this is the fastest way to do this - the alternative is a standard repeated integral
         // but this is faster
-        for (int i = 0; i < missed_intervals; i++)
+        for (int64_t i = 0; i < missed_intervals; i++)
             rate = rate + (alpha_ * -rate);
     }
 
-- 
2.43.0


From 57a92540ff6d0966be678487fad9fc140ba86290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:06 +0000
Subject: [PATCH 22/31] fix: a falling ewma of an unsigned type wrapped around

---
 cxxmetrics/ewma.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index 2dfbf4b..8377871 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -213,7 +213,7 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at)
 
     // apply the pending value to our current rate
     // if someone else already snagged the pending value, start over
-    auto rate = nrate + (alpha_ * (pending - nrate));
+    auto rate = nrate + (alpha_ * (static_cast<long double>(pending) - nrate));
 
     // figure out how many intervals we've missed
     missed_intervals = ((at - last) / period(TInterval)) - 1;
-- 
2.43.0


From 088cadbabce5e7f0c217b4a7acf367e4bfd529a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 23/31] fix: timing a callable and timers with their own clock
 did not compile in C++14

---
 cxxmetrics/timer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cxxmetrics/timer.hpp b/cxxmetrics/timer.hpp
index 56573b1..ec02083 100644
--- a/cxxmetrics/timer.hpp
+++ b/cxxmetrics/timer.hpp
@@ -38,7 +38,7 @@ public:
      */
     timer(TReservoir &&reservoir, TClock &&clock) :
             histogram_(std::forward<TReservoir>(reservoir)),
-            clock_(std::forward<TReservoir>(clock))
+            clock_(std::forward<TClock>(clock))
     { }
 
 
@@ -113,7 +113,7 @@ public:
      * \return whatever the provided invokable returns
      */
     template<typename TRunnable, bool TIncludeExceptions = false>
-    typename std::invoke_result<TRunnable>::type time(const TRunnable &runnable);
+    decltype(std::declval<const TRunnable&>()()) time(const TRunnable &runnable);
 
     /**
      * \brief Get the underlying clock instance
@@ -235,7 +235,7 @@ inline scoped_timer_t<TTimer> scoped_timer(TTimer& timer)
 
 template<period::value TRateInterval, typename TClock, typename TReservoir, period::value... TWindows>
 template<typename TRunnable, bool TIncludeExceptions>
-typename std::invoke_result<TRunnable>::type timer<TRateInterval, TClock, TReservoir, TWindows...>::time(const TRunnable &runnable)
+decltype(std::declval<const TRunnable&>()()) timer<TRateInterval, TClock, TReservoir, TWindows...>::time(const TRunnable &runnable)
 {
     scoped_timer_t<timer<TRateInterval, TClock, TReservoir, TWindows...>> tm(*this);
     if (!TIncludeExceptions)
-- 
2.43.0


From 0fae11a015c79852ac221921f4f8f49f1b46789b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 24/31] fix: dividing the lowest metric_value by -1 trapped

---
 cxxmetrics/metric_value.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 1295b2f..31a8be8 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -128,6 +128,8 @@ public:
         {
             if (!lv)
                 val_ = 0;
+            else if (std::is_signed<T>::value && lv == -1)
+                negate(); // the quotient of the lowest value doesn't fit, dividing would trap
             else
                 val_ /= lv;
         }
@@ -146,7 +148,7 @@ public:
 
     void negate() noexcept override
     {
-        val_ = -val_;
+        val_ = 0 - static_cast<unsigned long long>(val_);
     }
 
     void bitwise_negate() noexcept override
@@ -528,6 +530,8 @@ public:
 
         if (!lv)
             dur_ = dur_.zero();
+        else if (lv == -1)
+            negate(); // the quotient of the lowest value doesn't fit, dividing would trap
         else
             dur_ /= lv;
     }
-- 
2.43.0


From 25ea8de00fd6085b3725090e0d0a1784332ae11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:47 +0000
Subject: [PATCH 25/31] fix: interpolating between values that are far apart
 overflowed

---
 cxxmetrics/snapshots.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 15e8d0a..bb46dfd 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -287,7 +287,7 @@ public:
         if (static_cast<std::size_t>(index) >= values_.size())
             return max();
 
-        return values_[index - 1] + metric_value((pos - index) * static_cast<long double>(values_[index] - values_[index - 1]));
+        return values_[index - 1] + metric_value((pos - index) * (static_cast<long double>(values_[index]) - static_cast<long double>(values_[index - 1])));
     }
 
     /**
@@ -333,7 +333,7 @@ public:
             hnd(values_[index - 1] +
                     metric_value(
                         (pos - static_cast<double>(index)) *
-                        static_cast<long double>(values_[index] - values_[index - 1])),
+                        (static_cast<long double>(values_[index]) - static_cast<long double>(values_[index - 1]))),
                 pos * 100 / static_cast<long double>(values_.size() + 1));
         }
     }
-- 
2.43.0


From 2cb743cdf27c981b4f07d54ec15972bdf024d08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:13 +0000
Subject: [PATCH 26/31] fix: sampling a snapshot without a limit divided by
 zero

---
 cxxmetrics/snapshots.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index bb46dfd..51095d9 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -309,7 +309,7 @@ public:
             return;
 
         long double q_proportion = 1.0L / std::min(
-            static_cast<long double>(max_to_visit + 1),
+            static_cast<long double>(max_to_visit) + 1,
             static_cast<long double>(values_.size() - 1));
 
         for (std::size_t i = 0; i < max_to_visit; i++) {
-- 
2.43.0


From 9d3d50ac6fe08027c79a4ee593d9e369a3b98742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:53 +0000
Subject: [PATCH 27/31] fix: duration_cast of a metric_value ignored the unit
 of its duration

---
 cxxmetrics/metric_value.hpp                | 4 +++-
 cxxmetrics_prometheus/prometheus_timer.hpp | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 31a8be8..93960dd 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -947,7 +947,9 @@ namespace chrono
 template<typename _ToDur>
 constexpr _ToDur duration_cast(const cxxmetrics::metric_value &v)
 {
-    return duration_cast<_ToDur>(static_cast<std::chrono::nanoseconds>(v));
+    // an explicit cast would construct the duration from the count of the value, whatever its unit
+    std::chrono::nanoseconds nanos = v;
+    return duration_cast<_ToDur>(nanos);
 }
 
 }
diff --git a/cxxmetrics_prometheus/prometheus_timer.hpp b/cxxmetrics_prometheus/prometheus_timer.hpp
index c618f02..14373cd 100644
--- a/cxxmetrics_prometheus/prometheus_timer.hpp
+++ b/cxxmetrics_prometheus/prometheus_timer.hpp
@@ -28,12 +28,12 @@ public:
         if (options.timer_options().include_count())
             stream << internal::name(path) << "_count{" << internal::tags(tags) << "} " << internal::scale_value(snapshot.count(), options.timer_options()) << "\n";
 
-        stream << internal::name(path) << "_mean{" << internal::tags(tags) << "} " << internal::scale_value(std::chrono::duration_cast<std::chrono::microseconds>(static_cast<std::chrono::nanoseconds>(snapshot.mean())), options.timer_options()) << "\n";
+        stream << internal::name(path) << "_mean{" << internal::tags(tags) << "} " << internal::scale_value(std::chrono::duration_cast<std::chrono::microseconds>(snapshot.mean()), options.timer_options()) << "\n";
         options.timer_options().quantiles()->visit(snapshot, [&](cxxmetrics::quantile q, cxxmetrics::metric_value&& value) {
             stream << internal::name(path) <<
                     '{' << "quantile=\"" << (q.percentile() / 100.0) << "\"" << comma <<
                     internal::tags(tags) << "} " <<
-                    internal::scale_value(std::chrono::duration_cast<std::chrono::microseconds>(static_cast<std::chrono::nanoseconds>(value)), options.timer_options()) << "\n";
+                    internal::scale_value(std::chrono::duration_cast<std::chrono::microseconds>(value), options.timer_options()) << "\n";
         });
 
         if (options.timer_options().include_rates())
-- 
2.43.0


From 1dbb5ac454d04e85ef6ae926e5b43622129d9831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:48 +0000
Subject: [PATCH 28/31] fix: durations times or divided by text spelling a
 fraction used its whole part, dividing by zero below one

---
 cxxmetrics/metric_value.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 93960dd..4d6e2b6 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -503,7 +503,8 @@ public:
             if (!valid)
                 return;
 
-            dur_ *= fv;
+            // the chrono operators would cut the factor to a whole number
+            dur_ = std::chrono::duration<TRep, TPeriod>(static_cast<TRep>(dur_.count() * fv));
             return;
         }
 
@@ -523,7 +524,7 @@ public:
             if (!fv)
                 dur_ = dur_.zero();
             else
-                dur_ /= fv;
+                dur_ = std::chrono::duration<TRep, TPeriod>(static_cast<TRep>(dur_.count() / fv));
 
             return;
         }
-- 
2.43.0


From a03b2958490270fe1297bc90dd3bab3ea206130a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:46 +0000
Subject: [PATCH 29/31] fix: text that is no number compared equal to the
 lowest duration

---
 cxxmetrics/metric_value.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 4d6e2b6..8b58c2e 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -344,12 +344,19 @@ public:
 
     std::chrono::nanoseconds to_nanos(bool* valid) const override
     {
-        bool lvalid;
-        auto lv = to_integral(&lvalid);
-        if (lvalid)
+        bool ign;
+        if (valid == nullptr)
+            valid = &ign;
+
+        auto lv = to_integral(valid);
+        if (*valid)
             return std::chrono::nanoseconds(lv);
 
-        return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::duration<long double, std::chrono::nanoseconds::period>(to_float(nullptr)));
+        auto fv = to_float(valid);
+        if (!*valid)
+            return std::chrono::nanoseconds::zero(); // not a number, which has no count to cast
+
+        return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::duration<long double, std::chrono::nanoseconds::period>(fv));
     }
 
     std::size_t hash_value() const override
@@ -550,6 +557,9 @@ public:
     {
         bool valid;
         auto n = other.to_nanos(&valid);
+        if (!valid)
+            return -1;
+
         return dur_ < n ? -1 : dur_ == n ? 0 : 1;
     }
 };
-- 
2.43.0


From 13a8ae081e4b4eae00b1e7375dac06ec7505e587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 30/31] fix: negating text of the lowest integer or beyond the
 highest one overflowed

---
 cxxmetrics/metric_value.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 8b58c2e..61ce17f 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -410,7 +410,12 @@ public:
         auto lv = to_integral(&valid);
         if (valid)
         {
-            val_ = std::to_string(-lv);
+            // unsigned, as neither the lowest integer nor text beyond the highest one has a negative
+            auto magnitude = static_cast<unsigned long long>(lv);
+            if (val_.find('-') != std::string::npos)
+                val_ = std::to_string(0 - magnitude);
+            else
+                val_ = magnitude ? "-" + std::to_string(magnitude) : "0";
             return;
         }
 
-- 
2.43.0


From 035da67c972dfda6324d4f59a58d240be7eed114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 31/31] fix: visiting a metric with many tag sets used up the
 stack

---
 cxxmetrics/metrics_registry.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cxxmetrics/metrics_registry.hpp b/cxxmetrics/metrics_registry.hpp
index 259ecf2..48972b6 100644
--- a/cxxmetrics/metrics_registry.hpp
+++ b/cxxmetrics/metrics_registry.hpp
@@ -272,13 +272,14 @@ template<typename TMetricType>
 void registered_metric<TMetricType>::visit_each(cxxmetrics::internal::registered_snapshot_visitor_builder &builder)
 {
     std::lock_guard<std::mutex> lock(lock_);
+    // one block serves every visitor: alloca within the loop would use up the stack with many sets of tags
+    auto sz = builder.visitor_size() + sizeof(std::max_align_t);
+    void* ptr = alloca(sz);
+
+    std::align(sizeof(std::max_align_t), sz, ptr, sz);
+    auto loc = reinterpret_cast<snapshot_visitor*>(ptr);
     for (auto& p : metrics_)
     {
-        auto sz = builder.visitor_size() + sizeof(std::max_align_t);
-        void* ptr = alloca(sz);
-
-        std::align(sizeof(std::max_align_t), sz, ptr, sz);
-        auto loc = reinterpret_cast<snapshot_visitor*>(ptr);
         builder.construct(loc, p.first);
         try
         {
-- 
2.43.0

