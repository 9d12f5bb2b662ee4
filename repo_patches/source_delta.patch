From e50e704b078bb293134e82e4f97c477abbf3a331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 01/23] fix: strong_type arithmetic must not modify its left
 operand

---
 include/soro/utls/strong_types/strong_type.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/soro/utls/strong_types/strong_type.h b/include/soro/utls/strong_types/strong_type.h
index b6b4646..68f09a9 100644
--- a/include/soro/utls/strong_types/strong_type.h
+++ b/include/soro/utls/strong_types/strong_type.h
@@ -15,7 +15,7 @@ struct strong_type {
     return *this;
   }
 
-  friend auto operator+(strong_type& lhs, strong_type const& rhs) {
+  friend auto operator+(strong_type lhs, strong_type const& rhs) {
     lhs += rhs;
     return lhs;
   }
@@ -25,7 +25,7 @@ struct strong_type {
     return *this;
   }
 
-  friend auto operator-(strong_type& lhs, strong_type const& rhs) {
+  friend auto operator-(strong_type lhs, strong_type const& rhs) {
     lhs -= rhs;
     return lhs;
   }
@@ -35,7 +35,7 @@ struct strong_type {
     return *this;
   }
 
-  friend auto operator*(strong_type& lhs, strong_type const& rhs) {
+  friend auto operator*(strong_type lhs, strong_type const& rhs) {
     lhs *= rhs;
     return lhs;
   }
@@ -45,7 +45,7 @@ struct strong_type {
     return *this;
   }
 
-  friend auto operator/(strong_type& lhs, strong_type const& rhs) {
+  friend auto operator/(strong_type lhs, strong_type const& rhs) {
     lhs /= rhs;
     return lhs;
   }
-- 
2.43.0


From 4fcfbcdfd7cd245400fba54f064dfa1af1072c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:50 +0000
Subject: [PATCH 02/23] fix: optional::swap does not compile

---
 include/soro/utls/container/optional.h | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/include/soro/utls/container/optional.h b/include/soro/utls/container/optional.h
index db1cec9..06284f8 100644
--- a/include/soro/utls/container/optional.h
+++ b/include/soro/utls/container/optional.h
@@ -135,17 +135,7 @@ struct optional {
   }
 
   void swap(optional& other) noexcept {
-    if (has_value() && !other.has_value()) {
-      other = this->val_;
-      this->reset();
-    } else if (!has_value() && other.has_value()) {
-      this->val_ = other.value();
-      other.reset();
-    } else if (has_value() && other.has_value()) {
-      auto const tmp = this->value();
-      this->val_ = other.value();
-      other = tmp;
-    }
+    std::swap(val_, other.val_);
   }
 
 #if !defined(SERIALIZE)
-- 
2.43.0


From 07712f9bb5223e4d22d6bfced817504b128ab992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:50 +0000
Subject: [PATCH 03/23] fix: id_iterator offset operators do not compile

---
 include/soro/utls/container/id_iterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/soro/utls/container/id_iterator.h b/include/soro/utls/container/id_iterator.h
index c1e93e4..5a63004 100644
--- a/include/soro/utls/container/id_iterator.h
+++ b/include/soro/utls/container/id_iterator.h
@@ -94,11 +94,11 @@ struct id_iterator {
     return *this;
   }
 
-  id_iterator operator+(difference_type const d) const { return it_ + d; }
-  id_iterator operator-(difference_type const d) const { return it_ - d; }
+  id_iterator operator+(difference_type const d) const { return {it_ + d, c_}; }
+  id_iterator operator-(difference_type const d) const { return {it_ - d, c_}; }
 
   friend id_iterator operator+(difference_type const d, id_iterator const& it) {
-    return id_iterator{.it_ = it.it_ + d, .c_ = it.c_};
+    return it + d;
   }
 
   difference_type operator-(id_iterator const& o) const { return it_ - o.it_; }
-- 
2.43.0


From 65b454c8c501874e31c0867cf361e75d042166c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:07 +0000
Subject: [PATCH 04/23] fix: generator must not swallow exceptions of its body

---
 include/soro/utls/coroutine/generator.h | 28 ++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/include/soro/utls/coroutine/generator.h b/include/soro/utls/coroutine/generator.h
index 9b41d6e..61271bc 100644
--- a/include/soro/utls/coroutine/generator.h
+++ b/include/soro/utls/coroutine/generator.h
@@ -57,7 +57,13 @@ public:
   }
 
   void return_void() {}
-  void unhandled_exception() {}
+  void unhandled_exception() noexcept { exception_ = std::current_exception(); }
+
+  void rethrow_if_exception() {
+    if (exception_) {
+      std::rethrow_exception(std::exchange(exception_, nullptr));
+    }
+  }
 
   reference_type value() const noexcept {
     return static_cast<reference_type>(*value_);
@@ -69,6 +75,7 @@ public:
 
 private:
   pointer_type value_{nullptr};
+  std::exception_ptr exception_{nullptr};
 };
 
 template <typename T, bool IsConst>
@@ -113,6 +120,7 @@ struct generator_iterator {
 
   generator_iterator& operator++() {
     coroutine_.resume();
+    coroutine_.promise().rethrow_if_exception();
     return *this;
   }
 
@@ -147,8 +155,16 @@ struct [[nodiscard]] generator {
     }
   }
 
-  iterator begin() noexcept { return iterator{coroutine_}; }
-  const_iterator begin() const noexcept { return const_iterator{coroutine_}; }
+  // an exception thrown before the first yield is reported here
+  iterator begin() {
+    rethrow_if_exception();
+    return iterator{coroutine_};
+  }
+
+  const_iterator begin() const {
+    rethrow_if_exception();
+    return const_iterator{coroutine_};
+  }
 
   iterator end() noexcept { return {}; }
   const_iterator end() const noexcept { return {}; }
@@ -159,6 +175,12 @@ private:
   explicit generator(coro::coroutine_handle<promise_type> coroutine) noexcept
       : coroutine_(coroutine) {}
 
+  void rethrow_if_exception() const {
+    if (coroutine_) {
+      coroutine_.promise().rethrow_if_exception();
+    }
+  }
+
   coro::coroutine_handle<promise_type> coroutine_;
 };
 
-- 
2.43.0


From 392d4ba79c06e336e97aa2ea12299d26ad8234ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:26 +0000
Subject: [PATCH 05/23] fix: coro_it copies destroyed the coroutine twice, end
 == end read a null handle

---
 include/soro/utls/coroutine/iterator.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/soro/utls/coroutine/iterator.h b/include/soro/utls/coroutine/iterator.h
index 6b6592f..3fa633f 100644
--- a/include/soro/utls/coroutine/iterator.h
+++ b/include/soro/utls/coroutine/iterator.h
@@ -1,5 +1,9 @@
 #pragma once
 
+#include <memory>
+#include <type_traits>
+#include <utility>
+
 #include "soro/utls/coroutine/coro_namespace.h"
 
 namespace soro::utls {
@@ -98,6 +102,18 @@ struct coro_it {
   coro_it(co_handle_t co_handle) noexcept  // NO LINT
       : co_handle_{std::move(co_handle)} {}
 
+  // owns the coroutine
+  coro_it(coro_it const&) = delete;
+  coro_it& operator=(coro_it const&) = delete;
+
+  coro_it(coro_it&& other) noexcept
+      : co_handle_{std::exchange(other.co_handle_, nullptr)} {}
+
+  coro_it& operator=(coro_it&& other) noexcept {
+    std::swap(co_handle_, other.co_handle_);
+    return *this;
+  }
+
   ~coro_it() {
     if (co_handle_) {
       co_handle_.destroy();
@@ -110,7 +126,8 @@ struct coro_it {
   }
 
   friend bool operator==(coro_it const& it1, coro_it const& it2) noexcept {
-    return (!it1.co_handle_ && it2.co_handle_.done()) ||
+    return (!it1.co_handle_ && !it2.co_handle_) ||  // end == end => true
+           (!it1.co_handle_ && it2.co_handle_.done()) ||
            (!it2.co_handle_ && it1.co_handle_.done());
   }
 
-- 
2.43.0


From a2e540fc7f148021f614f363a0d80b3c7222e6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:29 +0000
Subject: [PATCH 06/23] fix: coro_it must not swallow exceptions of its
 coroutine

---
 include/soro/utls/coroutine/iterator.h | 38 +++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/include/soro/utls/coroutine/iterator.h b/include/soro/utls/coroutine/iterator.h
index 3fa633f..1813d13 100644
--- a/include/soro/utls/coroutine/iterator.h
+++ b/include/soro/utls/coroutine/iterator.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <exception>
 #include <memory>
 #include <type_traits>
 #include <utility>
@@ -26,7 +27,13 @@ struct value_promise {
   coro::suspend_always final_suspend() noexcept { return {}; }
 
   void return_void() {}
-  void unhandled_exception() {}
+  void unhandled_exception() noexcept { exception_ = std::current_exception(); }
+
+  void rethrow_if_exception() {
+    if (exception_) {
+      std::rethrow_exception(std::exchange(exception_, nullptr));
+    }
+  }
 
   coro::suspend_always yield_value(reference_t v) noexcept {
     v_ = v;
@@ -43,6 +50,7 @@ struct value_promise {
 
 private:
   value_t v_{};
+  std::exception_ptr exception_{nullptr};
 };
 
 template <typename T>
@@ -61,7 +69,13 @@ struct reference_promise {
   coro::suspend_always final_suspend() noexcept { return {}; }
 
   void return_void() {}
-  void unhandled_exception() {}
+  void unhandled_exception() noexcept { exception_ = std::current_exception(); }
+
+  void rethrow_if_exception() {
+    if (exception_) {
+      std::rethrow_exception(std::exchange(exception_, nullptr));
+    }
+  }
 
   coro::suspend_always yield_value(reference_t v) noexcept {
     v_ = std::addressof(v);
@@ -81,6 +95,7 @@ struct reference_promise {
 
 private:
   pointer_t v_{nullptr};
+  std::exception_ptr exception_{nullptr};
 };
 
 }  // namespace detail
@@ -120,18 +135,19 @@ struct coro_it {
     }
   }
 
-  coro_it& operator++() noexcept {
+  coro_it& operator++() {
     co_handle_.resume();
+    co_handle_.promise().rethrow_if_exception();
     return *this;
   }
 
-  friend bool operator==(coro_it const& it1, coro_it const& it2) noexcept {
+  // reports an exception thrown before the first yield
+  friend bool operator==(coro_it const& it1, coro_it const& it2) {
     return (!it1.co_handle_ && !it2.co_handle_) ||  // end == end => true
-           (!it1.co_handle_ && it2.co_handle_.done()) ||
-           (!it2.co_handle_ && it1.co_handle_.done());
+           (!it1.co_handle_ && it2.done()) || (!it2.co_handle_ && it1.done());
   }
 
-  friend bool operator!=(coro_it const& it1, coro_it const& it2) noexcept {
+  friend bool operator!=(coro_it const& it1, coro_it const& it2) {
     return !(it1 == it2);
   }
 
@@ -140,6 +156,14 @@ struct coro_it {
   pointer_t operator->() const noexcept { return std::addressof(operator*()); }
 
 private:
+  bool done() const {
+    if (co_handle_.done()) {
+      co_handle_.promise().rethrow_if_exception();
+      return true;
+    }
+    return false;
+  }
+
   co_handle_t co_handle_{nullptr};
 };
 
-- 
2.43.0


From 36f052fbaf0e72e60520bcfb14efaad7659da3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:33 +0000
Subject: [PATCH 07/23] fix: recursive_generator lost the exception of a child
 failing before its first yield

---
 include/soro/utls/coroutine/recursive_generator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/soro/utls/coroutine/recursive_generator.h b/include/soro/utls/coroutine/recursive_generator.h
index b08d48a..90dc379 100644
--- a/include/soro/utls/coroutine/recursive_generator.h
+++ b/include/soro/utls/coroutine/recursive_generator.h
@@ -55,11 +55,11 @@ public:
       return {};
     }
 
-    auto yield_value(recursive_generator&& generator) noexcept {
+    auto yield_value(recursive_generator&& generator) {
       return yield_value(generator);
     }
 
-    auto yield_value(recursive_generator& generator) noexcept {
+    auto yield_value(recursive_generator& generator) {
       struct awaitable {
 
         awaitable(promise_type* childPromise) : m_childPromise(childPromise) {}
@@ -89,6 +89,7 @@ public:
         }
 
         m_root->m_parentOrLeaf = this;
+        generator.m_promise->throw_if_exception();
       }
 
       return awaitable{nullptr};
-- 
2.43.0


From da4b1afde29833eaa3f2b45d7e995a3485769ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:38 +0000
Subject: [PATCH 08/23] fix: two empty exclusion sets are equivalent

---
 src/infrastructure/exclusion/exclusion_set.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/exclusion/exclusion_set.cc b/src/infrastructure/exclusion/exclusion_set.cc
index 08e1b6b..e931689 100644
--- a/src/infrastructure/exclusion/exclusion_set.cc
+++ b/src/infrastructure/exclusion/exclusion_set.cc
@@ -281,7 +281,8 @@ std::partial_ordering exclusion_set::compare(exclusion_set const& other) const {
   }
 
   if (other.empty()) {
-    return std::partial_ordering::greater;
+    return this->empty() ? std::partial_ordering::equivalent
+                         : std::partial_ordering::greater;
   }
 
   if (this == &other) {
-- 
2.43.0


From 9cd23918fd802e05726a2dfb95fd6f9512e5bb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 09/23] fix: setting a bit in an empty exclusion set

---
 src/infrastructure/exclusion/exclusion_set.cc | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/infrastructure/exclusion/exclusion_set.cc b/src/infrastructure/exclusion/exclusion_set.cc
index e931689..ee81520 100644
--- a/src/infrastructure/exclusion/exclusion_set.cc
+++ b/src/infrastructure/exclusion/exclusion_set.cc
@@ -157,19 +157,26 @@ bool exclusion_set::operator[](exclusion_set::value_type const idx) const {
 }
 
 void exclusion_set::set(value_type const idx) {
-  if (idx < first_) {
-    lower_first(this,
-                (idx / bitvec_t::bits_per_block) * bitvec_t::bits_per_block);
+  auto const first_of_block =
+      (idx / bitvec_t::bits_per_block) * bitvec_t::bits_per_block;
+  auto const last_of_block = first_of_block + bitvec_t::bits_per_block - 1;
+
+  auto const was_empty = this->empty();
+
+  if (was_empty) {
+    first_ = first_of_block;
+    last_ = last_of_block;
+    bits_.resize(bitvec_t::bits_per_block);
+  } else if (idx < first_) {
+    lower_first(this, first_of_block);
   } else if (idx > last_) {
-    increase_last(this, (((idx / bitvec_t::bits_per_block) + 1) *
-                         bitvec_t::bits_per_block) -
-                            1);
+    increase_last(this, last_of_block);
   }
 
   this->bits_.set(idx - first_);
 
-  first_bit_set_ = std::min(idx, first_bit_set_);
-  last_bit_set_ = std::max(idx, last_bit_set_);
+  first_bit_set_ = was_empty ? idx : std::min(idx, first_bit_set_);
+  last_bit_set_ = was_empty ? idx : std::max(idx, last_bit_set_);
 
   utls::sassert(ok());
 }
-- 
2.43.0


From 645c2731dce9b488941b1874670ef106b72f732f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 10/23] fix: bitfield::equivalent ignored the distance of the
 anchors

---
 src/timetable/bitfield.cc | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/timetable/bitfield.cc b/src/timetable/bitfield.cc
index 377fe9f..db7ffd9 100644
--- a/src/timetable/bitfield.cc
+++ b/src/timetable/bitfield.cc
@@ -189,15 +189,17 @@ bool bitfield::equivalent(bitfield const& o) const noexcept {
     return true;
   }
 
-  if (this->first_date_ < o.first_date_) {
-    auto copy = o;
-    copy.bitset_ >> distance(this->first_date_, o.first_date_);
-    return *this == copy;
-  } else {
-    auto copy = *this;
-    copy.bitset_ >> distance(o.first_date_, this->first_date_);
-    return copy == o;
+  // the days before the later anchor must be unset, the rest has to agree
+  auto const& early = this->first_date_ < o.first_date_ ? *this : o;
+  auto const& late = this->first_date_ < o.first_date_ ? o : *this;
+  auto const dist = distance(early.first_date_, late.first_date_);
+
+  if (dist >= BITSIZE) {
+    return !early.bitset_.any() && !late.bitset_.any();
   }
+
+  auto const shifted = early.bitset_ >> dist;
+  return shifted == late.bitset_ && (shifted << dist) == early.bitset_;
 }
 
 bitfield operator|(bitfield const& lhs, bitfield const& rhs) noexcept {
-- 
2.43.0


From 1ea316f28a46c9a102a63083a07c1c275d5dc711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 11/23] fix: comparing string views read beyond their end

---
 include/soro/utls/string.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/soro/utls/string.h b/include/soro/utls/string.h
index ed7a5c3..d928e1d 100644
--- a/include/soro/utls/string.h
+++ b/include/soro/utls/string.h
@@ -44,15 +44,15 @@ inline bool equal(char const* const s1, soro::string const& s2) {
 }
 
 inline bool equal(soro::string_view s1, char const* const s2) {
-  return equal(s1.data(), s2);
+  return s1 == s2;
 }
 
 inline bool equal(char const* const s1, soro::string_view s2) {
-  return equal(s1, s2.data());
+  return s1 == s2;
 }
 
 inline bool equal(soro::string_view const& s1, soro::string_view const& s2) {
-  return equal(s1.data(), s2.data());
+  return s1 == s2;
 }
 
 inline bool starts_with(char const* const str, char const* const prfx) {
-- 
2.43.0


From 75c8a08abf221a521ecbd2d15956e2de5e306085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 12/23] fix: no processor count means one worker, not a
 division by zero

---
 src/infrastructure/exclusion/get_exclusion.cc         | 2 +-
 web/server/src/modules/tiles/osm_export/osm_export.cc | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/infrastructure/exclusion/get_exclusion.cc b/src/infrastructure/exclusion/get_exclusion.cc
index b8fc49d..61a4c09 100644
--- a/src/infrastructure/exclusion/get_exclusion.cc
+++ b/src/infrastructure/exclusion/get_exclusion.cc
@@ -43,7 +43,7 @@ soro::vector<interlocking_route::ids> get_closed_element_used_by(
   result_t element_used_by(element_count);
 
   // Set up the thread results ...
-  auto const thread_count = std::thread::hardware_concurrency();
+  auto const thread_count = std::max(1U, std::thread::hardware_concurrency());
   soro::vector<result_t> thread_results(thread_count, result_t(element_count));
 
   // ... thread lambda ...
diff --git a/web/server/src/modules/tiles/osm_export/osm_export.cc b/web/server/src/modules/tiles/osm_export/osm_export.cc
index b621a5d..12b5d89 100644
--- a/web/server/src/modules/tiles/osm_export/osm_export.cc
+++ b/web/server/src/modules/tiles/osm_export/osm_export.cc
@@ -180,7 +180,8 @@ pugi::xml_document export_to_osm(soro::infra::infrastructure_t const& iss) {
 
   uLOG(info) << "[ OSM Export ] Stations and elements to OSM.";
   auto node_length = osm_info.nodes_.size();
-  std::size_t const thread_count = std::thread::hardware_concurrency();
+  std::size_t const thread_count =
+      std::max(1U, std::thread::hardware_concurrency());
   std::size_t const unit = (node_length / thread_count) + 1;
   std::vector<std::future<pugi::xml_document>> docs;
 
-- 
2.43.0


From 89e8b5e3f4bd26eaa11aa6e5addb6e621e8f5bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 13/23] fix: unknown elements, exclusion sets and
 infrastructures are answered as not found

---
 web/server/src/modules/infrastructure/serve_element.cc   | 7 +++++++
 .../src/modules/infrastructure/serve_exclusion_set.cc    | 8 ++++++++
 .../src/modules/timetable/serve_timetable_names.cc       | 9 ++++++++-
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/web/server/src/modules/infrastructure/serve_element.cc b/web/server/src/modules/infrastructure/serve_element.cc
index 564aeab..ae09506 100644
--- a/web/server/src/modules/infrastructure/serve_element.cc
+++ b/web/server/src/modules/infrastructure/serve_element.cc
@@ -46,6 +46,13 @@ net::web_server::string_res_t infrastructure_module::serve_element(
   }
 
   auto const e_id = utls::parse_int<element_id>(req.path_params_[1]);
+  if (e_id >= (**infra)->graph_.elements_.size()) {
+    uLOG(utl::warn) << "requesting element with id " << e_id
+                    << " but there are only "
+                    << (**infra)->graph_.elements_.size() << " elements";
+    return net::not_found_response(req);
+  }
+
   auto const& element = (**infra)->graph_.elements_[e_id];
 
   json_archive archive;
diff --git a/web/server/src/modules/infrastructure/serve_exclusion_set.cc b/web/server/src/modules/infrastructure/serve_exclusion_set.cc
index c775048..75646eb 100644
--- a/web/server/src/modules/infrastructure/serve_exclusion_set.cc
+++ b/web/server/src/modules/infrastructure/serve_exclusion_set.cc
@@ -21,6 +21,14 @@ net::web_server::string_res_t infrastructure_module::serve_exclusion_set(
   }
 
   auto const es_id = utls::parse_int<exclusion_set::id>(req.path_params_[1]);
+  if (es_id >= (**infra)->exclusion_.exclusion_sets_.size()) {
+    uLOG(utl::warn) << "requesting exclusion set with id " << es_id
+                    << " but there are only "
+                    << (**infra)->exclusion_.exclusion_sets_.size()
+                    << " exclusion sets";
+    return net::not_found_response(req);
+  }
+
   auto const& es = (**infra)->exclusion_.exclusion_sets_[es_id];
 
   json_archive archive;
diff --git a/web/server/src/modules/timetable/serve_timetable_names.cc b/web/server/src/modules/timetable/serve_timetable_names.cc
index c3744a9..2176df2 100644
--- a/web/server/src/modules/timetable/serve_timetable_names.cc
+++ b/web/server/src/modules/timetable/serve_timetable_names.cc
@@ -1,5 +1,7 @@
 #include "soro/server/modules/timetable/timetable_module.h"
 
+#include "net/web_server/responses.h"
+
 #include "soro/server/cereal/cereal_extern.h"
 #include "soro/server/cereal/json_archive.h"
 
@@ -7,7 +9,12 @@ namespace soro::server {
 
 net::web_server::string_res_t timetable_module::serve_timetable_names(
     net::query_router::route_request const& req) const {
-  auto const& context = this->contexts_.at(req.path_params_.front());
+  auto const context_it = contexts_.find(req.path_params_.front());
+  if (context_it == std::end(contexts_)) {
+    return net::not_found_response(req);
+  }
+
+  auto const& context = context_it->second;
 
   json_archive archive;
   archive.add()(cereal::make_nvp("timetables",
-- 
2.43.0


From 7e5e787147760d8412c9e22b6f927cbd75d37a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 14/23] fix: the route of the station list rejected the address
 the client requests

---
 web/server/src/soro_server.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/server/src/soro_server.cc b/web/server/src/soro_server.cc
index 1fcc49e..507629e 100644
--- a/web/server/src/soro_server.cc
+++ b/web/server/src/soro_server.cc
@@ -45,7 +45,7 @@ void soro_server::set_up_routes(server_settings const& s) {
                 });
 
   // 0.0.0.0:8080/infrastructure/{infrastructure_name}/stations/
-  router_.route("GET", R"(/infrastructure\/([a-zA-Z0-9_-]+)\/stations/$)",
+  router_.route("GET", R"(/infrastructure\/([a-zA-Z0-9_-]+)\/stations\/?$)",
                 [this](net::query_router::route_request const& req,
                        web_server::http_res_cb_t const& cb, bool const) {
                   cb(infrastructure_module_.serve_station_names(req));
-- 
2.43.0


From d0e64e618ee9d879ed6587953ed08f0ae48eeadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 15/23] fix: answers of the server use the field names and
 shapes the client declares

---
 web/client/src/util/SoroClient.ts                           | 4 ++--
 web/server/src/modules/infrastructure/serve_element.cc      | 6 +++---
 web/server/src/modules/infrastructure/serve_station.cc      | 4 ++--
 .../src/modules/infrastructure/serve_station_route.cc       | 2 ++
 4 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/web/client/src/util/SoroClient.ts b/web/client/src/util/SoroClient.ts
index d3602b4..9c89654 100644
--- a/web/client/src/util/SoroClient.ts
+++ b/web/client/src/util/SoroClient.ts
@@ -15,7 +15,7 @@ export type Station = {
   stationRoutes: StationRoute[];
   interlockingRouteIds: number[];
 };
-type StationList = { stations: string[] };
+type StationList = { stations: { ds100: string; id: number }[] };
 
 export type StationRoute = {
   id: number;
@@ -78,7 +78,7 @@ export type SearchResult = {
   type: SearchResultType;
   id: number;
   name: string;
-  boundingBox: BoundingBox;
+  boundingBox: LngLatBounds;
 
   // empty when type !== Element
   elementType: string;
diff --git a/web/server/src/modules/infrastructure/serve_element.cc b/web/server/src/modules/infrastructure/serve_element.cc
index ae09506..7ec2fe3 100644
--- a/web/server/src/modules/infrastructure/serve_element.cc
+++ b/web/server/src/modules/infrastructure/serve_element.cc
@@ -23,12 +23,12 @@ void add_data_to_cereal_archive(Archive& archive, element_data_t const& ed) {
       [&](halt const& halt) {
         archive(cereal::make_nvp("name", halt.name_));
         archive(cereal::make_nvp("passenger", halt.is_passenger_));
-        archive(cereal::make_nvp("id_extern", halt.identifier_extern_));
-        archive(cereal::make_nvp("id_op", halt.identifier_operational_));
+        archive(cereal::make_nvp("idExtern", halt.identifier_extern_));
+        archive(cereal::make_nvp("idOp", halt.identifier_operational_));
       },
       [&](speed_limit const& limit) {
         archive(cereal::make_nvp("limit", si::as_km_h(limit.limit_)));
-        archive(cereal::make_nvp("point_of_activation", limit.poa_));
+        archive(cereal::make_nvp("pointOfActivation", limit.poa_));
       },
       [&](main_signal const& ms) {
         archive(cereal::make_nvp("name", ms.name_));
diff --git a/web/server/src/modules/infrastructure/serve_station.cc b/web/server/src/modules/infrastructure/serve_station.cc
index ddd9682..310f2d2 100644
--- a/web/server/src/modules/infrastructure/serve_station.cc
+++ b/web/server/src/modules/infrastructure/serve_station.cc
@@ -18,8 +18,8 @@ void CEREAL_SERIALIZE_FUNCTION_NAME(Archive& archive,
   auto const to = s->nodes().back()->element_->id();
 
   archive(cereal::make_nvp("id", s->id_), cereal::make_nvp("name", s->name_),
-          cereal::make_nvp("from_element", from),
-          cereal::make_nvp("to_element", to));
+          cereal::make_nvp("fromElement", from),
+          cereal::make_nvp("toElement", to));
 }
 
 template <typename Archive>
diff --git a/web/server/src/modules/infrastructure/serve_station_route.cc b/web/server/src/modules/infrastructure/serve_station_route.cc
index fff9d26..3777d93 100644
--- a/web/server/src/modules/infrastructure/serve_station_route.cc
+++ b/web/server/src/modules/infrastructure/serve_station_route.cc
@@ -32,6 +32,8 @@ net::web_server::string_res_t infrastructure_module::serve_station_route(
   json_archive archive;
   archive.add()(
       cereal::make_nvp("id", sr->id_), cereal::make_nvp("name", sr->name_),
+      cereal::make_nvp("fromElement", sr->nodes().front()->element_->id()),
+      cereal::make_nvp("toElement", sr->nodes().back()->element_->id()),
       cereal::make_nvp("ds100", sr->station_->ds100_),
       cereal::make_nvp(
           "path", sr->nodes() | ranges::views::transform([&](auto&& n) {
-- 
2.43.0


From 37cd5328ca84a0e94af6da81306159e67612e54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 16/23] fix: the search mapped a mutation that does not exist

---
 web/client/src/components/sidebar/search/extended-search.vue | 1 -
 1 file changed, 1 deletion(-)

diff --git a/web/client/src/components/sidebar/search/extended-search.vue b/web/client/src/components/sidebar/search/extended-search.vue
index e853f78..864250b 100644
--- a/web/client/src/components/sidebar/search/extended-search.vue
+++ b/web/client/src/components/sidebar/search/extended-search.vue
@@ -117,7 +117,6 @@ export default defineComponent({
 
   methods: {
     ...mapMutations(SidebarNamespace, [
-      'setCurrentQuery',
       'setCurrentSearchResults',
       'setCurrentBoundingBox'
     ]),
-- 
2.43.0


From affcd5814ef955b2924254040567862db3625b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 17/23] fix: halts were indexed under the other identifier than
 the one checked

---
 web/server/src/modules/search/search_module.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/web/server/src/modules/search/search_module.cc b/web/server/src/modules/search/search_module.cc
index ec359e4..b119e69 100644
--- a/web/server/src/modules/search/search_module.cc
+++ b/web/server/src/modules/search/search_module.cc
@@ -107,12 +107,12 @@ search_module::context get_search_context(infra::infrastructure const& infra) {
       }
 
       if (!data.identifier_extern_.empty()) {
-        std::string const name(data.identifier_operational_);
-        ctx.results_.push_back({type, name, bb, id});
+        std::string const name(data.identifier_extern_);
+        ctx.results_.push_back({type, name, bb, id, type_str});
       }
 
       if (!data.identifier_operational_.empty()) {
-        std::string const name(data.identifier_extern_);
+        std::string const name(data.identifier_operational_);
         ctx.results_.push_back({type, name, bb, id, type_str});
       }
     }
-- 
2.43.0


From d60709f948c611e47d18a5ea6913aaf5fac58e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:48 +0000
Subject: [PATCH 18/23] fix: the order of a directory listing decided train ids
 and the infrastructure version

---
 .../parsers/kss/parse_kss_timetable.cc        | 35 ++++++++++++++-----
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/timetable/parsers/kss/parse_kss_timetable.cc b/src/timetable/parsers/kss/parse_kss_timetable.cc
index a45d802..4c9e442 100644
--- a/src/timetable/parsers/kss/parse_kss_timetable.cc
+++ b/src/timetable/parsers/kss/parse_kss_timetable.cc
@@ -17,6 +17,7 @@
 #include "soro/utls/sassert.h"
 #include "soro/utls/statistics.h"
 #include "soro/utls/std_wrapper/any_of.h"
+#include "soro/utls/std_wrapper/sort.h"
 #include "soro/utls/string.h"
 
 #include "soro/timetable/bitfield.h"
@@ -36,6 +37,22 @@ bool is_kss_file(fs::path const& p) {
          p.filename().string().starts_with("KSS-");
 }
 
+// the order of a directory listing is unspecified, the order of the result
+// is not
+std::vector<fs::path> get_kss_files(timetable_options const& opts) {
+  std::vector<fs::path> kss_files;
+
+  for (auto const& dir_entry : fs::directory_iterator{opts.timetable_path_}) {
+    if (is_kss_file(dir_entry.path())) {
+      kss_files.emplace_back(dir_entry.path());
+    }
+  }
+
+  utls::sort(kss_files);
+
+  return kss_files;
+}
+
 bool is_kss_timetable(timetable_options const& opts) {
   if (!std::filesystem::is_directory(opts.timetable_path_)) {
     return false;
@@ -510,15 +527,19 @@ infra::version get_required_infra_version(timetable_options const& opts) {
   utls::expect(!fs::is_empty(opts.timetable_path_),
                "timetable path {} is empty", opts.timetable_path_);
 
-  auto const first_fp = begin(fs::directory_iterator{opts.timetable_path_});
-  auto const first_file = utls::load_file(first_fp->path());
+  auto const kss_files = get_kss_files(opts);
+  utls::expect(!kss_files.empty(), "timetable path {} contains no kss file",
+               opts.timetable_path_);
+
+  auto const& first_fp = kss_files.front();
+  auto const first_file = utls::load_file(first_fp);
 
   xml_document tt_xml;
   auto success = tt_xml.load_buffer(
       reinterpret_cast<void const*>(first_file.data()), first_file.size());
   utl::verify(success,
               "pugixml error '{}' while parsing {} from kss timetable {}!",
-              success.description(), *first_fp);
+              success.description(), first_fp.string());
 
   auto const version_xml =
       tt_xml.child("KSS").child("header").child("spurplanVersionDescription");
@@ -564,12 +585,8 @@ utls::result<base_timetable> parse_kss_timetable(
 
   std::vector<work_item> work_todo;
 
-  for (auto const& dir_entry : fs::directory_iterator{opts.timetable_path_}) {
-    if (!is_kss_file(dir_entry.path())) {
-      continue;
-    }
-
-    work_todo.emplace_back(work_item{dir_entry.path(), {}});
+  for (auto const& kss_file : get_kss_files(opts)) {
+    work_todo.emplace_back(work_item{kss_file, {}});
   }
 
   utl::parallel_for_run(work_todo.size(), [&](auto&& work_id) {
-- 
2.43.0


From 2ce7011d6c885985c32357e7808871d358ad8473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:00 +0000
Subject: [PATCH 19/23] fix: a duration without a trailing unit was read beyond
 its end

---
 src/timetable/parsers/kss/parse_kss_timetable.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/timetable/parsers/kss/parse_kss_timetable.cc b/src/timetable/parsers/kss/parse_kss_timetable.cc
index 4c9e442..ecb66d5 100644
--- a/src/timetable/parsers/kss/parse_kss_timetable.cc
+++ b/src/timetable/parsers/kss/parse_kss_timetable.cc
@@ -199,6 +199,11 @@ duration2 parse_duration(char const* const dur_str) {
       return (std::isalpha(c) != 0) && (std::isupper(c) != 0);
     });
 
+    // the rest carries no unit, there is nothing left to parse
+    if (next_cap == str_end) {
+      break;
+    }
+
     switch (*next_cap) {
       case 'H': {
         result += hours{parse_int<hours::rep>(letter_it, next_cap)};
-- 
2.43.0


From f70193b5bad1fed0fde4882bca6613cd66705f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 20/23] fix: trips running past midnight into an interval were
 missed

---
 src/timetable/train.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/timetable/train.cc b/src/timetable/train.cc
index e314edd..b0bea59 100644
--- a/src/timetable/train.cc
+++ b/src/timetable/train.cc
@@ -21,11 +21,23 @@ bool train_node::omitted() const {
   return omitted_ || (node_->is(type::HALT) && !sequence_point_.has_value());
 }
 
+// a trip may run past midnight, hence trips overlapping the interval can have
+// their anchor on any day between this one and the start of the interval
+absolute_time earliest_anchor(train const& train, interval const& interval) {
+  auto const last_arrival = train.last_arrival().count();
+
+  return interval.start_.time_since_epoch().count() > last_arrival
+             ? absolute_time{interval.start_.time_since_epoch() -
+                             absolute_time::duration{last_arrival}}
+             : absolute_time{};
+}
+
 train::iterator::iterator(train const* train, interval const& interval,
                           bool const end)
     : train_{train},
-      bitfield_it_(end ? train->service_days_.to(interval.end_)
-                       : train->service_days_.from(interval.start_)),
+      bitfield_it_(
+          end ? train->service_days_.to(interval.end_)
+              : train->service_days_.from(earliest_anchor(*train, interval))),
       interval_{interval} {
   advance();
 }
-- 
2.43.0


From 4f12a279dfa1b6a49eb674c6e2dc8489f90bcafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 21/23] fix: an extra speed limit was reported at every later
 node of a station route

---
 src/infrastructure/station/station_route.cc | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/infrastructure/station/station_route.cc b/src/infrastructure/station/station_route.cc
index 74b63a7..3b1c999 100644
--- a/src/infrastructure/station/station_route.cc
+++ b/src/infrastructure/station/station_route.cc
@@ -166,17 +166,16 @@ utls::recursive_generator<route_node> station_route::from_to(
 
     if (result.omitted_) {
       ++omit_idx;
-    } else {
-      bool const extra_spl =
-          spl_idx < extra_speed_limits_.size() &&
-          extra_speed_limits_[spl_idx].node_->id_ == result.node_->id_;
-
-      if (extra_spl) {
-        result.extra_spl_ =
-            speed_limit::optional_ptr(&extra_speed_limits_[spl_idx++]);
-      }
     }
 
+    bool const extra_spl =
+        spl_idx < extra_speed_limits_.size() &&
+        extra_speed_limits_[spl_idx].node_->id_ == result.node_->id_;
+
+    result.extra_spl_ =
+        extra_spl ? speed_limit::optional_ptr(&extra_speed_limits_[spl_idx++])
+                  : speed_limit::optional_ptr();
+
     co_yield result;
   }
 }
-- 
2.43.0


From e28a43d1c974ba4f87b123c1399189ea33d44e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:14 +0000
Subject: [PATCH 22/23] fix: a traversal visited the edges of its start twice
 if a cycle led back to it

---
 include/soro/utls/graph/traversal.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/soro/utls/graph/traversal.h b/include/soro/utls/graph/traversal.h
index c1229f3..5c9f43e 100644
--- a/include/soro/utls/graph/traversal.h
+++ b/include/soro/utls/graph/traversal.h
@@ -28,6 +28,7 @@ inline void graph_traversal(Node const start, GetNeighbours&& get_neighbours,
   Todo q;
   cista::raw::hash_set<Node> seen;
 
+  seen.emplace(start);
   q.emplace(std::pair{start, start});
 
   while (!q.empty()) {
-- 
2.43.0


From 71547965f6f74750ab9d92d3c02367f2e0cf09c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:14 +0000
Subject: [PATCH 23/23] fix: the next node of a trip was the first of the
 sorted edges, not the one of the trip

---
 src/simulation/ordering/ordering_graph.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/simulation/ordering/ordering_graph.cc b/src/simulation/ordering/ordering_graph.cc
index fa553f4..e0251ae 100644
--- a/src/simulation/ordering/ordering_graph.cc
+++ b/src/simulation/ordering/ordering_graph.cc
@@ -219,13 +219,15 @@ std::span<const ordering_node> ordering_graph::trip_nodes(
 }
 
 ordering_node const& ordering_node::next(ordering_graph const& og) const {
+  // the nodes of a trip are stored consecutively, out_ is sorted by id and
+  // does not tell which edge continues the trip
   utls::sasserts([this, &og] {
-    utls::sassert(!out_.empty(), "no next node");
-    auto const& next = og.nodes_[out_.front()];
+    utls::sassert(id_ + 1 < og.nodes_.size(), "no next node");
+    auto const& next = og.nodes_[id_ + 1];
     utls::sassert(next.train_id_ == train_id_, "next node not same train");
   });
 
-  return og.nodes_[out_.front()];
+  return og.nodes_[id_ + 1];
 }
 
 }  // namespace soro::simulation
\ No newline at end of file
-- 
2.43.0

