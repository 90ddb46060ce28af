From 01c7e0ee11d840eb27c0d19159b4ff94cde5e692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:05 +0000
Subject: [PATCH 01/17] fix: cache::clear() must also empty the LRU list

It kept pointers to destroyed entries: once the cleared cache filled up
again, the 'oldest' entry it discarded was one of them.
---
 sdd/mem/cache.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdd/mem/cache.hh b/sdd/mem/cache.hh
index e37a761..74aad60 100644
--- a/sdd/mem/cache.hh
+++ b/sdd/mem/cache.hh
@@ -270,6 +270,7 @@ public:
                                 x->~cache_entry_type();
                                 pool_.deallocate(x);
                               });
+    lru_list_.clear();
   }
 
   /// @brief Get the number of cached operations.
-- 
2.43.0


From 17fa323e392d3e2f085082c34407d54bc79d9206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:32 +0000
Subject: [PATCH 02/17] fix: assignment of a ptr to itself or from data it
 keeps alive

The currently managed data was released before the reference to the new
one was taken: self-assignment of the last reference, and assignment of a
handle from a sub-object of what it manages, used released storage; a
self-move left a null ptr.
---
 sdd/mem/ptr.hh | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/sdd/mem/ptr.hh b/sdd/mem/ptr.hh
index 9594e20..229d65d 100644
--- a/sdd/mem/ptr.hh
+++ b/sdd/mem/ptr.hh
@@ -9,6 +9,7 @@
 #include <cassert>
 #include <functional>  // hash, function
 #include <type_traits> // remove_const
+#include <utility>     // move
 
 #include "sdd/mem/unique_table.hh"
 #include "sdd/util/hash.hh"
@@ -97,16 +98,9 @@ public:
   noexcept
   {
     assert(other.x_ != nullptr); // Don't copy from an already moved ptr.
-    if (x_ != nullptr)
-    {
-      x_->decrement_reference_counter();
-      if (x_->is_not_referenced())
-      {
-        deletion_handler<Unique>()(x_);
-      }
-    }
-    x_ = other.x_;
-    x_->increment_reference_counter();
+    // Copy first: other may be this ptr, or may only be kept alive by the currently managed data.
+    ptr tmp(other);
+    swap(*this, tmp);
     return *this;
   }
 
@@ -123,16 +117,9 @@ public:
   operator=(ptr&& other)
   noexcept
   {
-    if (x_ != nullptr)
-    {
-      x_->decrement_reference_counter();
-      if (x_->is_not_referenced())
-      {
-        deletion_handler<Unique>()(x_);
-      }
-    }
-    x_ = other.x_;
-    other.x_ = nullptr;
+    // Move first: other may be this ptr, or may only be kept alive by the currently managed data.
+    ptr tmp(std::move(other));
+    swap(*this, tmp);
     return *this;
   }
 
-- 
2.43.0


From faa18169db349deb301a7ca9745cf8266267634f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:32 +0000
Subject: [PATCH 03/17] fix: flat_set::insert() returned an iterator on a
 destroyed local copy

---
 sdd/values/flat_set.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdd/values/flat_set.hh b/sdd/values/flat_set.hh
index 158caba..139d605 100644
--- a/sdd/values/flat_set.hh
+++ b/sdd/values/flat_set.hh
@@ -96,7 +96,7 @@ public:
       fs.shrink_to_fit();
       ptr_ = create(std::move(fs));
     }
-    return insertion;
+    return {ptr_->data().find(x), insertion.second};
   }
 
   /// @brief Returns an iterator pointing to the first element in the flat set.
-- 
2.43.0


From 7c84c8997b2fdb5224889b11820e72d18cc135d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:32 +0000
Subject: [PATCH 04/17] fix: init() did not see that the values' state is
 already in use

It looked at the wrong global pointer: a second configuration with the same
(stateful) set of values replaced the values' state of the first one. Also,
set the global pointers only when both managers are constructed, so that a
failed construction leaves no dangling pointer.
---
 sdd/manager.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sdd/manager.hh b/sdd/manager.hh
index 2fe1bc8..3efb123 100644
--- a/sdd/manager.hh
+++ b/sdd/manager.hh
@@ -36,12 +36,15 @@ manager<C>
 init(const C& configuration = C{})
 {
   using values_type = typename C::Values;
-  if (*global_ptr<C>() == nullptr and *global_ptr<values_type>() == nullptr)
+  // A stateful set of values is shared by all configurations which use it.
+  const bool values_in_use = values::values_traits<values_type>::stateful
+                         and *global_values_ptr<values_type>() != nullptr;
+  if (*global_ptr<C>() == nullptr and not values_in_use)
   {
     auto vm_ptr = std::make_unique<values_manager<values_type>>(configuration);
-    *global_values_ptr<values_type>() = vm_ptr.get();
-
     auto im_ptr = std::make_unique<internal_manager<C>>(configuration);
+
+    *global_values_ptr<values_type>() = vm_ptr.get();
     *global_ptr<C>() = im_ptr.get();
 
     return std::make_shared<manager_impl<C>>(std::move(vm_ptr), std::move(im_ptr));
-- 
2.43.0


From 9188d5589830719e27f90d67bbcc7b3b03bbbc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:50 +0000
Subject: [PATCH 05/17] fix: intersection of homomorphisms local to the same
 variable

local(x,f) & local(x,g) was replaced by local(x, f & g), at construction and
when rewriting. It is right for selectors only: f and g may give the same
valuation of x starting from different ones.
---
 sdd/hom/intersection.hh | 11 +++++++++--
 sdd/hom/rewrite.hh      | 12 +++++++++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/sdd/hom/intersection.hh b/sdd/hom/intersection.hh
index 0948ffd..96e597d 100644
--- a/sdd/hom/intersection.hh
+++ b/sdd/hom/intersection.hh
@@ -143,11 +143,18 @@ struct intersection_builder
     }
   }
 
-  /// @brief Regroup locals.
+  /// @brief Regroup locals, for selectors only.
+  ///
+  /// Other homomorphisms may give the same valuation starting from different ones.
   void
-  operator()(const _local<C>& l, const homomorphism<C>&)
+  operator()(const _local<C>& l, const homomorphism<C>& h)
   const
   {
+    if (not l.h.selector())
+    {
+      operands_.insert(h);
+      return;
+    }
     auto insertion = locals_.emplace(l.target, hom_list_type{});
     insertion.first->second.emplace_back(l.h);
   }
diff --git a/sdd/hom/rewrite.hh b/sdd/hom/rewrite.hh
index 87c38bf..c17a656 100644
--- a/sdd/hom/rewrite.hh
+++ b/sdd/hom/rewrite.hh
@@ -6,7 +6,7 @@
 
 #pragma once
 
-#include <algorithm> // partition
+#include <algorithm> // for_each, partition
 #include <deque>
 #include <tuple>
 
@@ -121,6 +121,16 @@ struct rewriter
     auto& L = std::get<2>(p);
     const bool has_id = std::get<3>(p);
 
+    // The intersection can be pushed in the nested level for selectors only.
+    if (L.size() > 1)
+    {
+      const auto selectors_end
+        = std::partition(L.begin(), L.end(), [](const homomorphism<C>& l){return l.selector();});
+      std::for_each(selectors_end, L.end(), [&](const homomorphism<C>& l)
+                                            {G.push_back(local(o.variable(), l));});
+      L.erase(selectors_end, L.end());
+    }
+
     if (F.size() == 0 and L.size() == 0)
     {
       return h;
-- 
2.43.0


From 43b037cc8f8d6ec45428e4bbc237a2821717caf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:50 +0000
Subject: [PATCH 06/17] fix: equal orders must have the same hash

The hash was the one of the order's internal pointers, whereas equality is
structural: equal cons homomorphisms, made from distinct but equal orders,
were not unified.
---
 sdd/order/order.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdd/order/order.hh b/sdd/order/order.hh
index 819fd1f..60dba14 100644
--- a/sdd/order/order.hh
+++ b/sdd/order/order.hh
@@ -365,7 +365,8 @@ struct hash<sdd::order<C>>
   const noexcept
   {
     using namespace sdd::hash;
-    return seed(o.nodes_ptr_.get()) (val(o.head_));
+    // Equal orders may not share their nodes.
+    return o.empty() ? seed() : seed(o.position()) (val(o.identifier()));
   }
 };
 
-- 
2.43.0


From 98e7fd88b723f4b0d858a4c23e3903d098ea2dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:12 +0000
Subject: [PATCH 07/17] fix: comparison and hash of a bitset larger than an
 unsigned long

to_ulong() throws std::overflow_error when a high bit is set, which
terminated the program as these functions are noexcept.
---
 sdd/values/bitset.hh | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sdd/values/bitset.hh b/sdd/values/bitset.hh
index 30478c2..6ed800d 100644
--- a/sdd/values/bitset.hh
+++ b/sdd/values/bitset.hh
@@ -78,7 +78,19 @@ public:
   operator<(const bitset& lhs, const bitset& rhs)
   noexcept
   {
-    return lhs.content_.to_ulong() < rhs.content_.to_ulong();
+    if (Size <= std::numeric_limits<unsigned long>::digits)
+    {
+      return lhs.content_.to_ulong() < rhs.content_.to_ulong();
+    }
+    // Most significant bit first, like a comparison of integers.
+    for (std::size_t i = Size; i-- > 0;)
+    {
+      if (lhs.content_[i] != rhs.content_[i])
+      {
+        return rhs.content_[i];
+      }
+    }
+    return false;
   }
 
   bitset&
@@ -214,7 +226,7 @@ struct hash<sdd::values::bitset<Size>>
   operator()(const sdd::values::bitset<Size>& b)
   const noexcept
   {
-    return sdd::hash::seed(b.content_.to_ulong());
+    return std::hash<std::bitset<Size>>()(b.content_);
   }
 };
   
-- 
2.43.0


From 812faaf0812dd9b2f12896dddda94e6e9d463ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:12 +0000
Subject: [PATCH 08/17] fix: order::flat() lost the position of its output
 iterator

The iterator was passed by value to the recursive calls: with an iterator
which holds its position (e.g. a pointer), identifiers overwrote each other.
---
 sdd/order/order.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdd/order/order.hh b/sdd/order/order.hh
index 60dba14..6682841 100644
--- a/sdd/order/order.hh
+++ b/sdd/order/order.hh
@@ -215,7 +215,7 @@ private:
   template <typename OutputIterator>
   static
   void
-  flat_impl(OutputIterator it, const order_node<C>* current)
+  flat_impl(OutputIterator& it, const order_node<C>* current)
   {
     if (current != nullptr)
     {
-- 
2.43.0


From 6423e6d991a0e3968932c39396c9c9348bc3f962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:12 +0000
Subject: [PATCH 09/17] fix: FORCE must return the order with the smallest span

The smallest span was never updated, so the last order was returned.
---
 sdd/order/strategies/force.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdd/order/strategies/force.hh b/sdd/order/strategies/force.hh
index 59e5463..f44d447 100644
--- a/sdd/order/strategies/force.hh
+++ b/sdd/order/strategies/force.hh
@@ -60,7 +60,7 @@ public:
 
     // Keep a copy of the order with the smallest span.
     auto best_order = std::vector<std::reference_wrapper<vertex_type>>{sorted_vertices};
-    const auto smallest_span = std::numeric_limits<double>::max();
+    auto smallest_span = std::numeric_limits<double>::max();
 
     while (iterations-- != 0)
     {
@@ -100,6 +100,7 @@ public:
       {
         // We keep the order that minimizes the span.
         best_order = sorted_vertices;
+        smallest_span = span;
       }
     }
 
-- 
2.43.0


From 364a952f79bc2532855241fbee2ebea1099cd07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:12 +0000
Subject: [PATCH 10/17] fix: locations of a FORCE hypergraph depended on
 previous hypergraphs

The initial location was a static variable, shared by all hypergraphs.
---
 sdd/order/strategies/force_hypergraph.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdd/order/strategies/force_hypergraph.hh b/sdd/order/strategies/force_hypergraph.hh
index ef9f7a8..c8a7aae 100644
--- a/sdd/order/strategies/force_hypergraph.hh
+++ b/sdd/order/strategies/force_hypergraph.hh
@@ -60,7 +60,7 @@ public:
     , hyperedges_ptr_(std::make_shared<std::deque<hyperedge_type>>())
     , id_to_vertex_ptr_(std::make_shared<std::unordered_map<identifier_type, vertex_type*>>())
   {
-    static double location = 0;
+    double location = 0;
     assert(it != end);
     for (; it != end; ++it)
     {
-- 
2.43.0


From aa8e393071df415bd8e20c118e650ea50904899d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:50 +0000
Subject: [PATCH 11/17] fix: a cache of size 1 and a table of size 0 accessed
 memory out of bounds

---
 sdd/mem/cache.hh      | 3 ++-
 sdd/mem/hash_table.hh | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/sdd/mem/cache.hh b/sdd/mem/cache.hh
index 74aad60..2cc454b 100644
--- a/sdd/mem/cache.hh
+++ b/sdd/mem/cache.hh
@@ -6,6 +6,7 @@
 
 #pragma once
 
+#include <algorithm> // max
 #include <memory> // unique_ptr
 #include <tuple>
 
@@ -196,7 +197,7 @@ public:
     : cxt_(context)
     , set_(size, max_load_factor)
     , lru_list_()
-    , max_size_(set_.bucket_count() * max_load_factor)
+    , max_size_(std::max<std::size_t>(1, set_.bucket_count() * max_load_factor))
     , stats_()
     , pool_(max_size_)
   {}
diff --git a/sdd/mem/hash_table.hh b/sdd/mem/hash_table.hh
index 1b55f4c..5e9efa8 100644
--- a/sdd/mem/hash_table.hh
+++ b/sdd/mem/hash_table.hh
@@ -6,7 +6,7 @@
 
 #pragma once
 
-#include <algorithm>   // fill
+#include <algorithm>   // fill, max
 #include <cassert>
 #include <functional>  // hash
 #include <memory>      // unique_ptr
@@ -68,7 +68,7 @@ private:
 public:
 
   hash_table(std::size_t size, double max_load_factor = 0.75)
-    : nb_buckets_(util::next_power_of_2(size))
+    : nb_buckets_(util::next_power_of_2(std::max<std::size_t>(1, size)))
     , size_(0)
     , buckets_(std::make_unique<Data*[]>(nb_buckets_))
     , max_load_factor_(max_load_factor)
-- 
2.43.0


From dfac0d9fcce40a6ff1f70487f93ef52f8eac1008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:25 +0000
Subject: [PATCH 12/17] fix: init() must leave nothing behind when memory runs
 out

The constructor of arena was noexcept although it allocates, and the global
pointers were set before the last allocation: the library then stayed
initialized forever, with dangling pointers.
---
 sdd/manager.hh          | 11 ++++++++---
 sdd/mem/linear_alloc.hh |  1 -
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/sdd/manager.hh b/sdd/manager.hh
index 3efb123..b377e97 100644
--- a/sdd/manager.hh
+++ b/sdd/manager.hh
@@ -44,10 +44,15 @@ init(const C& configuration = C{})
     auto vm_ptr = std::make_unique<values_manager<values_type>>(configuration);
     auto im_ptr = std::make_unique<internal_manager<C>>(configuration);
 
-    *global_values_ptr<values_type>() = vm_ptr.get();
-    *global_ptr<C>() = im_ptr.get();
+    const auto vm = vm_ptr.get();
+    const auto im = im_ptr.get();
+    auto impl = std::make_shared<manager_impl<C>>(std::move(vm_ptr), std::move(im_ptr));
 
-    return std::make_shared<manager_impl<C>>(std::move(vm_ptr), std::move(im_ptr));
+    // Nothing can fail anymore.
+    *global_values_ptr<values_type>() = vm;
+    *global_ptr<C>() = im;
+
+    return manager<C>(std::move(impl));
   }
   else
   {
diff --git a/sdd/mem/linear_alloc.hh b/sdd/mem/linear_alloc.hh
index b0c3948..ed44c0e 100644
--- a/sdd/mem/linear_alloc.hh
+++ b/sdd/mem/linear_alloc.hh
@@ -50,7 +50,6 @@ public:
 
   /// @brief Construct an arena with a given size.
   arena(std::size_t size)
-  noexcept
     : size_(size)
     , buffer_(std::make_unique<char[]>(size_))
     , position_(buffer_.get())
-- 
2.43.0


From 7558e923d56fb5dd53b6a767f35e17a03c21440b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:52 +0000
Subject: [PATCH 13/17] fix: nodes with more than 65535 arcs lost arcs

The number of arcs of a node was stored on 16 bits in the default
configurations: beyond 65535 arcs it was silently truncated and the node
lost most of its content. A 32 bits number takes no more memory, as it is
stored right after the variable.
---
 sdd/conf/default_configurations.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdd/conf/default_configurations.hh b/sdd/conf/default_configurations.hh
index 40d6451..d43f495 100644
--- a/sdd/conf/default_configurations.hh
+++ b/sdd/conf/default_configurations.hh
@@ -6,7 +6,7 @@
 
 #pragma once
 
-#include <cstdint> // uint16_t, uint32_t
+#include <cstdint> // uint32_t
 #include <string>
 
 #include "sdd/values/bitset.hh"
@@ -26,7 +26,7 @@ struct default_configuration
   using variable_type = unsigned int;
 
   /// @brief The type to store the number of elements in an alpha successor function.
-  using alpha_size_type = std::uint16_t;
+  using alpha_size_type = std::uint32_t;
 
   /// @brief The type to store the number of elements in an operation.
   using operands_size_type = std::uint32_t;
-- 
2.43.0


From 150cdf8a71e566da1e47d12053c0622f2a78494e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:34 +0000
Subject: [PATCH 14/17] fix: load_order() dereferenced a null pointer on an
 empty array

---
 sdd/tools/order.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdd/tools/order.hh b/sdd/tools/order.hh
index 10b18b4..4018bfc 100644
--- a/sdd/tools/order.hh
+++ b/sdd/tools/order.hh
@@ -79,7 +79,7 @@ load_order_impl(const rapidjson::Value& v)
     {
       ob << load_order_impl<C>(v[i]);
     }
-    return ob.height() == 1
+    return ob.empty() or ob.height() == 1
          ? ob
          : order_builder<C>(order_identifier<C>(), ob);
   }
@@ -108,7 +108,7 @@ load_order(std::istream& in)
   assert(doc.IsArray());
 
   const auto ob = load_order_impl<C>(doc);
-  return ob.height() == 1 and not ob.nested().empty()
+  return not ob.empty() and ob.height() == 1 and not ob.nested().empty()
        ? ob.nested()
        : ob;
 }
-- 
2.43.0


From 2612d526ed3198161b665ab8f2f6eb699bce49b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:34 +0000
Subject: [PATCH 15/17] fix: load_order() ended the program on an identifier
 that is not an int

---
 sdd/tools/order.hh | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sdd/tools/order.hh b/sdd/tools/order.hh
index 4018bfc..c75ab84 100644
--- a/sdd/tools/order.hh
+++ b/sdd/tools/order.hh
@@ -33,11 +33,15 @@ struct mk_order_identifier<C, true>
 {
   typename C::Identifier
   operator()(const rapidjson::Value& v)
-  const noexcept
+  const
   {
-    if (v.IsInt())
+    if (v.IsInt64())
+    {
+      return static_cast<typename C::Identifier>(v.GetInt64());
+    }
+    else if (v.IsUint64())
     {
-      return v.GetInt();
+      return static_cast<typename C::Identifier>(v.GetUint64());
     }
     else
     {
-- 
2.43.0


From a1e1190aff4268c9ff5038329def2971066acd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:34 +0000
Subject: [PATCH 16/17] fix: dump_order() wrote invalid JSON for identifiers
 with quotes

---
 sdd/tools/order.hh | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/sdd/tools/order.hh b/sdd/tools/order.hh
index c75ab84..468762b 100644
--- a/sdd/tools/order.hh
+++ b/sdd/tools/order.hh
@@ -8,6 +8,7 @@
 
 #include <cassert>
 #include <iosfwd>
+#include <sstream>
 #include <string>
 #include <stdexcept>
 #include <type_traits>
@@ -145,7 +146,27 @@ struct print_identifier<false>
   operator()(std::ostream& os, const T& x)
   const
   {
-    os << "\"" << x << "\"";
+    std::ostringstream ss;
+    ss << x;
+    os << '"';
+    for (const char c : ss.str())
+    {
+      if (c == '"' or c == '\\')
+      {
+        os << '\\' << c;
+      }
+      else if (static_cast<unsigned char>(c) < 0x20)
+      {
+        // Control characters are not allowed in JSON strings.
+        static const char* const digits = "0123456789abcdef";
+        os << "\\u00" << digits[c >> 4] << digits[c & 0xf];
+      }
+      else
+      {
+        os << c;
+      }
+    }
+    os << '"';
   }
 };
 
-- 
2.43.0


From d0e73016b1d7ea0fc1679a2f2ad6231171e94e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:55 +0000
Subject: [PATCH 17/17] fix: give the enumeration of paths a stack deep enough
 for its recursion

paths() visits an SDD recursively inside a coroutine, whose default stack is
exhausted by SDD of some thousands of variables (about a thousand without
optimizations) on which every other operation works.
---
 sdd/dd/definition.hh         |  3 ++-
 sdd/dd/path_generator_fwd.hh | 19 +++++++++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/sdd/dd/definition.hh b/sdd/dd/definition.hh
index 1a42deb..9a7f82d 100644
--- a/sdd/dd/definition.hh
+++ b/sdd/dd/definition.hh
@@ -211,7 +211,8 @@ public:
   paths()
   const
   {
-    return path_generator<C>(std::bind(dd::paths<C>, std::placeholders::_1, *this));
+    return path_generator<C>( std::bind(dd::paths<C>, std::placeholders::_1, *this)
+                            , dd::path_generator_attributes());
   }
 
   /// @brief Indicate if the SDD is |0|.
diff --git a/sdd/dd/path_generator_fwd.hh b/sdd/dd/path_generator_fwd.hh
index 36517ce..f957666 100644
--- a/sdd/dd/path_generator_fwd.hh
+++ b/sdd/dd/path_generator_fwd.hh
@@ -6,6 +6,8 @@
 
 #pragma once
 
+#include <algorithm> // max, min
+#include <cstddef>
 #include <memory>
 #include <vector>
 
@@ -57,6 +59,23 @@ template <typename C>
 void
 paths(path_push_type<C>&, const SDD<C>&);
 
+/// @internal
+/// @brief The attributes of the coroutine which generates paths.
+///
+/// Paths are generated by a recursive visit: its depth is the number of variables. Like any other
+/// recursive operation, it needs a stack of the size of the one of a thread, the default one of a
+/// coroutine being too small (and possibly not protected). The memory is only reserved: it's not
+/// used unless the SDD is deep.
+inline
+boost::coroutines::attributes
+path_generator_attributes()
+{
+  using traits = boost::coroutines::stack_allocator::traits_type;
+  constexpr std::size_t wanted = 8 * 1024 * 1024;
+  const auto size = traits::is_unbounded() ? wanted : std::min(wanted, traits::maximum_size());
+  return boost::coroutines::attributes(std::max(size, traits::default_size()));
+}
+
 /*------------------------------------------------------------------------------------------------*/
 
 }} // namespace sdd::dd
-- 
2.43.0

