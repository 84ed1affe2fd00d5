From b0428c7b82af823542c041e80dc2ab2da05c10bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:19 +0000
Subject: [PATCH 01/12] fix: do not negate PTRDIFF_MIN in cursor skip()

---
 include/kl/binary_rw.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kl/binary_rw.hpp b/include/kl/binary_rw.hpp
index 3eb0702..5a9615c 100644
--- a/include/kl/binary_rw.hpp
+++ b/include/kl/binary_rw.hpp
@@ -35,7 +35,7 @@ public:
         // Make sure pos_ does not escape of buffer range
         if (off > 0 && static_cast<std::size_t>(off) > left())
             err_ = true;
-        if (off < 0 && static_cast<std::size_t>(-off) > pos_)
+        if (off < 0 && std::size_t{0} - static_cast<std::size_t>(off) > pos_)
             err_ = true;
 
         if (!err_)
-- 
2.43.0


From 3d33f11a4ec7a47e62d0d953b4c799dc99375dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:15 +0000
Subject: [PATCH 02/12] fix: bound allocations by available data when reading
 strings and vectors

---
 include/kl/binary_rw/string.hpp |  7 +++++++
 include/kl/binary_rw/vector.hpp | 12 +++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/kl/binary_rw/string.hpp b/include/kl/binary_rw/string.hpp
index 270174b..1c563ba 100644
--- a/include/kl/binary_rw/string.hpp
+++ b/include/kl/binary_rw/string.hpp
@@ -24,6 +24,13 @@ void read_binary(kl::binary_reader& r, std::string& str)
     if (!size)
         return;
 
+    // Don't let a bogus size make us allocate more than there's data for
+    if (size > r.left())
+    {
+        r.notify_error();
+        return;
+    }
+
     str.resize(size);
     r >> gsl::make_span(str);
 
diff --git a/include/kl/binary_rw/vector.hpp b/include/kl/binary_rw/vector.hpp
index 0a039c5..ac27fcd 100644
--- a/include/kl/binary_rw/vector.hpp
+++ b/include/kl/binary_rw/vector.hpp
@@ -3,6 +3,8 @@
 #include "kl/binary_rw.hpp"
 #include "kl/type_traits.hpp"
 
+#include <algorithm>
+#include <cstddef>
 #include <vector>
 
 namespace kl {
@@ -39,6 +41,13 @@ void decode_vector(kl::binary_reader& r, std::vector<T>& vec,
 
     if (size)
     {
+        // Don't let a bogus size make us allocate more than there's data for
+        if (size > r.left() / sizeof(T))
+        {
+            r.notify_error();
+            return;
+        }
+
         vec.resize(size);
         r >> gsl::span<T>{vec};
 
@@ -57,7 +66,8 @@ void decode_vector(kl::binary_reader& r, std::vector<T>& vec,
     const auto size = r.read<std::uint32_t>();
 
     vec.clear();
-    vec.reserve(size);
+    // Don't let a bogus size make us allocate more than there's data for
+    vec.reserve(std::min<std::size_t>(size, r.left()));
 
     for (std::uint32_t i = 0; i < size; ++i)
     {
-- 
2.43.0


From 118c4384e5e870f3e5effcbef4155e49fe968668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:13 +0000
Subject: [PATCH 03/12] fix: hash bytes as unsigned values in fnv1a and hsieh

Characters >= 0x80 were sign-extended, so the results were not FNV-1a and
SuperFastHash, and negative values were left-shifted.
---
 include/kl/hash.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/kl/hash.hpp b/include/kl/hash.hpp
index ac174c5..4fada48 100644
--- a/include/kl/hash.hpp
+++ b/include/kl/hash.hpp
@@ -11,7 +11,7 @@ constexpr std::uint32_t fnv1a(const char* data, std::size_t length) noexcept
 {
     uint32_t hash = 2166136261U;
     for (std::size_t i = 0; i < length; ++i)
-        hash = (hash ^ static_cast<uint32_t>(data[i])) * 16777619U;
+        hash = (hash ^ static_cast<unsigned char>(data[i])) * 16777619U;
     return hash;
 }
 
@@ -39,7 +39,8 @@ namespace detail {
 
 constexpr std::uint16_t get16bits(const char* d) noexcept
 {
-    return static_cast<std::uint16_t>(d[0] | (d[1] << 8));
+    return static_cast<std::uint16_t>(static_cast<unsigned char>(d[0]) |
+                                      (static_cast<unsigned char>(d[1]) << 8));
 }
 } // namespace detail
 
@@ -70,7 +71,9 @@ constexpr std::uint32_t hsieh(const char* data, std::size_t length) noexcept
     case 3:
         hash += detail::get16bits(data);
         hash ^= hash << 16;
-        hash ^= static_cast<signed char>(data[sizeof(uint16_t)]) << 18;
+        hash ^= static_cast<uint32_t>(
+                    static_cast<signed char>(data[sizeof(uint16_t)]))
+                << 18;
         hash += hash >> 11;
         break;
     case 2:
-- 
2.43.0


From bc4dd06ac25440c516764bef553c69d941841084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:22 +0000
Subject: [PATCH 04/12] fix: enum_iterator::distance_to returned the negated
 distance

iterator_facade defines left - right as left.distance_to(right), so
end() - begin() was negative and the ordering operators were reversed.
---
 include/kl/enum_range.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kl/enum_range.hpp b/include/kl/enum_range.hpp
index 2fa4738..6ae00eb 100644
--- a/include/kl/enum_range.hpp
+++ b/include/kl/enum_range.hpp
@@ -35,7 +35,8 @@ public:
 
     std::ptrdiff_t distance_to(const enum_iterator& other) const
     {
-        return other.index_ - index_;
+        return static_cast<std::ptrdiff_t>(index_) -
+               static_cast<std::ptrdiff_t>(other.index_);
     }
 
     bool equal_to(const enum_iterator& other) const
-- 
2.43.0


From f3eeca4678a7a9ab859469ac39270477d0aa896b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:08 +0000
Subject: [PATCH 05/12] fix: detect mmap failure in file_view

mmap() reports failure with MAP_FAILED, not a null pointer.
---
 src/file_view_unix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_view_unix.cpp b/src/file_view_unix.cpp
index a9e84d0..fa5a5f6 100644
--- a/src/file_view_unix.cpp
+++ b/src/file_view_unix.cpp
@@ -77,7 +77,7 @@ file_view::file_view(const char* file_path)
 
     void* mapped = ::mmap(nullptr, static_cast<std::size_t>(file_info.st_size),
                           PROT_READ, MAP_PRIVATE, fd, 0);
-    if (!mapped)
+    if (mapped == MAP_FAILED)
         throw_system_error();
 
     contents_ = gsl::span{static_cast<const std::byte*>(mapped),
-- 
2.43.0


From 3b257e81921c9df406e18dd2d129e27cb8c4ad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:08 +0000
Subject: [PATCH 06/12] fix: make file_view non-copyable

A copy released the same mapping a second time and left the original dangling.
---
 include/kl/file_view.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/kl/file_view.hpp b/include/kl/file_view.hpp
index 0ac80a8..cc4b795 100644
--- a/include/kl/file_view.hpp
+++ b/include/kl/file_view.hpp
@@ -12,6 +12,9 @@ public:
     explicit file_view(const char* file_path);
     ~file_view();
 
+    file_view(const file_view&) = delete;
+    file_view& operator=(const file_view&) = delete;
+
     gsl::span<const std::byte> get_bytes() const noexcept { return contents_; }
 
 private:
-- 
2.43.0


From f37373af06fe2ce61d097c38ee4cc0856301a99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:50 +0000
Subject: [PATCH 07/12] fix: release the running slot when it throws during
 emission

The reference taken for the slot being invoked was never dropped, so the slot
and everything it captured leaked.
---
 include/kl/signal.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/kl/signal.hpp b/include/kl/signal.hpp
index 578d981..2bf1a1d 100644
--- a/include/kl/signal.hpp
+++ b/include/kl/signal.hpp
@@ -620,6 +620,11 @@ public:
             if (prev == 1)
                 cleanup_invalidated_slots_locked();
         });
+        // Still set only if the slot being invoked has thrown
+        KL_DEFER({
+            if (current)
+                current->release();
+        });
 
         while (current)
         {
-- 
2.43.0


From fb45c3c1bc5ed1e90b307aa9c89c26d4e71411da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:19 +0000
Subject: [PATCH 08/12] fix: do not destroy slots while holding the signal's
 mutex

---
 include/kl/signal.hpp | 60 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 12 deletions(-)

diff --git a/include/kl/signal.hpp b/include/kl/signal.hpp
index 2bf1a1d..dcdfa96 100644
--- a/include/kl/signal.hpp
+++ b/include/kl/signal.hpp
@@ -428,8 +428,9 @@ public:
             deferred_cleanup_ = other.deferred_cleanup_;
             other.deferred_cleanup_ = false;
         }
+        removed_slots removed;
         std::lock_guard<std::mutex> lock{mutex_};
-        rebind_locked();
+        rebind_locked(removed);
     }
 
     /**
@@ -615,10 +616,11 @@ public:
             if (last)
                 last->release();
 
+            removed_slots removed;
             std::lock_guard<std::mutex> lock{mutex_};
             const auto prev = active_emissions_--;
             if (prev == 1)
-                cleanup_invalidated_slots_locked();
+                cleanup_invalidated_slots_locked(removed);
         });
         // Still set only if the slot being invoked has thrown
         KL_DEFER({
@@ -662,6 +664,7 @@ public:
      */
     void disconnect_all_slots() noexcept
     {
+        removed_slots removed;
         std::lock_guard<std::mutex> lock{mutex_};
         const bool can_remove = !emission_in_progress();
         for (slot *iter = slots_, *prev = nullptr; iter;)
@@ -669,7 +672,7 @@ public:
             iter->invalidate();
             if (can_remove)
             {
-                iter = remove_slot_locked(*iter, prev);
+                iter = remove_slot_locked(*iter, prev, removed);
             }
             else
             {
@@ -706,6 +709,7 @@ public:
     {
         if (&left == &right)
             return;
+        removed_slots removed;
         std::scoped_lock lock{left.mutex_, right.mutex_};
         terminate_if_emitting_locked(left.emission_in_progress() ||
                                      right.emission_in_progress());
@@ -714,11 +718,42 @@ public:
         swap(left.tail_, right.tail_);
         swap(left.deferred_cleanup_, right.deferred_cleanup_);
 
-        left.rebind_locked();
-        right.rebind_locked();
+        left.rebind_locked(removed);
+        right.rebind_locked(removed);
     }
 
 private:
+    struct slot;
+
+    // Slots taken off the list. They're released only after the mutex is
+    // unlocked as destroying a slot runs user code which may use the signal.
+    class removed_slots
+    {
+    public:
+        removed_slots() noexcept = default;
+        ~removed_slots()
+        {
+            while (head_)
+            {
+                auto* next = head_->next;
+                head_->release();
+                head_ = next;
+            }
+        }
+
+        removed_slots(const removed_slots&) = delete;
+        removed_slots& operator=(const removed_slots&) = delete;
+
+        void push(slot& s) noexcept
+        {
+            s.next = head_;
+            head_ = &s;
+        }
+
+    private:
+        slot* head_{nullptr};
+    };
+
     static void terminate_if_emitting_locked(bool emission_in_progress) noexcept
     {
         if (!emission_in_progress)
@@ -730,6 +765,7 @@ private:
 
     void disconnect(std::uintptr_t id) noexcept override
     {
+        removed_slots removed;
         std::lock_guard<std::mutex> lock{mutex_};
         const bool can_remove = !emission_in_progress();
         for (slot *iter = slots_, *prev = nullptr; iter;
@@ -741,7 +777,7 @@ private:
             iter->invalidate();
             if (can_remove)
             {
-                remove_slot_locked(*iter, prev);
+                remove_slot_locked(*iter, prev, removed);
             }
             else
             {
@@ -752,9 +788,9 @@ private:
         }
     }
 
-    void rebind_locked() noexcept
+    void rebind_locked(removed_slots& removed) noexcept
     {
-        cleanup_invalidated_slots_locked();
+        cleanup_invalidated_slots_locked(removed);
 
         // Rebind back-pointer to new signal
         for (auto iter = slots_; iter; iter = iter->next)
@@ -763,7 +799,7 @@ private:
         }
     }
 
-    void cleanup_invalidated_slots_locked() noexcept
+    void cleanup_invalidated_slots_locked(removed_slots& removed) noexcept
     {
         if (!deferred_cleanup_)
             return;
@@ -784,7 +820,7 @@ private:
             }
             else
             {
-                iter = remove_slot_locked(*iter, prev);
+                iter = remove_slot_locked(*iter, prev, removed);
             }
         }
         deferred_cleanup_ = false;
@@ -849,7 +885,7 @@ private:
         }
     }
 
-    slot* remove_slot_locked(slot& to_remove, slot* prev) noexcept
+    slot* remove_slot_locked(slot& to_remove, slot* prev, removed_slots& removed) noexcept
     {
         assert(!emission_in_progress());
         slot* next = to_remove.next;
@@ -859,7 +895,7 @@ private:
             slots_ = next;
         if (tail_ == &to_remove)
             tail_ = prev ? prev : slots_;
-        to_remove.release();
+        removed.push(to_remove);
         return next;
     }
 };
-- 
2.43.0


From 9aeaa32128d6afbcb09a1f918d6abad3ee3fab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:35 +0000
Subject: [PATCH 09/12] fix: resources: do not let a zero-padded index alias an
 element's path

---
 include/kl/resource_op.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/kl/resource_op.hpp b/include/kl/resource_op.hpp
index 08ead13..a03fb32 100644
--- a/include/kl/resource_op.hpp
+++ b/include/kl/resource_op.hpp
@@ -473,6 +473,10 @@ inline bool parse_index(std::string_view text, std::size_t& out)
     if (text.empty())
         return false;
 
+    // An element has one path only: changes are tracked per path, so "01" must not alias "1"
+    if (text.size() > 1 && text.front() == '0')
+        return false;
+
     std::size_t value = 0;
     const auto* first = text.data();
     const auto* last = first + text.size();
-- 
2.43.0


From 9e0a950779d65867f360a76263ff5768b6171e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:35 +0000
Subject: [PATCH 10/12] fix: resources: DELETE of an optional collection
 reports its elements as changed

---
 include/kl/resource_op.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kl/resource_op.hpp b/include/kl/resource_op.hpp
index a03fb32..fc21a9a 100644
--- a/include/kl/resource_op.hpp
+++ b/include/kl/resource_op.hpp
@@ -1065,7 +1065,8 @@ try
                 rollback.commit();
 
                 r.state.modifications.notify_changed(
-                    path, kl::ctti::is_reflectable_v<typename optional_traits::value_type>);
+                    path, detail::has_addressable_descendants_v<
+                              typename optional_traits::value_type>);
 
                 return operation_result{status_code::no_content, {}};
             }
-- 
2.43.0


From 2ff2a493652783d2899e8e7b5cd0870b185773d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:10 +0000
Subject: [PATCH 11/12] fix: dump_at_path could not be instantiated with a
 dumper returning void

---
 include/kl/resource_op.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kl/resource_op.hpp b/include/kl/resource_op.hpp
index fc21a9a..6889b61 100644
--- a/include/kl/resource_op.hpp
+++ b/include/kl/resource_op.hpp
@@ -665,12 +665,12 @@ Result visit_at_path(T& object, path_view path, Visitor&& visitor)
 
 template <typename T, typename Context>
 auto dump_at_path(const T& obj, path_view path, Context& ctx)
-    -> decltype(kl::serialization::dump(obj, ctx))
+    -> decltype(kl::serialization::dump(obj, ctx), void())
 {
-    using return_type = decltype(kl::serialization::dump(obj, ctx));
-    return kl::resources::visit_at_path<return_type>(
+    (void)kl::resources::visit_at_path<int>(
         obj, path, [&](auto field, [[maybe_unused]] auto& access_ctx) {
-            return kl::serialization::dump(field.value(), ctx);
+            kl::serialization::dump(field.value(), ctx);
+            return 1; // Dummy value, dumping yields nothing
         });
 }
 
-- 
2.43.0


From 0a5a67e3f2ba4d1ee84ad044981dd251d0adfa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:27 +0000
Subject: [PATCH 12/12] fix: rebind a yaml::view on assignment instead of
 changing the document it refers to

---
 include/kl/yaml.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/kl/yaml.hpp b/include/kl/yaml.hpp
index 01f4401..6fa771d 100644
--- a/include/kl/yaml.hpp
+++ b/include/kl/yaml.hpp
@@ -31,6 +31,14 @@ class view
 public:
     view() = default;
     view(YAML::Node node) : node_{std::move(node)} {}
+    view(const view&) = default;
+
+    // Assigning a YAML::Node changes the document it refers to, a view only gets rebound
+    view& operator=(const view& other)
+    {
+        node_.reset(other.node_);
+        return *this;
+    }
 
     const YAML::Node& value() const { return node_; }
     operator const YAML::Node&() const { return value(); }
-- 
2.43.0

