From 1246382efb8babdfe265729b2a056b591e0a2459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:46 +0000
Subject: [PATCH 01/15] fix: reject leading zeros in resource collection
 indices

An element could be addressed as both items/1 and items/01. Writing through the
latter notified a path nobody watches: watchers of items/1 missed the change.
---
 include/kl/resource_op.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/kl/resource_op.hpp b/include/kl/resource_op.hpp
index 08ead13..cb47a29 100644
--- a/include/kl/resource_op.hpp
+++ b/include/kl/resource_op.hpp
@@ -473,6 +473,11 @@ inline bool parse_index(std::string_view text, std::size_t& out)
     if (text.empty())
         return false;
 
+    // Each element has exactly one path, so that modification tracking can't be bypassed by
+    // addressing it with an alternative spelling, e.g. "01".
+    if (text.size() > 1 && text.front() == '0')
+        return false;
+
     std::size_t value = 0;
     const auto* first = text.data();
     const auto* last = first + text.size();
-- 
2.43.0


From 286caf5040b131f3e680d7190edd295874630697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:20 +0000
Subject: [PATCH 02/15] fix: mark descendants changed when deleting an optional
 collection

Resetting optional<vector>/optional<map> through DELETE removed the elements but
only reflectable payloads flagged their subtree, so watchers of an element path
(e.g. ovec/0) never saw it disappear.
---
 include/kl/resource_op.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kl/resource_op.hpp b/include/kl/resource_op.hpp
index cb47a29..62fb359 100644
--- a/include/kl/resource_op.hpp
+++ b/include/kl/resource_op.hpp
@@ -1066,7 +1066,8 @@ try
                 rollback.commit();
 
                 r.state.modifications.notify_changed(
-                    path, kl::ctti::is_reflectable_v<typename optional_traits::value_type>);
+                    path,
+                    detail::has_addressable_descendants_v<typename optional_traits::value_type>);
 
                 return operation_result{status_code::no_content, {}};
             }
-- 
2.43.0


From b3579d060e75aa4ac6af5abc6e2d9e9354160b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:14 +0000
Subject: [PATCH 03/15] fix: signal emission releases the current slot when the
 slot throws

---
 include/kl/signal.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/kl/signal.hpp b/include/kl/signal.hpp
index 578d981..36ec4d7 100644
--- a/include/kl/signal.hpp
+++ b/include/kl/signal.hpp
@@ -620,6 +620,11 @@ public:
             if (prev == 1)
                 cleanup_invalidated_slots_locked();
         });
+        // Only set here when a slot has thrown: drop the traversal reference
+        KL_DEFER({
+            if (current)
+                current->release();
+        });
 
         while (current)
         {
-- 
2.43.0


From f0c55e25765581144aa2f06a296c24e0c5540586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:47 +0000
Subject: [PATCH 04/15] fix: signal destroys removed slots after releasing its
 mutex

What a slot has captured may disconnect other slots of the same signal
when it is destroyed; doing that under the mutex deadlocked.
---
 include/kl/signal.hpp | 57 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 12 deletions(-)

diff --git a/include/kl/signal.hpp b/include/kl/signal.hpp
index 36ec4d7..964894a 100644
--- a/include/kl/signal.hpp
+++ b/include/kl/signal.hpp
@@ -420,6 +420,7 @@ public:
      */
     signal(signal&& other) noexcept
     {
+        removed_slots removed;
         {
             std::lock_guard<std::mutex> lock{other.mutex_};
             terminate_if_emitting_locked(other.emission_in_progress());
@@ -429,7 +430,7 @@ public:
             other.deferred_cleanup_ = false;
         }
         std::lock_guard<std::mutex> lock{mutex_};
-        rebind_locked();
+        rebind_locked(removed);
     }
 
     /**
@@ -615,10 +616,11 @@ public:
             if (last)
                 last->release();
 
+            removed_slots removed;
             std::lock_guard<std::mutex> lock{mutex_};
             const auto prev = active_emissions_--;
             if (prev == 1)
-                cleanup_invalidated_slots_locked();
+                cleanup_invalidated_slots_locked(removed);
         });
         // Only set here when a slot has thrown: drop the traversal reference
         KL_DEFER({
@@ -662,6 +664,7 @@ public:
      */
     void disconnect_all_slots() noexcept
     {
+        removed_slots removed;
         std::lock_guard<std::mutex> lock{mutex_};
         const bool can_remove = !emission_in_progress();
         for (slot *iter = slots_, *prev = nullptr; iter;)
@@ -669,7 +672,7 @@ public:
             iter->invalidate();
             if (can_remove)
             {
-                iter = remove_slot_locked(*iter, prev);
+                iter = remove_slot_locked(*iter, prev, removed);
             }
             else
             {
@@ -706,6 +709,7 @@ public:
     {
         if (&left == &right)
             return;
+        removed_slots removed;
         std::scoped_lock lock{left.mutex_, right.mutex_};
         terminate_if_emitting_locked(left.emission_in_progress() ||
                                      right.emission_in_progress());
@@ -714,11 +718,38 @@ public:
         swap(left.tail_, right.tail_);
         swap(left.deferred_cleanup_, right.deferred_cleanup_);
 
-        left.rebind_locked();
-        right.rebind_locked();
+        left.rebind_locked(removed);
+        right.rebind_locked(removed);
     }
 
 private:
+    struct slot;
+
+    // Slots unlinked under the lock. Destroying a slot runs user code (what the
+    // callable has captured) which may use the signal again, so declare it
+    // before taking the lock to release the slots after unlocking.
+    struct removed_slots
+    {
+        removed_slots() noexcept = default;
+        removed_slots(const removed_slots&) = delete;
+        removed_slots& operator=(const removed_slots&) = delete;
+        ~removed_slots()
+        {
+            while (head)
+                std::exchange(head, head->next)->release();
+        }
+
+        void push(slot& removed) noexcept
+        {
+            removed.next = nullptr;
+            *tail = &removed;
+            tail = &removed.next;
+        }
+
+        slot* head{nullptr};
+        slot** tail{&head};
+    };
+
     static void terminate_if_emitting_locked(bool emission_in_progress) noexcept
     {
         if (!emission_in_progress)
@@ -730,6 +761,7 @@ private:
 
     void disconnect(std::uintptr_t id) noexcept override
     {
+        removed_slots removed;
         std::lock_guard<std::mutex> lock{mutex_};
         const bool can_remove = !emission_in_progress();
         for (slot *iter = slots_, *prev = nullptr; iter;
@@ -741,7 +773,7 @@ private:
             iter->invalidate();
             if (can_remove)
             {
-                remove_slot_locked(*iter, prev);
+                remove_slot_locked(*iter, prev, removed);
             }
             else
             {
@@ -752,9 +784,9 @@ private:
         }
     }
 
-    void rebind_locked() noexcept
+    void rebind_locked(removed_slots& removed) noexcept
     {
-        cleanup_invalidated_slots_locked();
+        cleanup_invalidated_slots_locked(removed);
 
         // Rebind back-pointer to new signal
         for (auto iter = slots_; iter; iter = iter->next)
@@ -763,7 +795,7 @@ private:
         }
     }
 
-    void cleanup_invalidated_slots_locked() noexcept
+    void cleanup_invalidated_slots_locked(removed_slots& removed) noexcept
     {
         if (!deferred_cleanup_)
             return;
@@ -784,7 +816,7 @@ private:
             }
             else
             {
-                iter = remove_slot_locked(*iter, prev);
+                iter = remove_slot_locked(*iter, prev, removed);
             }
         }
         deferred_cleanup_ = false;
@@ -849,7 +881,8 @@ private:
         }
     }
 
-    slot* remove_slot_locked(slot& to_remove, slot* prev) noexcept
+    slot* remove_slot_locked(slot& to_remove, slot* prev,
+                             removed_slots& removed) noexcept
     {
         assert(!emission_in_progress());
         slot* next = to_remove.next;
@@ -859,7 +892,7 @@ private:
             slots_ = next;
         if (tail_ == &to_remove)
             tail_ = prev ? prev : slots_;
-        to_remove.release();
+        removed.push(to_remove);
         return next;
     }
 };
-- 
2.43.0


From d4e79bd25c3955fd1d1f6fe247ca1810115f3df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:00 +0000
Subject: [PATCH 05/15] fix: signal restores the current slot before releasing
 slots

The captured state of a slot destroyed at the end of an emission could ask
for the current connection and get the slot that was being destroyed.
---
 include/kl/signal.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/kl/signal.hpp b/include/kl/signal.hpp
index 964894a..ef9b20b 100644
--- a/include/kl/signal.hpp
+++ b/include/kl/signal.hpp
@@ -588,10 +588,7 @@ public:
     void operator()(Args... args)
     {
         auto& emission_state = detail::get_tls_signal_info();
-        // Rollback tls_signal_info back to its pre-emission value
         auto prev_emission_state = emission_state;
-        KL_DEFER(emission_state = prev_emission_state);
-
         emission_state.emission_stopped = false;
 
         // We can't traverse the list without synchronization while other
@@ -627,6 +624,9 @@ public:
             if (current)
                 current->release();
         });
+        // Rollback tls_signal_info back to its pre-emission value. Done before
+        // any slot is released so that it never refers to a destroyed slot.
+        KL_DEFER(emission_state = prev_emission_state);
 
         while (current)
         {
-- 
2.43.0


From aaace867b6f006e8cca5062f6b39014c84f6dd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:51 +0000
Subject: [PATCH 06/15] fix: binary_reader does not allocate for a size prefix
 exceeding the input

---
 include/kl/binary_rw/string.hpp |  7 +++++++
 include/kl/binary_rw/vector.hpp | 11 ++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/kl/binary_rw/string.hpp b/include/kl/binary_rw/string.hpp
index 270174b..839287b 100644
--- a/include/kl/binary_rw/string.hpp
+++ b/include/kl/binary_rw/string.hpp
@@ -24,6 +24,13 @@ void read_binary(kl::binary_reader& r, std::string& str)
     if (!size)
         return;
 
+    // Don't trust the size before allocating the memory for it
+    if (size > r.left())
+    {
+        r.notify_error();
+        return;
+    }
+
     str.resize(size);
     r >> gsl::make_span(str);
 
diff --git a/include/kl/binary_rw/vector.hpp b/include/kl/binary_rw/vector.hpp
index 0a039c5..006625d 100644
--- a/include/kl/binary_rw/vector.hpp
+++ b/include/kl/binary_rw/vector.hpp
@@ -3,6 +3,7 @@
 #include "kl/binary_rw.hpp"
 #include "kl/type_traits.hpp"
 
+#include <algorithm>
 #include <vector>
 
 namespace kl {
@@ -39,6 +40,13 @@ void decode_vector(kl::binary_reader& r, std::vector<T>& vec,
 
     if (size)
     {
+        // Don't trust the size before allocating the memory for it
+        if (size > r.left() / sizeof(T))
+        {
+            r.notify_error();
+            return;
+        }
+
         vec.resize(size);
         r >> gsl::span<T>{vec};
 
@@ -57,7 +65,8 @@ void decode_vector(kl::binary_reader& r, std::vector<T>& vec,
     const auto size = r.read<std::uint32_t>();
 
     vec.clear();
-    vec.reserve(size);
+    // Don't trust the size: an element takes at least one byte
+    vec.reserve((std::min)(static_cast<std::size_t>(size), r.left()));
 
     for (std::uint32_t i = 0; i < size; ++i)
     {
-- 
2.43.0


From ebcf423969c9f54eb000b895d749400e1a496fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:31 +0000
Subject: [PATCH 07/15] fix: cursor skip does not negate the smallest offset

---
 include/kl/binary_rw.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kl/binary_rw.hpp b/include/kl/binary_rw.hpp
index 3eb0702..c0ddaeb 100644
--- a/include/kl/binary_rw.hpp
+++ b/include/kl/binary_rw.hpp
@@ -35,7 +35,7 @@ public:
         // Make sure pos_ does not escape of buffer range
         if (off > 0 && static_cast<std::size_t>(off) > left())
             err_ = true;
-        if (off < 0 && static_cast<std::size_t>(-off) > pos_)
+        if (off < 0 && 0 - static_cast<std::size_t>(off) > pos_)
             err_ = true;
 
         if (!err_)
-- 
2.43.0


From 360be42b4e7f7150ab9ec5e8938a354c4e1c4600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:29 +0000
Subject: [PATCH 08/15] fix: enum range query compares integers of different
 signedness by value

---
 include/kl/enum_traits.hpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/kl/enum_traits.hpp b/include/kl/enum_traits.hpp
index 895c3db..24bef07 100644
--- a/include/kl/enum_traits.hpp
+++ b/include/kl/enum_traits.hpp
@@ -92,7 +92,28 @@ struct enum_trait_support_range
     template <typename Integral, enable_if<std::is_integral<Integral>> = true>
     static constexpr bool in_range(Integral v) noexcept
     {
-        return v >= min_value() && v < max_value();
+        // Comparing values of different signedness would convert the negative
+        // ones to (large) unsigned values
+        if constexpr (std::is_signed_v<Integral> ==
+                      std::is_signed_v<underlying_type>)
+        {
+            return v >= min_value() && v < max_value();
+        }
+        else if constexpr (std::is_signed_v<Integral>)
+        {
+            return v >= 0 &&
+                   static_cast<std::make_unsigned_t<Integral>>(v) >=
+                       min_value() &&
+                   static_cast<std::make_unsigned_t<Integral>>(v) < max_value();
+        }
+        else
+        {
+            using unsigned_type = std::make_unsigned_t<underlying_type>;
+            return max_value() > 0 &&
+                   v < static_cast<unsigned_type>(max_value()) &&
+                   (min_value() < 0 ||
+                    v >= static_cast<unsigned_type>(min_value()));
+        }
     }
 };
 
-- 
2.43.0


From 7ba174fb1bdbe37187847e519ac47fe639ab9be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:03 +0000
Subject: [PATCH 09/15] fix: hashes treat bytes above 0x7f as unsigned

---
 include/kl/hash.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/kl/hash.hpp b/include/kl/hash.hpp
index ac174c5..4fada48 100644
--- a/include/kl/hash.hpp
+++ b/include/kl/hash.hpp
@@ -11,7 +11,7 @@ constexpr std::uint32_t fnv1a(const char* data, std::size_t length) noexcept
 {
     uint32_t hash = 2166136261U;
     for (std::size_t i = 0; i < length; ++i)
-        hash = (hash ^ static_cast<uint32_t>(data[i])) * 16777619U;
+        hash = (hash ^ static_cast<unsigned char>(data[i])) * 16777619U;
     return hash;
 }
 
@@ -39,7 +39,8 @@ namespace detail {
 
 constexpr std::uint16_t get16bits(const char* d) noexcept
 {
-    return static_cast<std::uint16_t>(d[0] | (d[1] << 8));
+    return static_cast<std::uint16_t>(static_cast<unsigned char>(d[0]) |
+                                      (static_cast<unsigned char>(d[1]) << 8));
 }
 } // namespace detail
 
@@ -70,7 +71,9 @@ constexpr std::uint32_t hsieh(const char* data, std::size_t length) noexcept
     case 3:
         hash += detail::get16bits(data);
         hash ^= hash << 16;
-        hash ^= static_cast<signed char>(data[sizeof(uint16_t)]) << 18;
+        hash ^= static_cast<uint32_t>(
+                    static_cast<signed char>(data[sizeof(uint16_t)]))
+                << 18;
         hash += hash >> 11;
         break;
     case 2:
-- 
2.43.0


From f0e5ca999d69a56fbc8c805273f300e73fc3986c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:07 +0000
Subject: [PATCH 10/15] fix: enum_iterator difference has the sign and width of
 an iterator difference

---
 include/kl/enum_range.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/kl/enum_range.hpp b/include/kl/enum_range.hpp
index 2fa4738..d1388df 100644
--- a/include/kl/enum_range.hpp
+++ b/include/kl/enum_range.hpp
@@ -35,7 +35,10 @@ public:
 
     std::ptrdiff_t distance_to(const enum_iterator& other) const
     {
-        return other.index_ - index_;
+        // Subtract as unsigned: neither promotion nor overflow can distort it
+        return static_cast<std::ptrdiff_t>(
+            static_cast<std::size_t>(index_) -
+            static_cast<std::size_t>(other.index_));
     }
 
     bool equal_to(const enum_iterator& other) const
-- 
2.43.0


From e37e657fe63bf09b2da9e4851cc660600f8ebdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:21 +0000
Subject: [PATCH 11/15] fix: exception_info::unset does not modify copies
 sharing the nodes

---
 include/kl/exception_info.hpp | 48 ++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/include/kl/exception_info.hpp b/include/kl/exception_info.hpp
index 41813cf..00014c4 100644
--- a/include/kl/exception_info.hpp
+++ b/include/kl/exception_info.hpp
@@ -26,6 +26,7 @@ public:
     virtual const void* find(const std::type_info& tag) const noexcept = 0;
     virtual void* find(const std::type_info& tag) noexcept = 0;
     virtual void diagnostic_info(std::ostream& os) = 0;
+    virtual std::shared_ptr<exception_info_node_base> clone() const = 0;
 
     std::shared_ptr<exception_info_node_base> next_{};
 };
@@ -78,31 +79,37 @@ class exception_info_node : public exception_info_node_base
 {
 public:
     explicit exception_info_node(const typename Tag::type& value)
-        : value_{value}
+        : value_{std::make_shared<typename Tag::type>(value)}
     {
     }
     explicit exception_info_node(typename Tag::type&& value)
-        : value_{std::move(value)}
+        : value_{std::make_shared<typename Tag::type>(std::move(value))}
     {
     }
 
     const void* find(const std::type_info& tag) const noexcept override
     {
-        return tag == typeid(Tag) ? &value_ : nullptr;
+        return tag == typeid(Tag) ? value_.get() : nullptr;
     }
 
     void* find(const std::type_info& tag) noexcept override
     {
-        return tag == typeid(Tag) ? &value_ : nullptr;
+        return tag == typeid(Tag) ? value_.get() : nullptr;
     }
 
     void diagnostic_info(std::ostream& os) override
     {
-        diagnostic_info_impl(os, typeid(Tag), value_, 0);
+        diagnostic_info_impl(os, typeid(Tag), *value_, 0);
+    }
+
+    std::shared_ptr<exception_info_node_base> clone() const override
+    {
+        return std::make_shared<exception_info_node>(*this);
     }
 
 private:
-    typename Tag::type value_;
+    // Shared between the clones as the value does not have to be copyable
+    std::shared_ptr<typename Tag::type> value_;
 };
 } // namespace detail
 
@@ -151,30 +158,25 @@ public:
     }
 
     template <typename Tag>
-    exception_info& unset() noexcept
+    exception_info& unset()
     {
-        if (!head_)
+        if (!get<Tag>())
             return *this;
 
-        std::shared_ptr<detail::exception_info_node_base>* node = &head_;
-        std::shared_ptr<detail::exception_info_node_base>* prev = nullptr;
-        const auto& tag = typeid(Tag);
+        // Nodes in front of the removed one may be shared with the copies of
+        // this exception_info so they can't be modified
+        std::shared_ptr<detail::exception_info_node_base> new_head;
+        auto* link = &new_head;
+        const auto* node = &head_;
 
-        while (*node)
+        for (; !(*node)->find(typeid(Tag)); node = &(*node)->next_)
         {
-            if ((*node)->find(tag))
-            {
-                if (prev)
-                    (*prev)->next_ = (*node)->next_;
-                else
-                    head_ = (*node)->next_;
-                break;
-            }
-
-            prev = node;
-            node = &(*node)->next_;
+            *link = (*node)->clone();
+            link = &(*link)->next_;
         }
 
+        *link = (*node)->next_;
+        head_ = std::move(new_head);
         return *this;
     }
 
-- 
2.43.0


From c5c63a07f052e01a5cbb67bf906616112e043267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:07 +0000
Subject: [PATCH 12/15] fix: file_view reports a failed mmap

---
 src/file_view_unix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_view_unix.cpp b/src/file_view_unix.cpp
index a9e84d0..fa5a5f6 100644
--- a/src/file_view_unix.cpp
+++ b/src/file_view_unix.cpp
@@ -77,7 +77,7 @@ file_view::file_view(const char* file_path)
 
     void* mapped = ::mmap(nullptr, static_cast<std::size_t>(file_info.st_size),
                           PROT_READ, MAP_PRIVATE, fd, 0);
-    if (!mapped)
+    if (mapped == MAP_FAILED)
         throw_system_error();
 
     contents_ = gsl::span{static_cast<const std::byte*>(mapped),
-- 
2.43.0


From ed23d0a262e97bae3a92bad272280e543f973dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:24 +0000
Subject: [PATCH 13/15] fix: file_view owns its mapping and is not copyable

---
 include/kl/file_view.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/kl/file_view.hpp b/include/kl/file_view.hpp
index 0ac80a8..cc4b795 100644
--- a/include/kl/file_view.hpp
+++ b/include/kl/file_view.hpp
@@ -12,6 +12,9 @@ public:
     explicit file_view(const char* file_path);
     ~file_view();
 
+    file_view(const file_view&) = delete;
+    file_view& operator=(const file_view&) = delete;
+
     gsl::span<const std::byte> get_bytes() const noexcept { return contents_; }
 
 private:
-- 
2.43.0


From bc7c8ca6859137f923de872f172decf0500dcf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:11 +0000
Subject: [PATCH 14/15] fix: extra_fields inside a flattened field do not
 collect the parent's fields

---
 include/kl/detail/serialization.hpp | 41 ++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/include/kl/detail/serialization.hpp b/include/kl/detail/serialization.hpp
index 0a0da12..cd9b911 100644
--- a/include/kl/detail/serialization.hpp
+++ b/include/kl/detail/serialization.hpp
@@ -487,6 +487,22 @@ const string_set* reserved_field_names()
     }
 }
 
+// A flattened field shares the object with its parent. If there's an extra_fields map somewhere
+// below it must not collect the fields of the parent.
+template <typename Field>
+constexpr bool needs_outer_reserved_names()
+{
+    if constexpr (Field::template has<attributes::flatten_t>())
+    {
+        return ctti::has_any_attribute<typename Field::value_type, attributes::extra_fields_t,
+                                       attributes::flatten_t>();
+    }
+    else
+    {
+        return false;
+    }
+}
+
 template <typename Reflectable>
 constexpr std::size_t sequence_deserializable_field_count()
 {
@@ -900,7 +916,7 @@ void deserialize_adl(FixedSizeRange& out, const typename Backend::value_type& va
 template <typename Backend, typename Reflectable, typename Context,
           enable_if<ctti::is_reflectable<Reflectable>> = true>
 void deserialize_adl(Reflectable& out, const typename Backend::value_type& value,
-                     Context& ctx)
+                     Context& ctx, const string_set* outer_reserved_names = nullptr)
 try
 {
     static_assert(deserialize_field_names_validator<Reflectable>::validate(),
@@ -908,7 +924,8 @@ try
 
     if (Backend::is_map(value))
     {
-        const auto* reserved_names = reserved_field_names<Reflectable>();
+        const auto* reserved_names =
+            outer_reserved_names ? outer_reserved_names : reserved_field_names<Reflectable>();
 
         ctti::reflect_object(out, [&value, &reserved_names, &ctx](auto field) {
             check_field_attributes<decltype(field)>();
@@ -950,7 +967,13 @@ try
 
                 try
                 {
-                    if constexpr (Field::template has<attributes::flatten_t>())
+                    if constexpr (needs_outer_reserved_names<Field>())
+                    {
+                        detail::deserialize_adl<Backend>(field.value(), value, ctx,
+                                                         reserved_names);
+                        return;
+                    }
+                    else if constexpr (Field::template has<attributes::flatten_t>())
                     {
                         Backend::deserialize(field.value(), value, ctx);
                         return;
@@ -1122,7 +1145,7 @@ void deserialize_adl(std::optional<T>& out, const typename Backend::value_type&
 template <typename Backend, typename Reflectable, typename Context,
           enable_if<ctti::is_reflectable<Reflectable>> = true>
 void patch_adl(Reflectable& out, const typename Backend::value_type& value,
-               Context& ctx)
+               Context& ctx, const string_set* outer_reserved_names = nullptr)
 try
 {
     static_assert(deserialize_field_names_validator<Reflectable>::validate(),
@@ -1135,7 +1158,8 @@ try
         return;
     }
 
-    const auto* reserved_names = reserved_field_names<Reflectable>();
+    const auto* reserved_names =
+        outer_reserved_names ? outer_reserved_names : reserved_field_names<Reflectable>();
 
     ctti::reflect_object(out, [&value, &reserved_names, &ctx](auto field) {
         check_field_attributes<decltype(field)>();
@@ -1186,7 +1210,12 @@ try
 
             try
             {
-                if constexpr (Field::template has<attributes::flatten_t>())
+                if constexpr (needs_outer_reserved_names<Field>())
+                {
+                    detail::patch_adl<Backend>(field.value(), value, ctx, reserved_names);
+                    return;
+                }
+                else if constexpr (Field::template has<attributes::flatten_t>())
                 {
                     Backend::patch(field.value(), value, ctx);
                     return;
-- 
2.43.0


From f7b1aca7af654586be72450bb6d14e97a2067919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:39 +0000
Subject: [PATCH 15/15] fix: dump enum_set elements with the enum's own
 conversion

serialize() and deserialize() of an enum_set go through the element's
customization (serializer<Enum>), dump() always wrote the reflected name.
---
 include/kl/detail/serialization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kl/detail/serialization.hpp b/include/kl/detail/serialization.hpp
index cd9b911..bf9584b 100644
--- a/include/kl/detail/serialization.hpp
+++ b/include/kl/detail/serialization.hpp
@@ -691,7 +691,7 @@ void dump_adl(const enum_set<Enum>& set, Context& ctx)
     for (const auto possible_value : reflect_enum<Enum>().values())
     {
         if (set.test(possible_value))
-            Backend::dump(kl::to_string(possible_value), ctx);
+            Backend::dump(possible_value, ctx);
     }
     Backend::end_sequence(ctx);
 }
-- 
2.43.0

