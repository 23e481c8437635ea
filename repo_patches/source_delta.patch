From 4f07d9a3b091cb6b73fb361bb3237b4abf388893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:26 +0000
Subject: [PATCH 01/42] fix: inserting or erasing an empty range destroyed the
 elements after it

FixedVector/FixedDeque relocated every element after the position onto itself
(move-construct from itself, then destroy) when the range is empty.
---
 include/fixed_containers/fixed_deque.hpp  | 10 ++++++++++
 include/fixed_containers/fixed_vector.hpp | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/include/fixed_containers/fixed_deque.hpp b/include/fixed_containers/fixed_deque.hpp
index cc1d09f..4ce600d 100644
--- a/include/fixed_containers/fixed_deque.hpp
+++ b/include/fixed_containers/fixed_deque.hpp
@@ -411,6 +411,11 @@ public:
         const auto entry_count_to_move = std::distance(last, cend());
         const auto entry_count_to_remove = std::distance(first, last);
 
+        if (entry_count_to_remove == 0)
+        {
+            return const_to_mutable_it(last);
+        }
+
         const iterator read_start_it = const_to_mutable_it(last);
         const iterator read_end_it = std::next(read_start_it, entry_count_to_move);
         iterator write_start_it = const_to_mutable_it(first);
@@ -583,6 +588,11 @@ private:
     constexpr iterator advance_all_after_iterator_by_n(const const_iterator pos,
                                                        const std::size_t n)
     {
+        if (n == 0)
+        {
+            return const_to_mutable_it(pos);
+        }
+
         const std::ptrdiff_t value_count_to_move = std::distance(pos, cend());
         increment_size(n);  // Increment now so iterators are all within valid range
 
diff --git a/include/fixed_containers/fixed_vector.hpp b/include/fixed_containers/fixed_vector.hpp
index ef4ba81..32b0635 100644
--- a/include/fixed_containers/fixed_vector.hpp
+++ b/include/fixed_containers/fixed_vector.hpp
@@ -394,6 +394,11 @@ public:
         const auto entry_count_to_move = std::distance(last, cend());
         const auto entry_count_to_remove = std::distance(first, last);
 
+        if (entry_count_to_remove == 0)
+        {
+            return const_to_mutable_it(last);
+        }
+
         const iterator read_start_it = const_to_mutable_it(last);
         const iterator read_end_it = std::next(read_start_it, entry_count_to_move);
         iterator write_start_it = const_to_mutable_it(first);
@@ -593,6 +598,11 @@ private:
     constexpr iterator advance_all_after_iterator_by_n(const const_iterator pos,
                                                        const std::size_t n)
     {
+        if (n == 0)
+        {
+            return const_to_mutable_it(pos);
+        }
+
         const std::ptrdiff_t value_count_to_move = std::distance(pos, cend());
         increment_size(n);  // Increment now so iterators are all within valid range
 
-- 
2.43.0


From 5f353375b2b5ae9b08ad7e8193a5abaf37b95a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:26 +0000
Subject: [PATCH 02/42] fix: inserting a reference to an own element inserted
 the wrong value

FixedVector/FixedDeque insert(pos, const T&) and emplace() shifted the elements
before reading the argument.
---
 include/fixed_containers/fixed_deque.hpp  | 8 ++++++--
 include/fixed_containers/fixed_vector.hpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/fixed_containers/fixed_deque.hpp b/include/fixed_containers/fixed_deque.hpp
index 4ce600d..8a64d19 100644
--- a/include/fixed_containers/fixed_deque.hpp
+++ b/include/fixed_containers/fixed_deque.hpp
@@ -324,8 +324,10 @@ public:
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
         check_not_full(loc);
+        // `value` might refer to an element that is about to be relocated
+        value_type new_value(value);
         auto entry_it = advance_all_after_iterator_by_n(pos, 1);
-        memory::construct_at_address_of(*entry_it, value);
+        memory::construct_at_address_of(*entry_it, std::move(new_value));
         return entry_it;
     }
     constexpr iterator insert(
@@ -361,8 +363,10 @@ public:
     constexpr iterator emplace(const_iterator pos, Args&&... args)
     {
         check_not_full(std_transition::source_location::current());
+        // `args` might refer to an element that is about to be relocated
+        auto new_value = value_type(std::forward<Args>(args)...);
         auto entry_it = advance_all_after_iterator_by_n(pos, 1);
-        memory::construct_at_address_of(*entry_it, std::forward<Args>(args)...);
+        memory::construct_at_address_of(*entry_it, std::move(new_value));
         return entry_it;
     }
 
diff --git a/include/fixed_containers/fixed_vector.hpp b/include/fixed_containers/fixed_vector.hpp
index 32b0635..0cbe6af 100644
--- a/include/fixed_containers/fixed_vector.hpp
+++ b/include/fixed_containers/fixed_vector.hpp
@@ -294,8 +294,10 @@ public:
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
         check_not_full(loc);
+        // `value` might refer to an element that is about to be relocated
+        value_type new_value(value);
         auto entry_it = advance_all_after_iterator_by_n(pos, 1);
-        memory::construct_at_address_of(*entry_it, value);
+        memory::construct_at_address_of(*entry_it, std::move(new_value));
         return entry_it;
     }
     constexpr iterator insert(
@@ -335,8 +337,10 @@ public:
     constexpr iterator emplace(const_iterator pos, Args&&... args)
     {
         check_not_full(std_transition::source_location::current());
+        // `args` might refer to an element that is about to be relocated
+        auto new_value = value_type(std::forward<Args>(args)...);
         auto entry_it = advance_all_after_iterator_by_n(pos, 1);
-        memory::construct_at_address_of(*entry_it, std::forward<Args>(args)...);
+        memory::construct_at_address_of(*entry_it, std::move(new_value));
         return entry_it;
     }
 
-- 
2.43.0


From ae25e682fd1f227fe067801f7f86f75da7ce7b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:26 +0000
Subject: [PATCH 03/42] fix: FixedList insert of an empty range returned end()
 instead of pos

---
 include/fixed_containers/fixed_list.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_list.hpp b/include/fixed_containers/fixed_list.hpp
index 7f93649..a93ec27 100644
--- a/include/fixed_containers/fixed_list.hpp
+++ b/include/fixed_containers/fixed_list.hpp
@@ -504,7 +504,7 @@ private:
             }
         }
 
-        return create_iterator(inserted_point);
+        return create_iterator(inserted_point == NULL_INDEX ? insertion_point : inserted_point);
     }
 
     template <InputIterator InputIt>
@@ -537,7 +537,7 @@ private:
             Checking::length_error(MAXIMUM_SIZE + excess_element_count, loc);
         }
 
-        return create_iterator(inserted_point);
+        return create_iterator(inserted_point == NULL_INDEX ? insertion_point : inserted_point);
     }
 
     constexpr iterator create_iterator(const std::size_t offset_from_start) noexcept
-- 
2.43.0


From d50e9ed170a2ef339c8509fc049c261ad94c3351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:26 +0000
Subject: [PATCH 04/42] fix: FixedList::remove with a reference to an own
 element

The referenced element was destroyed while it was still being compared against.
---
 include/fixed_containers/fixed_list.hpp | 28 +++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_list.hpp b/include/fixed_containers/fixed_list.hpp
index a93ec27..6c4a6c7 100644
--- a/include/fixed_containers/fixed_list.hpp
+++ b/include/fixed_containers/fixed_list.hpp
@@ -371,7 +371,24 @@ public:
     }
     constexpr size_type remove(const T& value)
     {
-        return remove_if([&value](const T& entry) { return entry == value; });
+        // `value` might refer to an element of this list, in which case that one is deleted last.
+        std::size_t aliased_index = end_index();
+        size_type removed_counter = remove_if(
+            [&value](const T& entry)
+            { return std::addressof(entry) != std::addressof(value) && entry == value; });
+        for (std::size_t i = front_index(); i != end_index(); i = list().next_of(i))
+        {
+            if (std::addressof(list().at(i)) == std::addressof(value) && list().at(i) == value)
+            {
+                aliased_index = i;
+            }
+        }
+        if (aliased_index != end_index())
+        {
+            destroy_at(aliased_index);
+            ++removed_counter;
+        }
+        return removed_counter;
     }
 
     constexpr iterator erase(const_iterator first,
@@ -635,7 +652,14 @@ template <typename T, std::size_t MAXIMUM_SIZE, typename CheckingType, typename
 constexpr typename FixedList<T, MAXIMUM_SIZE, CheckingType>::size_type erase(
     FixedList<T, MAXIMUM_SIZE, CheckingType>& container, const U& value)
 {
-    return container.remove_if([&value](const T& entry) { return entry == value; });
+    if constexpr (std::same_as<T, U>)
+    {
+        return container.remove(value);
+    }
+    else
+    {
+        return container.remove_if([&value](const T& entry) { return entry == value; });
+    }
 }
 
 template <typename T, std::size_t MAXIMUM_SIZE, typename CheckingType, typename Predicate>
-- 
2.43.0


From 87c06c3f06eef74c373b12ee0ea5f047aa4ee236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:26 +0000
Subject: [PATCH 05/42] fix: FixedCircularDeque insert/emplace at begin() of a
 full container aborted

Treat the position as an uncrossable barrier and drop the incoming element, as the
range overloads do. Also take the value before discarding the front element.
---
 include/fixed_containers/fixed_circular_deque.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/fixed_containers/fixed_circular_deque.hpp b/include/fixed_containers/fixed_circular_deque.hpp
index 1aaa04d..50e210a 100644
--- a/include/fixed_containers/fixed_circular_deque.hpp
+++ b/include/fixed_containers/fixed_circular_deque.hpp
@@ -154,14 +154,19 @@ public:
         const value_type& value,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        pop_front_if_full(loc);
-        return deque().insert(pos, value, loc);
+        // `value` might refer to the element that is about to be discarded
+        return insert(pos, value_type(value), loc);
     }
     constexpr iterator insert(
         const_iterator pos,
         value_type&& value,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
+        // `pos` is treated as an uncrossable barrier, same as the range overloads
+        if (is_full(deque()) && pos == cbegin())
+        {
+            return begin();
+        }
         pop_front_if_full(loc);
         return deque().insert(pos, std::move(value), loc);
     }
@@ -187,8 +192,7 @@ public:
     template <class... Args>
     constexpr iterator emplace(const_iterator pos, Args&&... args)
     {
-        pop_front_if_full(std_transition::source_location::current());
-        return deque().emplace(pos, std::forward<Args>(args)...);
+        return insert(pos, value_type(std::forward<Args>(args)...));
     }
 
     constexpr void assign(
-- 
2.43.0


From e84f3406e6f8f10ac6d085df5757df51d00597a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:26 +0000
Subject: [PATCH 06/42] fix: FixedCircularDeque
 push_back(front())/push_front(back()) on a full container

The referenced element was destroyed before being copied.
---
 include/fixed_containers/fixed_circular_deque.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fixed_containers/fixed_circular_deque.hpp b/include/fixed_containers/fixed_circular_deque.hpp
index 50e210a..b7154b8 100644
--- a/include/fixed_containers/fixed_circular_deque.hpp
+++ b/include/fixed_containers/fixed_circular_deque.hpp
@@ -97,8 +97,8 @@ public:
         const value_type& value,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        pop_front_if_full(loc);
-        deque().push_back(value, loc);
+        // `value` might refer to the element that is about to be discarded
+        push_back(value_type(value), loc);
     }
     constexpr void push_back(
         value_type&& value,
@@ -125,8 +125,8 @@ public:
         const value_type& value,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        pop_back_if_full(loc);
-        deque().push_front(value, loc);
+        // `value` might refer to the element that is about to be discarded
+        push_front(value_type(value), loc);
     }
     constexpr void push_front(
         value_type&& value,
-- 
2.43.0


From 41fb1f2785b511344bf2d527d9b562ca208c85e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:26 +0000
Subject: [PATCH 07/42] fix: contiguous index storage used a destroyed element
 when deleting the last one

---
 include/fixed_containers/fixed_index_based_storage.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_index_based_storage.hpp b/include/fixed_containers/fixed_index_based_storage.hpp
index fb2bdfb..0d6372d 100644
--- a/include/fixed_containers/fixed_index_based_storage.hpp
+++ b/include/fixed_containers/fixed_index_based_storage.hpp
@@ -179,8 +179,11 @@ public:
 
     constexpr std::size_t delete_at_and_return_repositioned_index(const std::size_t index) noexcept
     {
-        memory::destroy_at_address_of(nodes().at(index));
-        memory::construct_at_address_of(nodes().at(index), std::move(nodes().back()));
+        if (index + 1 != nodes().size())
+        {
+            memory::destroy_at_address_of(nodes().at(index));
+            memory::construct_at_address_of(nodes().at(index), std::move(nodes().back()));
+        }
         nodes().pop_back();
         return nodes().size();
     }
-- 
2.43.0


From 26f800488a197e91bfbae6325cc4f4d8137dd16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:26 +0000
Subject: [PATCH 08/42] fix: FixedString::substr rejected pos == length()

std::string allows it and yields an empty string.
---
 include/fixed_containers/fixed_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_string.hpp b/include/fixed_containers/fixed_string.hpp
index 680b717..7cfb1fe 100644
--- a/include/fixed_containers/fixed_string.hpp
+++ b/include/fixed_containers/fixed_string.hpp
@@ -603,7 +603,7 @@ public:
         const std_transition::source_location& loc =
             std_transition::source_location::current()) const
     {
-        if (preconditions::test(pos < length()))
+        if (preconditions::test(pos <= length()))
         {
             Checking::out_of_range(pos, length(), loc);
         }
-- 
2.43.0


From 5213ae86853283c3e7e4c483f51280218b988508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:26 +0000
Subject: [PATCH 09/42] fix: stack/queue emplace() did not return the new
 element

---
 include/fixed_containers/queue_adapter.hpp | 2 +-
 include/fixed_containers/stack_adapter.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/queue_adapter.hpp b/include/fixed_containers/queue_adapter.hpp
index 64dc02f..e873af2 100644
--- a/include/fixed_containers/queue_adapter.hpp
+++ b/include/fixed_containers/queue_adapter.hpp
@@ -91,7 +91,7 @@ public:
     template <class... Args>
     constexpr decltype(auto) emplace(Args&&... args)
     {
-        IMPLEMENTATION_DETAIL_DO_NOT_USE_data_.emplace_back(std::forward<Args>(args)...);
+        return IMPLEMENTATION_DETAIL_DO_NOT_USE_data_.emplace_back(std::forward<Args>(args)...);
     }
 
     constexpr void pop(
diff --git a/include/fixed_containers/stack_adapter.hpp b/include/fixed_containers/stack_adapter.hpp
index c02b0b1..1332e76 100644
--- a/include/fixed_containers/stack_adapter.hpp
+++ b/include/fixed_containers/stack_adapter.hpp
@@ -76,7 +76,7 @@ public:
     template <class... Args>
     constexpr decltype(auto) emplace(Args&&... args)
     {
-        IMPLEMENTATION_DETAIL_DO_NOT_USE_data_.emplace_back(std::forward<Args>(args)...);
+        return IMPLEMENTATION_DETAIL_DO_NOT_USE_data_.emplace_back(std::forward<Args>(args)...);
     }
 
     constexpr void pop(
-- 
2.43.0


From 1b44f634a9d644638f9c084446fd93eadd304f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:24 +0000
Subject: [PATCH 10/42] fix: FixedCircularDeque
 emplace_back(front())/emplace_front(back()) on a full container

The referenced element was destroyed before being copied.
---
 .../fixed_containers/fixed_circular_deque.hpp | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/fixed_containers/fixed_circular_deque.hpp b/include/fixed_containers/fixed_circular_deque.hpp
index b7154b8..2bdd89f 100644
--- a/include/fixed_containers/fixed_circular_deque.hpp
+++ b/include/fixed_containers/fixed_circular_deque.hpp
@@ -10,6 +10,7 @@
 #include <cstddef>
 #include <initializer_list>
 #include <iterator>
+#include <type_traits>
 #include <utility>
 
 namespace fixed_containers
@@ -111,6 +112,16 @@ public:
     template <class... Args>
     constexpr reference emplace_back(Args&&... args)
     {
+        if constexpr (std::is_move_constructible_v<value_type>)
+        {
+            if (is_full(deque()))
+            {
+                // `args` might refer to the element that is about to be discarded
+                auto new_value = value_type(std::forward<Args>(args)...);
+                pop_front_if_full(std_transition::source_location::current());
+                return deque().emplace_back(std::move(new_value));
+            }
+        }
         pop_front_if_full(std_transition::source_location::current());
         return deque().emplace_back(std::forward<Args>(args)...);
     }
@@ -139,6 +150,16 @@ public:
     template <class... Args>
     constexpr reference emplace_front(Args&&... args)
     {
+        if constexpr (std::is_move_constructible_v<value_type>)
+        {
+            if (is_full(deque()))
+            {
+                // `args` might refer to the element that is about to be discarded
+                auto new_value = value_type(std::forward<Args>(args)...);
+                pop_back_if_full(std_transition::source_location::current());
+                return deque().emplace_front(std::move(new_value));
+            }
+        }
         pop_back_if_full(std_transition::source_location::current());
         return deque().emplace_front(std::forward<Args>(args)...);
     }
-- 
2.43.0


From 7de703fddf563025075850487e3045b5e32ae995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:24 +0000
Subject: [PATCH 11/42] fix: FixedString operator>> differed from std::string

It set failbit when the word ended at end-of-file, consumed the delimiter, ignored
width() and aborted on a word of exactly the maximum length followed by whitespace.
---
 include/fixed_containers/fixed_string.hpp | 56 +++++++++++++----------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/include/fixed_containers/fixed_string.hpp b/include/fixed_containers/fixed_string.hpp
index 7cfb1fe..6b89397 100644
--- a/include/fixed_containers/fixed_string.hpp
+++ b/include/fixed_containers/fixed_string.hpp
@@ -11,6 +11,7 @@
 #include <cstddef>
 #include <cstdlib>
 #include <istream>
+#include <locale>
 #include <string_view>
 
 namespace fixed_containers
@@ -659,41 +660,46 @@ template <std::size_t MAXIMUM_LENGTH, typename CheckingType>
 std::istream& operator>>(std::istream& stream, FixedString<MAXIMUM_LENGTH, CheckingType>& str)
 {
     static constexpr std::size_t MAXIMUM_LENGTH_WITH_NULL_TERMINATOR = MAXIMUM_LENGTH + 1;
-    str.clear();
-
-    // Skip leading whitespace (`std::istream >> std::string` behaves the same way)
-    stream >> std::ws;
+    using Traits = std::istream::traits_type;
 
-    char character{};
-    stream.get(character);
-
-    // If EOF/error, put the character back and return
-    if (stream.eof() || stream.fail())
+    // Skips leading whitespace (`std::istream >> std::string` behaves the same way)
+    const std::istream::sentry sentry{stream};
+    if (!sentry)
     {
-        return stream.putback(character);
+        return stream;
     }
 
-    for (; !std::isspace(character) && !is_full(str) && !stream.eof() && !stream.fail();
-         stream.get(character))
+    str.clear();
+    const auto width = static_cast<std::size_t>(stream.width());
+    std::ios::iostate state = std::ios::goodbit;
+    for (auto next = stream.rdbuf()->sgetc(); width == 0 || str.size() < width;
+         next = stream.rdbuf()->snextc())
     {
+        if (Traits::eq_int_type(next, Traits::eof()))
+        {
+            state |= std::ios::eofbit;
+            break;
+        }
+        const char character = Traits::to_char_type(next);
+        if (std::isspace(character, stream.getloc()))
+        {
+            // The delimiter stays in the stream
+            break;
+        }
+        if (preconditions::test(!is_full(str)))
+        {
+            CheckingType::length_error(MAXIMUM_LENGTH_WITH_NULL_TERMINATOR,
+                                       std_transition::source_location::current());
+        }
         str.push_back(character);
     }
 
-    if (stream.fail())
-    {
-        stream.setstate(std::ios::failbit);
-        return stream;
-    }
-
-    const bool string_is_full = is_full(str);
-    const bool stream_eof = stream.eof();
-    const bool has_exceeded_capacity = string_is_full && !stream_eof;
-    if (preconditions::test(!has_exceeded_capacity))
+    stream.width(0);
+    if (str.empty())
     {
-        CheckingType::length_error(MAXIMUM_LENGTH_WITH_NULL_TERMINATOR,
-                                   std_transition::source_location::current());
+        state |= std::ios::failbit;
     }
-
+    stream.setstate(state);
     return stream;
 }
 template <std::size_t MAXIMUM_LENGTH, typename CheckingType>
-- 
2.43.0


From d65461137a37ad2d50fcc020781874cf0c83cc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:16 +0000
Subject: [PATCH 12/42] fix: FixedCircularDeque insert of an input range at
 begin() of a full container

It wrote past the end instead of dropping the incoming elements.
---
 include/fixed_containers/fixed_circular_deque.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/fixed_containers/fixed_circular_deque.hpp b/include/fixed_containers/fixed_circular_deque.hpp
index 2bdd89f..d0d26e6 100644
--- a/include/fixed_containers/fixed_circular_deque.hpp
+++ b/include/fixed_containers/fixed_circular_deque.hpp
@@ -443,6 +443,12 @@ private:
             deq.push_back(*first, loc);
         }
 
+        // Nothing could be placed before reaching the barrier: all incoming elements are dropped
+        if (middle_it == end())
+        {
+            return first_it;
+        }
+
         // If there are still more elements when we reach the barrier, overwrite the just-inserted
         // elements. This is analogous to dropping incoming elements in the std::input_iterator
         // overload
-- 
2.43.0


From 50ac504f2fbd43ceea80bbd484ac9c3053f97fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:02 +0000
Subject: [PATCH 13/42] fix: FixedSet::crend() assumed that the smallest
 element lives in node 0

rend() returned an iterator to node index 0, so reverse iteration stopped
early, skipped elements or never terminated when node 0 was not the
smallest element or the set was empty.
---
 include/fixed_containers/fixed_set.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_set.hpp b/include/fixed_containers/fixed_set.hpp
index 552d985..74e884e 100644
--- a/include/fixed_containers/fixed_set.hpp
+++ b/include/fixed_containers/fixed_set.hpp
@@ -183,7 +183,7 @@ public:
     }
     [[nodiscard]] constexpr const_reverse_iterator crend() const noexcept
     {
-        return create_const_reverse_iterator(0);
+        return create_const_reverse_iterator(tree().index_of_min_at());
     }
     [[nodiscard]] constexpr const_reverse_iterator rbegin() const noexcept { return crbegin(); }
     [[nodiscard]] constexpr const_reverse_iterator rend() const noexcept { return crend(); }
@@ -435,7 +435,8 @@ private:
     [[nodiscard]] constexpr const_reverse_iterator create_const_reverse_iterator(
         const NodeIndex& start_index) const noexcept
     {
-        return const_reverse_iterator{ReferenceProvider{std::addressof(tree()), start_index}};
+        const NodeIndex index = replace_null_index_with_max_size_for_end_iterator(start_index);
+        return const_reverse_iterator{ReferenceProvider{std::addressof(tree()), index}};
     }
 
     constexpr void check_not_full(const std_transition::source_location& loc) const
-- 
2.43.0


From 09a8559d047dab3bf43052f37998eb32bb2617cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:02 +0000
Subject: [PATCH 14/42] fix: FixedMap rbegin() != rend() on an empty map

On an empty map rend() held the tree's null index and rbegin() the
end index, so a reverse traversal of an empty map never terminated.
---
 include/fixed_containers/fixed_map.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_map.hpp b/include/fixed_containers/fixed_map.hpp
index 60d952a..c1a5b7b 100644
--- a/include/fixed_containers/fixed_map.hpp
+++ b/include/fixed_containers/fixed_map.hpp
@@ -663,13 +663,15 @@ private:
 
     constexpr reverse_iterator create_reverse_iterator(const NodeIndex& start_index) noexcept
     {
-        return reverse_iterator{PairProvider<false>{std::addressof(tree()), start_index}};
+        const NodeIndex index = replace_null_index_with_max_size_for_end_iterator(start_index);
+        return reverse_iterator{PairProvider<false>{std::addressof(tree()), index}};
     }
 
     [[nodiscard]] constexpr const_reverse_iterator create_const_reverse_iterator(
         const NodeIndex& start_index) const noexcept
     {
-        return const_reverse_iterator{PairProvider<true>{std::addressof(tree()), start_index}};
+        const NodeIndex index = replace_null_index_with_max_size_for_end_iterator(start_index);
+        return const_reverse_iterator{PairProvider<true>{std::addressof(tree()), index}};
     }
 
     constexpr void check_not_full(const std_transition::source_location& loc) const
-- 
2.43.0


From a75b46fd2513fd8abd4d378369f1c979c6d7d4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:57 +0000
Subject: [PATCH 15/42] fix: copies of a FixedMap/FixedSet of non-trivial
 elements lost the comparator

The non-trivial copy/move constructors default-constructed the comparator and
the assignment operators kept the one of the target, so a copy could order its
elements differently from its source. Trivially copyable elements, and std::map,
take over the comparator of the source.
---
 include/fixed_containers/fixed_red_black_tree.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_red_black_tree.hpp b/include/fixed_containers/fixed_red_black_tree.hpp
index 125b7e8..8fc7cc6 100644
--- a/include/fixed_containers/fixed_red_black_tree.hpp
+++ b/include/fixed_containers/fixed_red_black_tree.hpp
@@ -896,7 +896,7 @@ public:
 
     // TODO: Use O(N) algorithm. Do non-recursive
     constexpr FixedRedBlackTree(const FixedRedBlackTree& other)
-      : FixedRedBlackTree()
+      : FixedRedBlackTree(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_)
     {
         for (NodeIndex i = other.index_of_min_at(); i != NULL_INDEX;
              i = other.index_of_successor_at(i))
@@ -914,7 +914,7 @@ public:
         }
     }
     constexpr FixedRedBlackTree(FixedRedBlackTree&& other) noexcept
-      : FixedRedBlackTree()
+      : FixedRedBlackTree(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_)
     {
         for (NodeIndex i = other.index_of_min_at(); i != NULL_INDEX;
              i = other.index_of_successor_at(i))
@@ -943,6 +943,8 @@ public:
         }
 
         this->clear();
+        this->IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_ =
+            other.IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_;
         for (NodeIndex i = other.index_of_min_at(); i != NULL_INDEX;
              i = other.index_of_successor_at(i))
         {
@@ -967,6 +969,8 @@ public:
         }
 
         this->clear();
+        this->IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_ =
+            other.IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_;
         for (NodeIndex i = other.index_of_min_at(); i != NULL_INDEX;
              i = other.index_of_successor_at(i))
         {
-- 
2.43.0


From 48e527f6271b141402d3060967656fcf53159806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:11 +0000
Subject: [PATCH 16/42] fix: heterogeneous lookup in FixedMap/FixedSet ignored
 all but one match

With a transparent comparator a key of another type can be equivalent to several
elements. lower_bound, upper_bound, equal_range and count stopped at whichever match
the tree search met first instead of covering all of them, as std::map does.
---
 include/fixed_containers/fixed_map.hpp        | 22 ++++------
 .../fixed_containers/fixed_red_black_tree.hpp | 43 +++++++++++++++++++
 include/fixed_containers/fixed_set.hpp        | 13 +++---
 3 files changed, 58 insertions(+), 20 deletions(-)

diff --git a/include/fixed_containers/fixed_map.hpp b/include/fixed_containers/fixed_map.hpp
index c1a5b7b..80f7740 100644
--- a/include/fixed_containers/fixed_map.hpp
+++ b/include/fixed_containers/fixed_map.hpp
@@ -14,6 +14,7 @@
 #include <array>
 #include <cstddef>
 #include <functional>
+#include <iterator>
 
 namespace fixed_containers
 {
@@ -537,7 +538,8 @@ public:
     [[nodiscard]] constexpr std::size_t count(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        return static_cast<std::size_t>(contains(key));
+        const auto range = equal_range(key);
+        return static_cast<std::size_t>(std::distance(range.first, range.second));
     }
 
     [[nodiscard]] constexpr iterator lower_bound(const K& key) noexcept
@@ -552,15 +554,13 @@ public:
     [[nodiscard]] constexpr iterator lower_bound(const K0& key) noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_iterator(tree().index_of_node_ceiling(np_idxs));
+        return create_iterator(tree().index_of_node_lower_bound(key));
     }
     template <class K0>
     [[nodiscard]] constexpr const_iterator lower_bound(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_const_iterator(tree().index_of_node_ceiling(np_idxs));
+        return create_const_iterator(tree().index_of_node_lower_bound(key));
     }
 
     [[nodiscard]] constexpr iterator upper_bound(const K& key) noexcept
@@ -575,15 +575,13 @@ public:
     [[nodiscard]] constexpr iterator upper_bound(const K0& key) noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_iterator(tree().index_of_node_higher(np_idxs));
+        return create_iterator(tree().index_of_node_upper_bound(key));
     }
     template <class K0>
     [[nodiscard]] constexpr const_iterator upper_bound(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_const_iterator(tree().index_of_node_higher(np_idxs));
+        return create_const_iterator(tree().index_of_node_upper_bound(key));
     }
 
     [[nodiscard]] constexpr std::pair<iterator, iterator> equal_range(const K& key) noexcept
@@ -601,16 +599,14 @@ public:
     [[nodiscard]] constexpr std::pair<iterator, iterator> equal_range(const K0& key) noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return equal_range_impl(np_idxs);
+        return {lower_bound(key), upper_bound(key)};
     }
     template <class K0>
     [[nodiscard]] constexpr std::pair<const_iterator, const_iterator> equal_range(
         const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return equal_range_impl(np_idxs);
+        return {lower_bound(key), upper_bound(key)};
     }
 
     template <std::size_t MAXIMUM_SIZE_2,
diff --git a/include/fixed_containers/fixed_red_black_tree.hpp b/include/fixed_containers/fixed_red_black_tree.hpp
index 8fc7cc6..06bc3a8 100644
--- a/include/fixed_containers/fixed_red_black_tree.hpp
+++ b/include/fixed_containers/fixed_red_black_tree.hpp
@@ -327,6 +327,49 @@ public:
         return index_of_node_ceiling(index_of_node_with_parent(key));
     }
 
+    // A heterogeneous key can be equivalent to several consecutive nodes: these return the first node
+    // that is not less than the key and the first one that is greater than it, respectively.
+    template <class K0>
+    [[nodiscard]] constexpr NodeIndex index_of_node_lower_bound(const K0& key) const noexcept
+    {
+        NodeIndex result = NULL_INDEX;
+        NodeIndex i = root_index();
+        while (i != NULL_INDEX)
+        {
+            const RedBlackTreeNodeView current_node = tree_storage_at(i);
+            if (compare(key, current_node.key()) > 0)
+            {
+                i = current_node.right_index();
+            }
+            else
+            {
+                result = i;
+                i = current_node.left_index();
+            }
+        }
+        return result;
+    }
+    template <class K0>
+    [[nodiscard]] constexpr NodeIndex index_of_node_upper_bound(const K0& key) const noexcept
+    {
+        NodeIndex result = NULL_INDEX;
+        NodeIndex i = root_index();
+        while (i != NULL_INDEX)
+        {
+            const RedBlackTreeNodeView current_node = tree_storage_at(i);
+            if (compare(key, current_node.key()) >= 0)
+            {
+                i = current_node.right_index();
+            }
+            else
+            {
+                result = i;
+                i = current_node.left_index();
+            }
+        }
+        return result;
+    }
+
     template <class K0>
     [[nodiscard]] constexpr bool contains_node(const K0& key) const noexcept
     {
diff --git a/include/fixed_containers/fixed_set.hpp b/include/fixed_containers/fixed_set.hpp
index 74e884e..5f32554 100644
--- a/include/fixed_containers/fixed_set.hpp
+++ b/include/fixed_containers/fixed_set.hpp
@@ -13,6 +13,7 @@
 #include <array>
 #include <cstddef>
 #include <functional>
+#include <iterator>
 #include <memory>
 
 namespace fixed_containers
@@ -336,7 +337,8 @@ public:
     [[nodiscard]] constexpr std::size_t count(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        return static_cast<std::size_t>(contains(key));
+        const auto range = equal_range(key);
+        return static_cast<std::size_t>(std::distance(range.first, range.second));
     }
 
     [[nodiscard]] constexpr const_iterator lower_bound(const K& key) const noexcept
@@ -347,8 +349,7 @@ public:
     [[nodiscard]] constexpr const_iterator lower_bound(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_const_iterator(tree().index_of_node_ceiling(np_idxs));
+        return create_const_iterator(tree().index_of_node_lower_bound(key));
     }
 
     [[nodiscard]] constexpr const_iterator upper_bound(const K& key) const noexcept
@@ -359,8 +360,7 @@ public:
     [[nodiscard]] constexpr const_iterator upper_bound(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_const_iterator(tree().index_of_node_higher(np_idxs));
+        return create_const_iterator(tree().index_of_node_upper_bound(key));
     }
 
     [[nodiscard]] constexpr std::pair<const_iterator, const_iterator> equal_range(
@@ -374,8 +374,7 @@ public:
         const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return equal_range_impl(np_idxs);
+        return {lower_bound(key), upper_bound(key)};
     }
 
     template <std::size_t MAXIMUM_SIZE_2,
-- 
2.43.0


From fc6e18e8b943c9ebf466497cd7a57852c1d1e84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:49 +0000
Subject: [PATCH 17/42] fix: EnumMap::insert_or_assign for values that are not
 trivially assignable

It assigned a whole OptionalStorage, whose assignment is deleted for such
types, so the call did not compile (e.g. for std::string). Construct the value
when inserting and assign to the live value otherwise, as std::map does.
---
 include/fixed_containers/enum_map.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/enum_map.hpp b/include/fixed_containers/enum_map.hpp
index ec97eda..4685b0d 100644
--- a/include/fixed_containers/enum_map.hpp
+++ b/include/fixed_containers/enum_map.hpp
@@ -471,8 +471,13 @@ public:
         {
             increment_size();
             array_set_unchecked_at(ordinal) = true;
+            memory::construct_at_address_of(
+                values_unchecked_at(ordinal), std::in_place, std::forward<M>(obj));
+        }
+        else
+        {
+            unchecked_at(ordinal) = std::forward<M>(obj);
         }
-        values_unchecked_at(ordinal) = OptionalV(std::forward<M>(obj));
         return {create_iterator(ordinal), is_insertion};
     }
     template <class M>
-- 
2.43.0


From e38e917535416d49bae8795e54cc6ce6b394e4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:22 +0000
Subject: [PATCH 18/42] fix: FixedString += char did not compile

---
 include/fixed_containers/fixed_string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_string.hpp b/include/fixed_containers/fixed_string.hpp
index 6b89397..9bc5649 100644
--- a/include/fixed_containers/fixed_string.hpp
+++ b/include/fixed_containers/fixed_string.hpp
@@ -343,7 +343,8 @@ public:
 
     constexpr FixedString& operator+=(CharT character)
     {
-        return append(character, std_transition::source_location::current());
+        push_back(character, std_transition::source_location::current());
+        return *this;
     }
     constexpr FixedString& operator+=(const CharT* char_ptr)
     {
-- 
2.43.0


From 34e369622719ba8933b29f999d840bdebc3754be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:55 +0000
Subject: [PATCH 19/42] fix: FixedString insert of a range or view of the
 string itself

---
 include/fixed_containers/fixed_string.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/fixed_containers/fixed_string.hpp b/include/fixed_containers/fixed_string.hpp
index 9bc5649..98f0c61 100644
--- a/include/fixed_containers/fixed_string.hpp
+++ b/include/fixed_containers/fixed_string.hpp
@@ -7,10 +7,12 @@
 #include "fixed_containers/sequence_container_checking.hpp"
 #include "fixed_containers/source_location.hpp"
 
+#include <algorithm>
 #include <array>
 #include <cstddef>
 #include <cstdlib>
 #include <istream>
+#include <iterator>
 #include <locale>
 #include <string_view>
 
@@ -257,7 +259,13 @@ public:
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
         const ScopedNullTermination guard{this, loc};
-        return vec().insert(pos, first, last, loc);
+        // The range may refer to this string (`std::string` supports that), so no existing character
+        // can be overwritten before all the new ones are in place.
+        const auto index = std::distance(cbegin(), pos);
+        const auto old_length = static_cast<difference_type>(length());
+        vec().insert(vec().cend(), first, last, loc);
+        std::rotate(std::next(begin(), index), std::next(begin(), old_length), end());
+        return std::next(begin(), index);
     }
     constexpr iterator insert(
         const_iterator pos,
@@ -272,8 +280,7 @@ public:
         std::string_view view,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        const ScopedNullTermination guard{this, loc};
-        return vec().insert(pos, view.begin(), view.end(), loc);
+        return insert(pos, view.begin(), view.end(), loc);
     }
 
     constexpr iterator erase(
-- 
2.43.0


From bd0367a57647f276bdb9c612cb38d93a5b2280c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:32 +0000
Subject: [PATCH 20/42] fix: comparing containers of equal capacity that differ
 in checking, comparator or storage type did not compile

The identity shortcut compared pointers of unrelated types whenever the capacities matched.
---
 include/fixed_containers/fixed_deque.hpp  | 2 +-
 include/fixed_containers/fixed_list.hpp   | 2 +-
 include/fixed_containers/fixed_map.hpp    | 3 ++-
 include/fixed_containers/fixed_set.hpp    | 3 ++-
 include/fixed_containers/fixed_vector.hpp | 2 +-
 5 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/fixed_containers/fixed_deque.hpp b/include/fixed_containers/fixed_deque.hpp
index 8a64d19..243cf86 100644
--- a/include/fixed_containers/fixed_deque.hpp
+++ b/include/fixed_containers/fixed_deque.hpp
@@ -506,7 +506,7 @@ public:
     template <std::size_t MAXIMUM_SIZE_2, customize::SequenceContainerChecking CheckingType2>
     constexpr bool operator==(const FixedDequeBase<T, MAXIMUM_SIZE_2, CheckingType2>& other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
+        if constexpr (std::is_same_v<decltype(*this), decltype(other)>)
         {
             if (this == &other)
             {
diff --git a/include/fixed_containers/fixed_list.hpp b/include/fixed_containers/fixed_list.hpp
index 6c4a6c7..699de71 100644
--- a/include/fixed_containers/fixed_list.hpp
+++ b/include/fixed_containers/fixed_list.hpp
@@ -453,7 +453,7 @@ public:
     template <std::size_t MAXIMUM_SIZE_2, customize::SequenceContainerChecking CheckingType2>
     constexpr bool operator==(const FixedList<T, MAXIMUM_SIZE_2, CheckingType2>& other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
+        if constexpr (std::is_same_v<decltype(*this), decltype(other)>)
         {
             if (this == &other)
             {
diff --git a/include/fixed_containers/fixed_map.hpp b/include/fixed_containers/fixed_map.hpp
index 80f7740..c2d0296 100644
--- a/include/fixed_containers/fixed_map.hpp
+++ b/include/fixed_containers/fixed_map.hpp
@@ -15,6 +15,7 @@
 #include <cstddef>
 #include <functional>
 #include <iterator>
+#include <type_traits>
 
 namespace fixed_containers
 {
@@ -626,7 +627,7 @@ public:
                                                            StorageTemplate2,
                                                            CheckingType2>& other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
+        if constexpr (std::is_same_v<decltype(*this), decltype(other)>)
         {
             if (this == &other)
             {
diff --git a/include/fixed_containers/fixed_set.hpp b/include/fixed_containers/fixed_set.hpp
index 5f32554..de70cba 100644
--- a/include/fixed_containers/fixed_set.hpp
+++ b/include/fixed_containers/fixed_set.hpp
@@ -15,6 +15,7 @@
 #include <functional>
 #include <iterator>
 #include <memory>
+#include <type_traits>
 
 namespace fixed_containers
 {
@@ -390,7 +391,7 @@ public:
         const FixedSet<K, MAXIMUM_SIZE_2, Compare2, COMPACTNESS_2, StorageTemplate2, CheckingType2>&
             other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
+        if constexpr (std::is_same_v<decltype(*this), decltype(other)>)
         {
             if (this == &other)
             {
diff --git a/include/fixed_containers/fixed_vector.hpp b/include/fixed_containers/fixed_vector.hpp
index 0cbe6af..15a481b 100644
--- a/include/fixed_containers/fixed_vector.hpp
+++ b/include/fixed_containers/fixed_vector.hpp
@@ -580,7 +580,7 @@ public:
     template <std::size_t MAXIMUM_SIZE_2, customize::SequenceContainerChecking CheckingType2>
     constexpr bool operator==(const FixedVectorBase<T, MAXIMUM_SIZE_2, CheckingType2>& other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
+        if constexpr (std::is_same_v<decltype(*this), decltype(other)>)
         {
             if (this == &other)
             {
-- 
2.43.0


From d9656d155b383e91c355df130b35c99723c43e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:10 +0000
Subject: [PATCH 21/42] fix: moved-from unordered containers of non-trivial
 elements kept stale buckets

After a move the source's value list was empty (move construction) or held moved-from keys (move
assignment) while its buckets still described the old contents: clear() and reuse of the source then
lost keys, looped forever or read destroyed elements.
---
 .../fixed_robinhood_hashtable.hpp             | 50 +++++++++++++++++--
 1 file changed, 47 insertions(+), 3 deletions(-)

diff --git a/include/fixed_containers/fixed_robinhood_hashtable.hpp b/include/fixed_containers/fixed_robinhood_hashtable.hpp
index 69094d9..d3c64fe 100644
--- a/include/fixed_containers/fixed_robinhood_hashtable.hpp
+++ b/include/fixed_containers/fixed_robinhood_hashtable.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include "fixed_containers/concepts.hpp"
 #include "fixed_containers/fixed_doubly_linked_list.hpp"
 #include "fixed_containers/map_entry.hpp"
 
@@ -357,7 +358,11 @@ public:
         return end_value_index;
     }
 
-    constexpr void clear() { erase_range(begin_index(), end_index()); }
+    constexpr void clear()
+    {
+        IMPLEMENTATION_DETAIL_DO_NOT_USE_value_storage_.clear();
+        IMPLEMENTATION_DETAIL_DO_NOT_USE_bucket_array_ = {};
+    }
 
 public:
     constexpr FixedRobinhoodHashtable() = default;
@@ -386,9 +391,48 @@ public:
         requires(!IsReference<V>)
     = default;
 
-    constexpr FixedRobinhoodHashtable(FixedRobinhoodHashtable&& other) = default;
+    // A non-trivial move leaves `other` with moved-from keys (or none at all), which its buckets do
+    // not describe anymore. Empty it, so that it stays usable.
+    constexpr FixedRobinhoodHashtable(FixedRobinhoodHashtable&& other) noexcept
+        requires(!TriviallyMoveConstructible<PairType>)
+      : IMPLEMENTATION_DETAIL_DO_NOT_USE_value_storage_(
+            std::move(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_value_storage_))
+      , IMPLEMENTATION_DETAIL_DO_NOT_USE_bucket_array_(
+            other.IMPLEMENTATION_DETAIL_DO_NOT_USE_bucket_array_)
+      , IMPLEMENTATION_DETAIL_DO_NOT_USE_hash_(
+            std::move(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_hash_))
+      , IMPLEMENTATION_DETAIL_DO_NOT_USE_key_equal_(
+            std::move(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_key_equal_))
+    {
+        other.clear();
+    }
+    constexpr FixedRobinhoodHashtable(FixedRobinhoodHashtable&& other)
+        requires TriviallyMoveConstructible<PairType>
+    = default;
+
     constexpr FixedRobinhoodHashtable& operator=(const FixedRobinhoodHashtable& other) = default;
-    constexpr FixedRobinhoodHashtable& operator=(FixedRobinhoodHashtable&& other) = default;
+
+    constexpr FixedRobinhoodHashtable& operator=(FixedRobinhoodHashtable&& other) noexcept
+        requires(!TriviallyMoveAssignable<PairType>)
+    {
+        if (this == &other)
+        {
+            return *this;
+        }
+        IMPLEMENTATION_DETAIL_DO_NOT_USE_value_storage_ =
+            std::move(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_value_storage_);
+        IMPLEMENTATION_DETAIL_DO_NOT_USE_bucket_array_ =
+            other.IMPLEMENTATION_DETAIL_DO_NOT_USE_bucket_array_;
+        IMPLEMENTATION_DETAIL_DO_NOT_USE_hash_ =
+            std::move(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_hash_);
+        IMPLEMENTATION_DETAIL_DO_NOT_USE_key_equal_ =
+            std::move(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_key_equal_);
+        other.clear();
+        return *this;
+    }
+    constexpr FixedRobinhoodHashtable& operator=(FixedRobinhoodHashtable&& other)
+        requires TriviallyMoveAssignable<PairType>
+    = default;
 };
 
 constexpr std::size_t default_bucket_count(std::size_t value_count)
-- 
2.43.0


From 94bd0c2c34e13b80475307dc15ee578baebd981e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:31 +0000
Subject: [PATCH 22/42] fix: FixedString assign of a range or view of the
 string itself

---
 include/fixed_containers/fixed_string.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/fixed_containers/fixed_string.hpp b/include/fixed_containers/fixed_string.hpp
index 98f0c61..02893e1 100644
--- a/include/fixed_containers/fixed_string.hpp
+++ b/include/fixed_containers/fixed_string.hpp
@@ -124,7 +124,10 @@ public:
         InputIt last,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        vec().assign(first, last, loc);
+        // The range may refer to this string (`std::string` supports that), so it has to be read before
+        // any existing character is touched.
+        const FixedVecStorage characters(first, last, loc);
+        vec().assign(characters.begin(), characters.end(), loc);
         null_terminate(loc);
         return *this;
     }
@@ -140,9 +143,7 @@ public:
         const std::string_view& view,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        vec().assign(view.begin(), view.end(), loc);
-        null_terminate(loc);
-        return *this;
+        return assign(view.begin(), view.end(), loc);
     }
 
     [[nodiscard]] constexpr reference operator[](size_type index) noexcept
-- 
2.43.0


From 0d83c21fc361cb0cf60fe2110818e43c4a0c1e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:46 +0000
Subject: [PATCH 23/42] fix: raw views of lists and unordered containers used a
 wrong element stride

The pool storage keeps unions of the element and std::size_t, so the stride
is a multiple of the bigger alignment. Elements such as 12 bytes with an
alignment of 4 were read from wrong offsets.
---
 .../fixed_doubly_linked_list_raw_view.hpp     | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/fixed_containers/fixed_doubly_linked_list_raw_view.hpp b/include/fixed_containers/fixed_doubly_linked_list_raw_view.hpp
index c75e441..dd1f6fa 100644
--- a/include/fixed_containers/fixed_doubly_linked_list_raw_view.hpp
+++ b/include/fixed_containers/fixed_doubly_linked_list_raw_view.hpp
@@ -65,8 +65,10 @@ public:
                                  std::size_t elem_align_bytes,
                                  std::size_t max_elem_count)
       : list_ptr_{static_cast<const std::byte*>(list_ptr)}
-      // the PoolStorage stores unions of `T`, `std::size_t`, so they are always at least that big
-      , elem_size_bytes_{std::max(elem_size_bytes, sizeof(std::size_t))}
+      // the PoolStorage stores unions of `T`, `std::size_t`, so they are always at least that big,
+      // and their size is a multiple of the bigger alignment of the two
+      , elem_size_bytes_{round_up(std::max(elem_size_bytes, sizeof(std::size_t)),
+                                  std::max(elem_align_bytes, alignof(std::size_t)))}
       , elem_align_bytes_{std::max(elem_align_bytes, alignof(std::size_t))}
       , max_elem_count_{max_elem_count}
     {
@@ -89,12 +91,8 @@ public:
     {
         // the full PoolStorage will be aligned to the alignment of the element, which matters if it
         // aligns bigger than alignof(size_t)
-        std::size_t raw_size = (max_elem_count_ * elem_size_bytes_) + sizeof(std::size_t);
-        if (raw_size % elem_align_bytes_ != 0)
-        {
-            raw_size += elem_align_bytes_ - (raw_size % elem_align_bytes_);
-        }
-        return static_cast<std::ptrdiff_t>(raw_size);
+        const std::size_t raw_size = (max_elem_count_ * elem_size_bytes_) + sizeof(std::size_t);
+        return static_cast<std::ptrdiff_t>(round_up(raw_size, elem_align_bytes_));
     }
 
     [[nodiscard]] constexpr std::ptrdiff_t chain_size() const noexcept
@@ -127,5 +125,11 @@ public:
     {
         return *std::next(chain_start(), static_cast<std::ptrdiff_t>(index));
     }
+
+private:
+    static constexpr std::size_t round_up(std::size_t value, std::size_t multiple) noexcept
+    {
+        return ((value + multiple - 1) / multiple) * multiple;
+    }
 };
 }  // namespace fixed_containers::fixed_doubly_linked_list_detail
-- 
2.43.0


From 78d275d7622a167bf4efabfe35d734654af4bb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:59 +0000
Subject: [PATCH 24/42] fix: converting or default-constructing a reverse
 iterator must not move it

The converting constructor (mutable to const) and the default constructor
delegated to the forwarding constructor, which steps reverse iterators once.
A const_reverse_iterator made from rbegin() pointed at the second-to-last
element, and value-initializing a reverse iterator dereferenced null.
---
 include/fixed_containers/bidirectional_iterator.hpp | 4 ++--
 include/fixed_containers/random_access_iterator.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fixed_containers/bidirectional_iterator.hpp b/include/fixed_containers/bidirectional_iterator.hpp
index 180181d..b04753d 100644
--- a/include/fixed_containers/bidirectional_iterator.hpp
+++ b/include/fixed_containers/bidirectional_iterator.hpp
@@ -68,7 +68,7 @@ private:
 
 public:
     constexpr BidirectionalIterator() noexcept
-      : BidirectionalIterator{EntryProvider{}}
+      : reference_provider_{}
     {
     }
 
@@ -87,7 +87,7 @@ public:
     // Mutable iterator needs to be convertible to const iterator
     constexpr BidirectionalIterator(const Sibling& other) noexcept
         requires(CONSTNESS == IteratorConstness::CONSTANT_ITERATOR)
-      : BidirectionalIterator{other.reference_provider_}
+      : reference_provider_(other.reference_provider_)
     {
     }
 
diff --git a/include/fixed_containers/random_access_iterator.hpp b/include/fixed_containers/random_access_iterator.hpp
index 8adf210..dbbabea 100644
--- a/include/fixed_containers/random_access_iterator.hpp
+++ b/include/fixed_containers/random_access_iterator.hpp
@@ -70,7 +70,7 @@ private:
 
 public:
     constexpr RandomAccessIterator() noexcept
-      : RandomAccessIterator{EntryProvider{}}
+      : reference_provider_{}
     {
     }
 
@@ -89,7 +89,7 @@ public:
     // Mutable iterator needs to be convertible to const iterator
     constexpr RandomAccessIterator(const Sibling& other) noexcept
         requires(CONSTNESS == IteratorConstness::CONSTANT_ITERATOR)
-      : RandomAccessIterator{other.reference_provider_}
+      : reference_provider_(other.reference_provider_)
     {
     }
 
-- 
2.43.0


From d5aceaec3913c6bfbceb029d94a03039d9ae3d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:47 +0000
Subject: [PATCH 25/42] fix: IntegerRangeIterator at the edges of its range

Moving by zero at either end aborted (or jumped from before the start to the
end), reverse iterators of ranges starting at zero ordered rend() before
rbegin(), and iterators over compile-time ranges not containing zero could not
be default-constructed.
---
 .../fixed_containers/integer_range_iterator.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/integer_range_iterator.hpp b/include/fixed_containers/integer_range_iterator.hpp
index 7ef6de7..ff8a41e 100644
--- a/include/fixed_containers/integer_range_iterator.hpp
+++ b/include/fixed_containers/integer_range_iterator.hpp
@@ -19,7 +19,8 @@ private:
 
 public:
     constexpr IntegerRangeEntryProvider() noexcept
-      : IntegerRangeEntryProvider{{}, {}}
+      : integer_range_{}
+      , current_index_{integer_range_.start_inclusive()}
     {
     }
 
@@ -34,6 +35,11 @@ public:
 
     constexpr void advance(const std::size_t n) noexcept
     {
+        if (n == 0)
+        {
+            return;
+        }
+
         const std::size_t end_exclusive = integer_range_.end_exclusive();
         assert_or_abort(current_index_ != end_exclusive);
 
@@ -47,6 +53,11 @@ public:
     }
     constexpr void recede(const std::size_t n) noexcept
     {
+        if (n == 0)
+        {
+            return;
+        }
+
         const std::size_t start_inclusive = integer_range_.start_inclusive();
         assert_or_abort(current_index_ != start_inclusive - 1);
 
@@ -74,7 +85,9 @@ public:
     constexpr auto operator<=>(const IntegerRangeEntryProvider& other) const noexcept
     {
         assert_or_abort(integer_range_ == other.integer_range_);
-        return current_index_ <=> other.current_index_;
+        // The position before the start wraps around when the range starts at zero
+        const std::size_t before_start = integer_range_.start_inclusive() - 1;
+        return (current_index_ - before_start) <=> (other.current_index_ - before_start);
     }
 
     constexpr std::ptrdiff_t operator-(const IntegerRangeEntryProvider& other) const
-- 
2.43.0


From a150a6d934f3fa6ea0ac70b73fb879189a7156f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:29 +0000
Subject: [PATCH 26/42] fix: incrementing before-begin of an empty FixedMap or
 FixedSet must give end()

---
 include/fixed_containers/fixed_map.hpp | 2 +-
 include/fixed_containers/fixed_set.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_map.hpp b/include/fixed_containers/fixed_map.hpp
index c2d0296..a5ddeca 100644
--- a/include/fixed_containers/fixed_map.hpp
+++ b/include/fixed_containers/fixed_map.hpp
@@ -103,8 +103,8 @@ private:
             else
             {
                 current_index_ = tree_->index_of_successor_at(current_index_);
-                current_index_ = replace_null_index_with_max_size_for_end_iterator(current_index_);
             }
+            current_index_ = replace_null_index_with_max_size_for_end_iterator(current_index_);
         }
         constexpr void recede() noexcept
         {
diff --git a/include/fixed_containers/fixed_set.hpp b/include/fixed_containers/fixed_set.hpp
index de70cba..c12cc90 100644
--- a/include/fixed_containers/fixed_set.hpp
+++ b/include/fixed_containers/fixed_set.hpp
@@ -82,8 +82,8 @@ private:
             else
             {
                 current_index_ = tree_->index_of_successor_at(current_index_);
-                current_index_ = replace_null_index_with_max_size_for_end_iterator(current_index_);
             }
+            current_index_ = replace_null_index_with_max_size_for_end_iterator(current_index_);
         }
         constexpr void recede() noexcept
         {
-- 
2.43.0


From 87bc06fa37da8d9a36819886c036abdbba467e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:18 +0000
Subject: [PATCH 27/42] fix: default hash of unscoped enum keys was ambiguous

---
 include/fixed_containers/wyhash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fixed_containers/wyhash.hpp b/include/fixed_containers/wyhash.hpp
index 8acd105..1eeb53e 100644
--- a/include/fixed_containers/wyhash.hpp
+++ b/include/fixed_containers/wyhash.hpp
@@ -225,7 +225,7 @@ struct hash<Enum>
 };
 
 template <typename T>
-    requires std::convertible_to<T, std::uint64_t>
+    requires(std::convertible_to<T, std::uint64_t> && !std::is_enum_v<T>)
 struct hash<T>
 {
     constexpr std::uint64_t operator()(T value) const noexcept
-- 
2.43.0


From 2eae46e85aa407a4ba0ad91a4ed5a9632411609b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:31 +0000
Subject: [PATCH 28/42] fix: default hash of floating point keys used an
 undefined conversion

---
 include/fixed_containers/wyhash.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/wyhash.hpp b/include/fixed_containers/wyhash.hpp
index 1eeb53e..844424b 100644
--- a/include/fixed_containers/wyhash.hpp
+++ b/include/fixed_containers/wyhash.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <array>
+#include <bit>
 #include <cstdint>
 #include <cstring>
 #include <functional>
@@ -225,7 +226,8 @@ struct hash<Enum>
 };
 
 template <typename T>
-    requires(std::convertible_to<T, std::uint64_t> && !std::is_enum_v<T>)
+    requires(std::convertible_to<T, std::uint64_t> && !std::is_enum_v<T> &&
+             !std::is_floating_point_v<T>)
 struct hash<T>
 {
     constexpr std::uint64_t operator()(T value) const noexcept
@@ -234,4 +236,18 @@ struct hash<T>
     }
 };
 
+template <typename T>
+    requires std::is_floating_point_v<T>
+struct hash<T>
+{
+    constexpr std::uint64_t operator()(T value) const noexcept
+    {
+        // Converting to an integer is undefined for most negative and large values.
+        const auto as_double = static_cast<double>(value);
+        // Positive and negative zero are equal
+        return wyhash_detail::hash(
+            as_double == 0.0 ? std::uint64_t{0} : std::bit_cast<std::uint64_t>(as_double));
+    }
+};
+
 }  // namespace fixed_containers::wyhash
-- 
2.43.0


From de5f29dea163478137493457b11080600e4cccfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:13 +0000
Subject: [PATCH 29/42] fix: value_of(string literal) of a bool-backed rich
 enum picked the integer overload

---
 include/fixed_containers/enum_utils.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/fixed_containers/enum_utils.hpp b/include/fixed_containers/enum_utils.hpp
index 8479edf..97fcafd 100644
--- a/include/fixed_containers/enum_utils.hpp
+++ b/include/fixed_containers/enum_utils.hpp
@@ -427,6 +427,17 @@ public:
         return rich_enums_detail::value_of<RichEnumType>(name);
     }
 
+    // Exact match for anything string-like. Otherwise, string literals would prefer the standard
+    // conversion to `bool` (as opposed to the user-defined conversion to `std::string_view`) for
+    // enums whose underlying type is `bool`.
+    template <class StringType>
+        requires std::is_convertible_v<const StringType&, std::string_view>
+    static constexpr std::optional<RichEnumType> value_of(const StringType& name)
+    {
+        const std::string_view name_view = name;
+        return rich_enums_detail::value_of<RichEnumType>(name_view);
+    }
+
     static constexpr std::optional<RichEnumType> value_of(const BackingEnum& backing_enum)
     {
         return rich_enums_detail::value_of<RichEnumType>(backing_enum);
-- 
2.43.0


From 72267a7958014a6f824b3383fa5703e17e0c5669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:05 +0000
Subject: [PATCH 30/42] fix: OptionalReference::emplace did not compile

---
 include/fixed_containers/optional_reference.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fixed_containers/optional_reference.hpp b/include/fixed_containers/optional_reference.hpp
index aa55967..6ab6b24 100644
--- a/include/fixed_containers/optional_reference.hpp
+++ b/include/fixed_containers/optional_reference.hpp
@@ -138,10 +138,10 @@ public:
 
     constexpr void reset() noexcept { val() = nullptr; }
 
-    constexpr reference emplace(reference val) noexcept
+    constexpr reference emplace(reference new_val) noexcept
     {
-        val() = &val;
-        return val;
+        val() = std::addressof(new_val);
+        return new_val;
     }
 
 private:
-- 
2.43.0


From f7b54fe767457a9a89b7fb6c5c390a30956c3240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:05 +0000
Subject: [PATCH 31/42] fix: ordering of OptionalReferences to partially or
 weakly ordered types did not compile

---
 include/fixed_containers/optional_reference.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/optional_reference.hpp b/include/fixed_containers/optional_reference.hpp
index 6ab6b24..ff7a113 100644
--- a/include/fixed_containers/optional_reference.hpp
+++ b/include/fixed_containers/optional_reference.hpp
@@ -169,8 +169,8 @@ template <typename T,
           customize::OptionalReferenceChecking<T> CheckT,
           std::three_way_comparable_with<T> U,
           customize::OptionalReferenceChecking<U> CheckU>
-constexpr auto operator<=>(const OptionalReference<T, CheckT>& lhs,
-                           const OptionalReference<U, CheckU>& rhs)
+constexpr std::compare_three_way_result_t<T, U> operator<=>(
+    const OptionalReference<T, CheckT>& lhs, const OptionalReference<U, CheckU>& rhs)
 {
     if (lhs.has_value() && rhs.has_value())
     {
-- 
2.43.0


From 252f13c1e3ea899888f141fe90e0bb2acfbd72b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:12 +0000
Subject: [PATCH 32/42] fix: inserting a temporary pair into a map of mutable
 references did not compile

---
 include/fixed_containers/enum_map.hpp          | 3 ++-
 include/fixed_containers/fixed_map.hpp         | 2 +-
 include/fixed_containers/fixed_map_adapter.hpp | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/fixed_containers/enum_map.hpp b/include/fixed_containers/enum_map.hpp
index 4685b0d..ab18e46 100644
--- a/include/fixed_containers/enum_map.hpp
+++ b/include/fixed_containers/enum_map.hpp
@@ -444,7 +444,8 @@ public:
 
         increment_size();
         array_set_unchecked_at(ordinal) = true;
-        memory::construct_at_address_of(values_unchecked_at(ordinal), std::move(value.second));
+        memory::construct_at_address_of(values_unchecked_at(ordinal),
+                                        std::forward<V>(value.second));
         return {create_iterator(ordinal), true};
     }
 
diff --git a/include/fixed_containers/fixed_map.hpp b/include/fixed_containers/fixed_map.hpp
index a5ddeca..3a1c83f 100644
--- a/include/fixed_containers/fixed_map.hpp
+++ b/include/fixed_containers/fixed_map.hpp
@@ -310,7 +310,7 @@ public:
         }
 
         check_not_full(loc);
-        tree().insert_new_at(np_idxs, value.first, std::move(value.second));
+        tree().insert_new_at(np_idxs, value.first, std::forward<V>(value.second));
         return {create_iterator(np_idxs.i), true};
     }
 
diff --git a/include/fixed_containers/fixed_map_adapter.hpp b/include/fixed_containers/fixed_map_adapter.hpp
index 30b04da..2f6c60a 100644
--- a/include/fixed_containers/fixed_map_adapter.hpp
+++ b/include/fixed_containers/fixed_map_adapter.hpp
@@ -218,7 +218,7 @@ public:
         }
 
         check_not_full(loc);
-        idx = table().emplace(idx, std::move(pair.first), std::move(pair.second));
+        idx = table().emplace(idx, std::move(pair.first), std::forward<V>(pair.second));
         return {create_iterator(idx), true};
     }
 
-- 
2.43.0


From 63eac1a443509f31838fca70650223fb73fdd636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:49 +0000
Subject: [PATCH 33/42] fix: a const EnumMap of mutable references could not be
 read

---
 include/fixed_containers/optional_storage.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/optional_storage.hpp b/include/fixed_containers/optional_storage.hpp
index ddfea53..6856b72 100644
--- a/include/fixed_containers/optional_storage.hpp
+++ b/include/fixed_containers/optional_storage.hpp
@@ -105,13 +105,13 @@ union OptionalStorage<T>
 };
 
 template <typename T>
-constexpr const auto& get(const OptionalStorage<T>& value)
+constexpr const T& get(const OptionalStorage<T>& value)
 {
     return value.get();
 }
 
 template <typename T>
-constexpr auto& get(OptionalStorage<T>& value)
+constexpr T& get(OptionalStorage<T>& value)
 {
     return value.get();
 }
-- 
2.43.0


From ccac76018cbeb681bd0e1723ef405c67901a3da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:02 +0000
Subject: [PATCH 34/42] fix: FixedMap of references with dedicated node colors
 was not assignable

---
 include/fixed_containers/fixed_red_black_tree_nodes.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/fixed_containers/fixed_red_black_tree_nodes.hpp b/include/fixed_containers/fixed_red_black_tree_nodes.hpp
index 1ba9c79..efe3dce 100644
--- a/include/fixed_containers/fixed_red_black_tree_nodes.hpp
+++ b/include/fixed_containers/fixed_red_black_tree_nodes.hpp
@@ -56,7 +56,8 @@ public:
 
 public:  // Public so this type is a structural type and can thus be used in template parameters
     K IMPLEMENTATION_DETAIL_DO_NOT_USE_key_;
-    V IMPLEMENTATION_DETAIL_DO_NOT_USE_value_;
+    value_or_reference_storage_detail::ValueOrReferenceStorage<V>
+        IMPLEMENTATION_DETAIL_DO_NOT_USE_value_;
     NodeIndex IMPLEMENTATION_DETAIL_DO_NOT_USE_parent_index_ = NULL_INDEX;
     NodeIndex IMPLEMENTATION_DETAIL_DO_NOT_USE_left_index_ = NULL_INDEX;
     NodeIndex IMPLEMENTATION_DETAIL_DO_NOT_USE_right_index_ = NULL_INDEX;
@@ -82,9 +83,9 @@ public:
     constexpr K& key() { return IMPLEMENTATION_DETAIL_DO_NOT_USE_key_; }
     [[nodiscard]] constexpr const V& value() const
     {
-        return IMPLEMENTATION_DETAIL_DO_NOT_USE_value_;
+        return IMPLEMENTATION_DETAIL_DO_NOT_USE_value_.get();
     }
-    constexpr V& value() { return IMPLEMENTATION_DETAIL_DO_NOT_USE_value_; }
+    constexpr V& value() { return IMPLEMENTATION_DETAIL_DO_NOT_USE_value_.get(); }
 
     [[nodiscard]] constexpr NodeIndex parent_index() const
     {
-- 
2.43.0


From 0e7f5da2e8e49d0fa7144ac5a8ae6d79eeb68614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:42 +0000
Subject: [PATCH 35/42] fix: StructView::try_add_paths() did not compile for a
 set of paths

---
 include/fixed_containers/struct_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fixed_containers/struct_view.hpp b/include/fixed_containers/struct_view.hpp
index 0514118..107a291 100644
--- a/include/fixed_containers/struct_view.hpp
+++ b/include/fixed_containers/struct_view.hpp
@@ -598,7 +598,7 @@ public:
     bool try_add_paths(S&& instance, const PathSet& paths)
     {
         auto path_properties_map =
-            extract_path_properties_of_filtered(std::forward<S>(instance), paths);
+            extract_path_properties_of_filtered(std::forward<S>(instance), std::optional{paths});
         if (path_properties_map.size() != paths.size())
         {
             return false;
-- 
2.43.0


From 20061de68f7951249425a7a467eb34cbd4bb2440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:00 +0000
Subject: [PATCH 36/42] fix: path_to_string() left the output string unchanged
 for an empty path

---
 include/fixed_containers/recursive_reflection.hpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/include/fixed_containers/recursive_reflection.hpp b/include/fixed_containers/recursive_reflection.hpp
index f19ee17..5b683da 100644
--- a/include/fixed_containers/recursive_reflection.hpp
+++ b/include/fixed_containers/recursive_reflection.hpp
@@ -269,11 +269,6 @@ constexpr PathNameChain path_from_string(const std::string_view& path_name_chain
 template <typename StringType>
 constexpr StringType path_to_string(const PathNameChain& path_name_chain, out<StringType> out)
 {
-    if (path_name_chain.empty())
-    {
-        return {};
-    }
-
     out->clear();
     bool first = true;
 
-- 
2.43.0


From 4b0b1450a03c185ca173876ce4aeff11a8dc6709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:00 +0000
Subject: [PATCH 37/42] fix: iterators of ContiguousRangeSubStructView were not
 default constructible

---
 include/fixed_containers/struct_view.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/struct_view.hpp b/include/fixed_containers/struct_view.hpp
index 107a291..2b4ab22 100644
--- a/include/fixed_containers/struct_view.hpp
+++ b/include/fixed_containers/struct_view.hpp
@@ -795,7 +795,8 @@ class ContiguousRangeSubStructView
 
     public:
         constexpr ReferenceProvider() noexcept
-          : ReferenceProvider{nullptr, 0}
+          : accessing_info_{nullptr}
+          , current_index_{0}
         {
         }
 
-- 
2.43.0


From 23a0ca6f1988d33a1fce64fb5541e513c7968f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:55 +0000
Subject: [PATCH 38/42] fix: pointers to const durations and bitsets were
 skipped by recursive reflection

---
 include/fixed_containers/recursive_reflection.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/recursive_reflection.hpp b/include/fixed_containers/recursive_reflection.hpp
index 5b683da..6110f68 100644
--- a/include/fixed_containers/recursive_reflection.hpp
+++ b/include/fixed_containers/recursive_reflection.hpp
@@ -54,7 +54,8 @@ template <typename T>
 concept AsPrimitiveValue = std::is_arithmetic_v<T> || IsDuration<T> || IsBitset<T>;
 
 template <typename T>
-concept AsPrimitiveView = std::is_pointer_v<T> && AsPrimitiveValue<std::remove_pointer_t<T>>;
+concept AsPrimitiveView =
+    std::is_pointer_v<T> && AsPrimitiveValue<std::remove_cv_t<std::remove_pointer_t<T>>>;
 
 template <typename T>
 concept AsPrimitive = AsPrimitiveValue<T> || AsPrimitiveView<T>;
-- 
2.43.0


From 4e231adbf8e4160057beba502d1595d053b620ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:10 +0000
Subject: [PATCH 39/42] fix: a reused sub struct view kept optional values the
 super struct does not have

---
 include/fixed_containers/struct_view.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/struct_view.hpp b/include/fixed_containers/struct_view.hpp
index 2b4ab22..f4811e7 100644
--- a/include/fixed_containers/struct_view.hpp
+++ b/include/fixed_containers/struct_view.hpp
@@ -199,6 +199,7 @@ struct OptionalCallInterface
 {
     std::function<bool(const void*)> has_value;
     std::function<void(void*)> emplace_default;
+    std::function<void(void*)> reset;
 };
 
 struct ResizableInterableCallInterface
@@ -252,7 +253,9 @@ struct MetadataExtractor<T>
                 OptionalCallInterface{.has_value = [](const void* instance)
                                       { return static_cast<const Type*>(instance)->has_value(); },
                                       .emplace_default = [](void* instance)
-                                      { static_cast<Type*>(instance)->emplace(); }}};
+                                      { static_cast<Type*>(instance)->emplace(); },
+                                      .reset = [](void* instance)
+                                      { static_cast<Type*>(instance)->reset(); }}};
     }
 };
 
@@ -706,7 +709,12 @@ void sub_struct_view_of(void* super_struct_base_pointer,
                     std::any_cast<OptionalCallInterface>(path_properties.metadata.call_interface);
                 auto super_api = std::any_cast<OptionalCallInterface>(
                     super_struct_path_properties.metadata.call_interface);
-                if (super_api.has_value(super_struct_field_ptr) && !sub_api.has_value(field_ptr))
+                if (!super_api.has_value(super_struct_field_ptr))
+                {
+                    // the output may have been used before
+                    sub_api.reset(field_ptr);
+                }
+                else if (!sub_api.has_value(field_ptr))
                 {
                     sub_api.emplace_default(field_ptr);
                 }
-- 
2.43.0


From ba2cc336674f96ea55770e44463b31330281c981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:29 +0000
Subject: [PATCH 40/42] fix: sub_struct_view_of() accepted fields of other
 types when one type name contains the other

---
 include/fixed_containers/struct_view.hpp | 30 ++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/fixed_containers/struct_view.hpp b/include/fixed_containers/struct_view.hpp
index f4811e7..1057807 100644
--- a/include/fixed_containers/struct_view.hpp
+++ b/include/fixed_containers/struct_view.hpp
@@ -404,6 +404,29 @@ constexpr void for_each_index_of_path_helper(void* base_pointer,
     }
 }
 
+// For example, "const int *" is a name of a pointer to "int"
+constexpr bool is_name_of_pointer_to(std::string_view pointer_name,
+                                     const std::string_view pointee_name)
+{
+    if (!pointer_name.ends_with('*'))
+    {
+        return false;
+    }
+    pointer_name.remove_suffix(1);
+    if (pointer_name.ends_with(' '))
+    {
+        pointer_name.remove_suffix(1);
+    }
+    for (const std::string_view qualifier : {"const ", "volatile "})
+    {
+        if (pointer_name.starts_with(qualifier))
+        {
+            pointer_name.remove_prefix(qualifier.size());
+        }
+    }
+    return pointer_name == pointee_name;
+}
+
 // runtime version of offsetof in <cstddef>
 template <typename Instance, typename Field>
 std::size_t get_pointer_distance(Instance&& instance, Field&& field)
@@ -737,10 +760,9 @@ void sub_struct_view_of(void* super_struct_base_pointer,
                 // check the detail_types are compatiable, need to consider pointer and qualifiers
                 // TODO: optimization for string_view pointer comparison to O(1) since we know the
                 // structure
-                assert_or_abort(path_properties  // NOLINT(abseil-string-find-str-contains)
-                                    .metadata.detail_type.find(
-                                        super_struct_path_properties.metadata.detail_type) !=
-                                std::string_view::npos);
+                assert_or_abort(struct_view_detail::is_name_of_pointer_to(
+                    path_properties.metadata.detail_type,
+                    super_struct_path_properties.metadata.detail_type));
                 *reinterpret_cast<std::uintptr_t*>(field_ptr) =
                     reinterpret_cast<std::uintptr_t>(super_struct_field_ptr);
             }
-- 
2.43.0


From 1695aaac4b3af4311c38a0f123b658ba989bc600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:30 +0000
Subject: [PATCH 41/42] fix: copying a non-const ContiguousRangeSubStructView
 did not compile

---
 include/fixed_containers/struct_view.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fixed_containers/struct_view.hpp b/include/fixed_containers/struct_view.hpp
index 1057807..8f27720 100644
--- a/include/fixed_containers/struct_view.hpp
+++ b/include/fixed_containers/struct_view.hpp
@@ -883,6 +883,8 @@ public:
 
     template <typename SuperStructContainer>
     ContiguousRangeSubStructView(SuperStructContainer& super_struct_container)
+        requires(
+            !std::same_as<std::remove_cv_t<SuperStructContainer>, ContiguousRangeSubStructView>)
       : accessing_info_{
             .sub_struct_view = {},
             .super_struct_view = {},
-- 
2.43.0


From f4f794a0a517d628aa892646a8e95bf37ef81515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:43 +0000
Subject: [PATCH 42/42] fix: sub_struct_view_of() resized vectors inside empty
 optionals (garbage size, hang)

---
 include/fixed_containers/struct_view.hpp | 60 +++++++++++++++++++++++-
 1 file changed, 59 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/struct_view.hpp b/include/fixed_containers/struct_view.hpp
index 8f27720..db82968 100644
--- a/include/fixed_containers/struct_view.hpp
+++ b/include/fixed_containers/struct_view.hpp
@@ -691,6 +691,54 @@ void for_each_field(const StructView<MAXIMUM_SIZE>& struct_view,
     }
 }
 
+// Whether there is an object at `path` and `indices`: it is not when an enclosing optional is empty or
+// an enclosing resizable iterable has fewer entries
+template <std::size_t MAXIMUM_SIZE = MAX_NUM_PATHS>
+bool is_within_lifetime(const StructView<MAXIMUM_SIZE>& struct_view,
+                        const void* base_pointer,
+                        const PathNameChain& path,
+                        const Indices& indices)
+{
+    PathNameChain enclosing_path{};
+    for (const auto& name : path)
+    {
+        const auto itr = struct_view.get_path_map_ref().find(enclosing_path);
+        enclosing_path.push_back(name);
+        if (itr == struct_view.get_path_map_ref().cend())
+        {
+            continue;
+        }
+
+        const PathProperties& properties = itr->second;
+        const std::size_t dim = properties.offset.dim;
+        const void* enclosing_field_ptr =
+            struct_view_detail::get_field<const void*, const void*>(
+                base_pointer,
+                properties,
+                Indices(indices.begin(),
+                        std::next(indices.begin(), static_cast<std::ptrdiff_t>(dim))));
+        if (properties.metadata.metadata_type == struct_view_detail::OPTIONAL)
+        {
+            const auto api =
+                std::any_cast<OptionalCallInterface>(properties.metadata.call_interface);
+            if (!api.has_value(enclosing_field_ptr))
+            {
+                return false;
+            }
+        }
+        else if (properties.metadata.metadata_type == struct_view_detail::ITERABLE_RESIZABLE)
+        {
+            const auto api =
+                std::any_cast<ResizableInterableCallInterface>(properties.metadata.call_interface);
+            if (indices.at(dim) >= api.size(enclosing_field_ptr))
+            {
+                return false;
+            }
+        }
+    }
+    return true;
+}
+
 template <std::size_t SUPER_STRUCT_VIEW_MAXIMUM_SIZE = MAX_NUM_PATHS,
           std::size_t SUB_STRUCT_VIEW_MAXIMUM_SIZE = MAX_NUM_PATHS>
 void sub_struct_view_of(void* super_struct_base_pointer,
@@ -702,10 +750,20 @@ void sub_struct_view_of(void* super_struct_base_pointer,
     for_each_field(
         sub_struct_view,
         sub_struct_base_pointer,
-        [super_struct_base_pointer, &super_struct_view](
+        [super_struct_base_pointer,
+         &super_struct_view,
+         sub_struct_base_pointer,
+         &sub_struct_view](
             const auto& path, const auto& path_properties, const auto& indices, void* field_ptr)
         {
             const auto& super_struct_path_properties = super_struct_view.at(path);
+
+            // Paths are visited after the paths that enclose them
+            if (!is_within_lifetime(sub_struct_view, sub_struct_base_pointer, path, indices))
+            {
+                return;
+            }
+
             const auto super_struct_field_ptr =
                 struct_view_detail::get_field<const void*, const void*>(
                     super_struct_base_pointer, super_struct_path_properties, indices);
-- 
2.43.0

