From 3a1245c6056827de60f075482b347b462d2211c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:34 +0000
Subject: [PATCH 01/29] fix: make every header self-contained by including what
 it uses

---
 inc/ptl/bitset.hpp       | 2 ++
 inc/ptl/function_ref.hpp | 2 ++
 inc/ptl/optional.hpp     | 2 ++
 inc/ptl/tuple.hpp        | 2 ++
 inc/ptl/variant.hpp      | 3 +++
 inc/ptl/variant_ref.hpp  | 2 ++
 inc/ptl/vector.hpp       | 4 ++++
 7 files changed, 17 insertions(+)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index 62c9a0e..0249e0c 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -10,6 +10,8 @@
 #include <ostream>
 #include <numeric>
 #include <algorithm>
+#include <stdexcept>
+#include <functional>
 #include <type_traits>
 
 namespace ptl {
diff --git a/inc/ptl/function_ref.hpp b/inc/ptl/function_ref.hpp
index bad1646..c23af4f 100644
--- a/inc/ptl/function_ref.hpp
+++ b/inc/ptl/function_ref.hpp
@@ -5,7 +5,9 @@
 //          http://www.boost.org/LICENSE_1_0.txt)
 
 #pragma once
+#include <memory>
 #include <utility>
+#include <functional>
 #include <type_traits>
 
 namespace ptl {
diff --git a/inc/ptl/optional.hpp b/inc/ptl/optional.hpp
index c64c57a..781cb9f 100644
--- a/inc/ptl/optional.hpp
+++ b/inc/ptl/optional.hpp
@@ -5,6 +5,8 @@
 //          http://www.boost.org/LICENSE_1_0.txt)
 
 #pragma once
+#include <new>
+#include <memory>
 #include <utility>
 #include <optional>
 #include <type_traits>
diff --git a/inc/ptl/tuple.hpp b/inc/ptl/tuple.hpp
index a2e4081..eb02e63 100644
--- a/inc/ptl/tuple.hpp
+++ b/inc/ptl/tuple.hpp
@@ -5,6 +5,8 @@
 //          http://www.boost.org/LICENSE_1_0.txt)
 
 #pragma once
+#include <cstddef>
+#include <utility>
 #include <type_traits>
 
 namespace ptl {
diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index 4ca70a5..fc88f7e 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -5,9 +5,12 @@
 //          http://www.boost.org/LICENSE_1_0.txt)
 
 #pragma once
+#include <new>
 #include <limits>
+#include <memory>
 #include <utility>
 #include <variant>
+#include <functional>
 #include <type_traits>
 
 namespace ptl {
diff --git a/inc/ptl/variant_ref.hpp b/inc/ptl/variant_ref.hpp
index dec8cae..c822129 100644
--- a/inc/ptl/variant_ref.hpp
+++ b/inc/ptl/variant_ref.hpp
@@ -6,8 +6,10 @@
 
 #pragma once
 #include <limits>
+#include <memory>
 #include <utility>
 #include <variant>
+#include <exception>
 #include <type_traits>
 
 namespace ptl {
diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 022cba1..d9367c3 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -5,12 +5,16 @@
 //          http://www.boost.org/LICENSE_1_0.txt)
 
 #pragma once
+#include <new>
 #include <limits>
 #include <memory>
+#include <cstdlib>
+#include <utility>
 #include <iterator>
 #include <algorithm>
 #include <stdexcept>
 #include <type_traits>
+#include <initializer_list>
 
 namespace ptl {
 	//! @brief a dynamically growing array
-- 
2.43.0


From 8f132209f1d7dc9697f9bb57238f1bb4d8a2e598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:34 +0000
Subject: [PATCH 02/29] fix: bitset::reference conversion to bool recursed
 infinitely

---
 inc/ptl/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index 0249e0c..6fce665 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -97,7 +97,7 @@ namespace ptl {
 			}
 
 			constexpr
-			operator bool() const noexcept { return self[index]; }
+			operator bool() const noexcept { return static_cast<const bitset &>(self)[index]; }
 			constexpr
 			auto operator~() const noexcept -> bool { return !static_cast<bool>(*this); }
 
-- 
2.43.0


From b01e7bf8fe2b320dde342ad81496122de46d9d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:34 +0000
Subject: [PATCH 03/29] fix: bitset::reference::swap ignored references to
 different bitsets with equal index

---
 inc/ptl/bitset.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index 6fce665..d611c15 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -8,6 +8,7 @@
 #include <climits>
 #include <istream>
 #include <ostream>
+#include <memory>
 #include <numeric>
 #include <algorithm>
 #include <stdexcept>
@@ -109,7 +110,7 @@ namespace ptl {
 
 			constexpr
 			void swap(reference & other) noexcept {
-				if(index == other.index) return;
+				if(std::addressof(self) == std::addressof(other.self) && index == other.index) return;
 				const auto lhs{static_cast<bool>(*this)};
 				const auto rhs{static_cast<bool>(other)};
 				if(lhs == rhs) return;
-- 
2.43.0


From 52421c13cb439304ac8342ac62a441ea5f92162c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:34 +0000
Subject: [PATCH 04/29] fix: bitset shifts by huge counts iterated once per
 shifted bit

---
 inc/ptl/bitset.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index d611c15..e2d5dfc 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -237,6 +237,7 @@ namespace ptl {
 
 		constexpr
 		auto operator<<=(size_type count) noexcept -> bitset & {
+			if(count >= Size) return reset();
 			if constexpr(Size != 0) {
 				for(size_type i{0}; i < count; ++i) {
 					for(size_type j{sizeof(values) - 1}; j > 0; --j) {
@@ -258,6 +259,7 @@ namespace ptl {
 
 		constexpr
 		auto operator>>=(size_type count) noexcept -> bitset & {
+			if(count >= Size) return reset();
 			if constexpr(Size != 0) {
 				for(size_type i{0}; i < count; ++i) {
 					values[0] = static_cast<unsigned char>(values[0] >> 1);
-- 
2.43.0


From 41ce824ea4b315c98d2835cb8bf8b66b48fb5a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:00 +0000
Subject: [PATCH 05/29] fix: bitset extraction reported failure when input
 ended after some digits

---
 inc/ptl/bitset.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index e2d5dfc..7acff9f 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -345,15 +345,15 @@ namespace ptl {
 			if(const std::istream::sentry s{is}; s) {
 				auto extracted{false};
 				for(size_type i{0}; i < Size; ++i) {
-					if(const auto c{is.get()}; c == '0' || c == '1') {
+					if(const auto c{is.peek()}; c == '0' || c == '1') {
 						if(!extracted) {
 							extracted = true;
 							self.reset();
 						}
 						self <<= 1;
+						is.ignore();
 						if(c == '1') self.set(0);
 					} else {
-						is.unget();
 						if(!extracted) is.setstate(std::ios::failbit);
 						break;
 					}
-- 
2.43.0


From be14cbe525c6cf23a9dade4e6f7f9efde922bc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:00 +0000
Subject: [PATCH 06/29] fix: string literals were cut at the first NUL and
 could terminate on allocation failure

---
 inc/ptl/string.hpp     | 2 +-
 inc/ptl/string_ref.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index 317ff17..08cb9cd 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -620,7 +620,7 @@ namespace ptl {
 
 	namespace literals {
 		inline
-		auto operator""_s(const char * ptr, std::size_t) noexcept -> string { return string{ptr}; }
+		auto operator""_s(const char * ptr, std::size_t size) -> string { return string{std::string_view{ptr, size}}; }
 	}
 }
 
diff --git a/inc/ptl/string_ref.hpp b/inc/ptl/string_ref.hpp
index 1fad606..ab92bb5 100644
--- a/inc/ptl/string_ref.hpp
+++ b/inc/ptl/string_ref.hpp
@@ -225,7 +225,7 @@ namespace ptl {
 	namespace literals {
 		inline
 		constexpr
-		auto operator""_sr(const char * ptr, std::size_t) noexcept -> string_ref { return ptr; }
+		auto operator""_sr(const char * ptr, std::size_t size) noexcept -> string_ref { return {ptr, size}; }
 	}
 }
 
-- 
2.43.0


From 85884002b51fc6f5cc8c0da6e4ea80c7bf07e053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:00 +0000
Subject: [PATCH 07/29] fix: vector::erase of an empty range self-moved all
 following elements

---
 inc/ptl/vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index d9367c3..8c3ce5d 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -344,6 +344,7 @@ namespace ptl {
 		auto erase(const_iterator pos) noexcept -> iterator { return erase(pos, pos + 1); } //TODO: [C++??] precondition(pos != end());
 		auto erase(const_iterator first, const_iterator last) noexcept -> iterator { //TODO: [C++??] precondition(begin() <= first && first <= last && last <= end());
 			const auto count{static_cast<size_type>(std::distance(first, last))};
+			if(count == 0) return first; //nothing to do, prevents self-move of the trailing elements
 			std::move(const_cast<Type *>(last.ptr), data() + size(), const_cast<Type *>(first.ptr));
 			std::destroy(data() + size() - count, data() + size());
 			storage.set_size(size() - count);
-- 
2.43.0


From e543fdb12416aff3ebdd6f5c6aca41f6576ca3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 08/29] fix: vector::shrink_to_fit terminated the program if
 memory allocation failed

---
 inc/ptl/vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 8c3ce5d..51993e9 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -320,14 +320,14 @@ namespace ptl {
 		void resize(size_type count) { resize_impl(count, [](auto pos, auto count) { std::uninitialized_value_construct_n(pos, count); }); }
 		void resize(size_type count, const Type & value) { resize_impl(count, [&](auto pos, auto count) { std::uninitialized_fill_n(pos, count, value); }); }
 
-		void shrink_to_fit() noexcept {
+		void shrink_to_fit() noexcept try {
 			if(size() * 2 >= capacity()) return; //TODO: better criteria for "excess memory usage"
 
 			storage_t tmp{size()};
 			std::uninitialized_move_n(data(), size(), tmp.data());
 			tmp.set_size(size());
 			storage = std::move(tmp);
-		}
+		} catch(const std::bad_alloc &) {} //shrinking is a non-binding request
 
 		void clear() noexcept {
 			std::destroy_n(data(), size());
-- 
2.43.0


From 7cff2ce465f0dc877456782dcfa128b443e48941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 09/29] fix: vector assign/insert with huge counts wrapped
 around and corrupted memory

---
 inc/ptl/vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 51993e9..7db6fcb 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -192,7 +192,7 @@ namespace ptl {
 
 		template<typename Func>
 		void assign_impl(std::size_t required_size, Func func) {
-			if(size() + required_size <= capacity()) { //no need for allocation nor double buffering
+			if(required_size <= capacity() - size()) { //no need for allocation nor double buffering
 				func(data() + size());
 				std::rotate(data(), data() + size(), data() + size() + required_size);
 				std::destroy_n(data() + required_size, size());
@@ -207,6 +207,7 @@ namespace ptl {
 
 		template<typename Func>
 		auto insert_impl(contiguous_iterator<true> pos, std::size_t required_size, Func func) {
+			if(required_size > max_size() - size()) throw std::length_error{"ptl::vector - insertion attempting to exceed max_size"};
 			const auto offset{pos.ptr - data()};
 			if(size() + required_size <= capacity()) { //no need for allocation nor double buffering
 				func(data() + size());
-- 
2.43.0


From 7871e044397ba1fa000a714638e7f72597807171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 10/29] fix: vector::resize reallocated and dropped reserved
 capacity when growing within it

---
 inc/ptl/vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 7db6fcb..77000cf 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -228,7 +228,10 @@ namespace ptl {
 		void resize_impl(std::size_t new_size, Func func) {
 			if(new_size == size()) return;
 			if(new_size < size()) erase(begin() + new_size, end());
-			else {
+			else if(new_size <= capacity()) { //no need for allocation
+				func(data() + size(), new_size - size());
+				storage.set_size(new_size);
+			} else {
 				storage_t tmp{new_size};
 				func(tmp.data() + size(), new_size - size());
 				std::uninitialized_move_n(data(), size(), tmp.data());
-- 
2.43.0


From a447d82567b19de4a00783262a48312bf7cc7e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 11/29] fix: vector placed elements of over-aligned types at
 misaligned addresses

---
 inc/ptl/vector.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 77000cf..529c384 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -7,6 +7,7 @@
 #pragma once
 #include <new>
 #include <limits>
+#include <cstddef>
 #include <memory>
 #include <cstdlib>
 #include <utility>
@@ -48,8 +49,13 @@ namespace ptl {
 				if(capacity == 0) return;
 				if(capacity > max_size()) throw std::length_error{"ptl::vector - allocation attempting to exceed max_size"};
 				capacity = std::max(min_capacity, capacity);
-				dealloc = +[](Type * ptr) noexcept { std::free(ptr); };
-				ptr = static_cast<Type *>(std::calloc(capacity, sizeof(Type)));
+				if constexpr(alignof(Type) > alignof(std::max_align_t)) {
+					dealloc = +[](Type * ptr) noexcept { ::operator delete(ptr, std::align_val_t{alignof(Type)}); };
+					ptr = static_cast<Type *>(::operator new(capacity * sizeof(Type), std::align_val_t{alignof(Type)}));
+				} else {
+					dealloc = +[](Type * ptr) noexcept { std::free(ptr); };
+					ptr = static_cast<Type *>(std::calloc(capacity, sizeof(Type)));
+				}
 				if(!ptr) throw std::bad_alloc{};
 				cap = capacity;
 				siz = 0;
-- 
2.43.0


From 3b8988d4753accf165bea053e2c3d9c45fe7e1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 12/29] fix: comparing iterator with const_iterator of string
 and vector was ambiguous

---
 inc/ptl/string.hpp | 5 +----
 inc/ptl/vector.hpp | 7 ++-----
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index 08cb9cd..93582c8 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -228,9 +228,6 @@ namespace ptl {
 			constexpr
 			contiguous_iterator(pointer ptr) noexcept : ptr{ptr} {}
 
-			constexpr
-			operator contiguous_iterator<false>() const noexcept { return contiguous_iterator<false>{const_cast<char *>(ptr)}; }
-
 			pointer ptr{nullptr};
 		};
 
@@ -461,7 +458,7 @@ namespace ptl {
 		auto erase(const_iterator first, const_iterator last) noexcept -> iterator { //TODO: [C++??] precondition(begin() <= first && first <= last && last <= end());
 			std::copy(const_cast<char *>(last.ptr), data() + size(), const_cast<char *>(first.ptr));
 			storage.set_size(size() - (last - first));
-			return first;
+			return const_cast<char *>(first.ptr);
 		}
 
 		template<typename InputIterator, std::enable_if_t<std::is_same_v<std::input_iterator_tag, typename std::iterator_traits<InputIterator>::iterator_category>, int> = 0> //TODO: [C++20] replace with concepts/requires-clause
diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 529c384..c649c2e 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -190,9 +190,6 @@ namespace ptl {
 			constexpr
 			contiguous_iterator(pointer ptr) noexcept : ptr{ptr} {}
 
-			constexpr
-			operator contiguous_iterator<false>() const noexcept { return contiguous_iterator<false>{const_cast<Type *>(ptr)}; }
-
 			pointer ptr{nullptr};
 		};
 
@@ -354,11 +351,11 @@ namespace ptl {
 		auto erase(const_iterator pos) noexcept -> iterator { return erase(pos, pos + 1); } //TODO: [C++??] precondition(pos != end());
 		auto erase(const_iterator first, const_iterator last) noexcept -> iterator { //TODO: [C++??] precondition(begin() <= first && first <= last && last <= end());
 			const auto count{static_cast<size_type>(std::distance(first, last))};
-			if(count == 0) return first; //nothing to do, prevents self-move of the trailing elements
+			if(count == 0) return const_cast<Type *>(first.ptr); //nothing to do, prevents self-move of the trailing elements
 			std::move(const_cast<Type *>(last.ptr), data() + size(), const_cast<Type *>(first.ptr));
 			std::destroy(data() + size() - count, data() + size());
 			storage.set_size(size() - count);
-			return first;
+			return const_cast<Type *>(first.ptr);
 		}
 
 		template<typename InputIterator, std::enable_if_t<std::is_same_v<std::input_iterator_tag, typename std::iterator_traits<InputIterator>::iterator_category>, int> = 0> //TODO: [C++20] replace with concepts/requires-clause
-- 
2.43.0


From 0179d14532d50739cdc539759de2cbd6e5544b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:26 +0000
Subject: [PATCH 13/29] fix: string operations with huge counts wrapped around
 and corrupted memory

---
 inc/ptl/string.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index 93582c8..21e7fcb 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -53,6 +53,7 @@ namespace ptl {
 			storage_t() noexcept { clear_to_sso(); }
 
 			storage_t(std::size_t required) {
+				if(required > max_size()) throw std::length_error{"ptl::string - allocation attempting to exceed max_size"};
 				if(required > sso_size) {
 					dealloc = +[](char * ptr) noexcept { delete[] ptr; }; 
 					heap.siz = 0;
@@ -241,10 +242,15 @@ namespace ptl {
 			return tmp;
 		}
 
+		auto grown_size(std::size_t additional_size) const -> std::size_t {
+			if(additional_size > max_size() - size()) throw std::length_error{"ptl::string - exceeding max_size"};
+			return size() + additional_size;
+		}
+
 		template<typename Func>
 		void append_no_aliasing(std::size_t additional_size, Func fill) {
 			const auto old{size()};
-			resize(old + additional_size);
+			resize(grown_size(additional_size));
 			fill(old);
 		}
 
@@ -258,7 +264,7 @@ namespace ptl {
 		auto insert_no_aliasing(contiguous_iterator<true> pos, std::size_t additional_size, Func fill) {
 			const auto old{size()};
 			const auto offset{pos.ptr - data()};
-			resize(old + additional_size);
+			resize(grown_size(additional_size));
 			std::copy_backward(data() + offset, data() + old, data() + size());
 			fill();
 			return begin() + offset;
@@ -269,7 +275,7 @@ namespace ptl {
 			const auto offset{first.ptr - data()};
 			if(const auto count{static_cast<std::size_t>(last - first)}; count < required_size) { //not enough space in target location
 				const auto old{size()};
-				resize(size() + (required_size - count));
+				resize(grown_size(required_size - count));
 				std::copy_backward(data() + offset + count, data() + old, data() + size());
 				fill(offset);
 			} else { //directly overwrite and shrink afterwards
-- 
2.43.0


From c50849afa0198697e441658d4557853ac5d8b19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:26 +0000
Subject: [PATCH 14/29] fix: a throwing source iterator left a string without
 terminator

---
 inc/ptl/string.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index 21e7fcb..3320ae4 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -247,6 +247,16 @@ namespace ptl {
 			return size() + additional_size;
 		}
 
+		template<typename ForwardIterator>
+		void copy_behind_end(ForwardIterator first, ForwardIterator last) { //TODO: [C++??] precondition(size() + distance(first, last) <= capacity());
+			try {
+				std::copy(first, last, data() + size());
+			} catch(...) {
+				storage.set_size(size()); //restore terminator
+				throw;
+			}
+		}
+
 		template<typename Func>
 		void append_no_aliasing(std::size_t additional_size, Func fill) {
 			const auto old{size()};
@@ -430,7 +440,7 @@ namespace ptl {
 		void append(ForwardIterator first, ForwardIterator last) {
 			const auto distance{static_cast<std::size_t>(std::distance(first, last))};
 			if(distance + size() <= capacity()) { //no need for allocation nor double buffering
-				std::copy(first, last, data() + size());
+				copy_behind_end(first, last);
 				storage.set_size(size() + distance);
 			} else { //do single allocation
 				storage_t tmp{size() + distance};
@@ -449,7 +459,7 @@ namespace ptl {
 		template<typename ForwardIterator, std::enable_if_t<std::is_base_of_v<std::forward_iterator_tag, typename std::iterator_traits<ForwardIterator>::iterator_category>, int> = 0> //TODO: [C++20] replace with concepts/requires-clause
 		void assign(ForwardIterator first, ForwardIterator last) {
 			if(const auto distance{static_cast<std::size_t>(std::distance(first, last))}; distance + size() <= capacity()) { //no need for allocation nor double buffering
-				std::copy(first, last, data() + size());
+				copy_behind_end(first, last);
 				std::rotate(data(), data() + size(), data() + size() + distance);
 				storage.set_size(distance);
 			} else {
@@ -477,7 +487,7 @@ namespace ptl {
 			const auto distance{static_cast<std::size_t>(std::distance(first, last))};
 			const auto offset{pos.ptr - data()};
 			if(distance + size() <= capacity()) { //no need for allocation nor double buffering
-				std::copy(first, last, data() + size());
+				copy_behind_end(first, last);
 				std::rotate(const_cast<char *>(pos.ptr), data() + size(), data() + size() + distance);
 				storage.set_size(size() + distance);
 			} else { //do single allocation
@@ -505,7 +515,7 @@ namespace ptl {
 		auto replace(const_iterator first, const_iterator last, ForwardIterator first2, ForwardIterator last2) -> string & { //TODO: [C++??] precondition(begin() <= first && first <= last && last <= end());
 			const auto distance{static_cast<std::size_t>(std::distance(first2, last2))};
 			if(distance + size() <= capacity()) { //no need for allocation nor double buffering
-				std::copy(first2, last2, data() + size());
+				copy_behind_end(first2, last2);
 				const auto offset_first{first.ptr - data()};
 				const auto offset_mid{size() - (last - first)};
 				storage.set_size(size() + distance);
-- 
2.43.0


From a65885274a9ff296c5c2da9cf5a7dd8c8640ab81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:26 +0000
Subject: [PATCH 15/29] fix: variant::emplace required every alternative to be
 constructible from the arguments

---
 inc/ptl/variant.hpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index fc88f7e..281d45e 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -123,14 +123,6 @@ namespace ptl {
 			return visit<Move>(indices, type, storage, combined_visitor{std::forward<Visitors>(visitors)...});
 		}
 
-		template<std::size_t... Indices, typename Storage, typename... Args>
-		constexpr
-		void emplace(std::index_sequence<Indices...>, std::size_t type, Storage & storage, Args &&... args) {  //TODO: [C++??] precondition(union in storage is uninitialized);
-			using Dispatch = void(*)(Storage &, Args &&...);
-			constexpr Dispatch dispatch[]{+[](Storage & storage, Args &&... args) { storage.template set<Indices>(std::forward<Args>(args)...); }...};
-			dispatch[type](storage, std::forward<Args>(args)...);
-		}
-
 		template<bool Move, typename Storage, std::size_t... Indices>
 		constexpr
 		void assign(std::index_sequence<Indices...>, std::size_t type, Storage & lhs, std::conditional_t<Move, Storage, const Storage> & rhs) noexcept(Move) { //TODO: [C++??] precondition(lhs is uninitialized);
@@ -257,7 +249,7 @@ namespace ptl {
 			if constexpr(std::is_nothrow_constructible_v<T, Args...>) {
 				internal_variant::destroy(indices_t{}, type, storage);
 				constexpr auto index{internal_variant::determine_index<std::decay_t<T>, Head, Tail...>()};
-				internal_variant::emplace(indices_t{}, index, storage, std::forward<Args>(args)...);
+				storage.template set<index>(std::forward<Args>(args)...);
 				type = index;
 			} else {
 				variant tmp{std::in_place_type<T>, std::forward<Args>(args)...};
-- 
2.43.0


From 052d8782baeb22d3a59ad888775ec138caef391e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:26 +0000
Subject: [PATCH 16/29] fix: function_ref with reference results returned (or
 required) copies

---
 inc/ptl/function_ref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/function_ref.hpp b/inc/ptl/function_ref.hpp
index c23af4f..b67e899 100644
--- a/inc/ptl/function_ref.hpp
+++ b/inc/ptl/function_ref.hpp
@@ -46,7 +46,7 @@ namespace ptl {
 
 		template<typename R, typename F, typename... Args, typename = std::enable_if_t<std::is_invocable_r_v<R, F, Args...>>> //TODO: [C++20] replace with concepts/requires-clause
 		constexpr
-		auto invoke_r(F && f, Args &&... args) noexcept(std::is_nothrow_invocable_r_v<R, F, Args...>) { //TODO: [C++23] replace with std::invoke_r
+		auto invoke_r(F && f, Args &&... args) noexcept(std::is_nothrow_invocable_r_v<R, F, Args...>) -> R { //TODO: [C++23] replace with std::invoke_r
 			if constexpr(std::is_void_v<R>) std::invoke(std::forward<F>(f), std::forward<Args>(args)...);
 			else return std::invoke(std::forward<F>(f), std::forward<Args>(args)...);
 		}
-- 
2.43.0


From 91bc1da8cb5d244fbe6e54b1d3ea49f3b2e06cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:26 +0000
Subject: [PATCH 17/29] fix: function_ref with const signature called the
 non-const overload of the target

---
 inc/ptl/function_ref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/function_ref.hpp b/inc/ptl/function_ref.hpp
index b67e899..23b1abb 100644
--- a/inc/ptl/function_ref.hpp
+++ b/inc/ptl/function_ref.hpp
@@ -114,7 +114,7 @@ namespace ptl {
 
 		template<typename F, typename T = std::remove_reference_t<F>, typename = std::enable_if_t<!std::is_same_v<function_ref, internal_function_ref::remove_cvref_t<F>> && !std::is_member_pointer_v<T> && traits::template is_invocable_using<typename traits::template const_<T> &>>>//TODO: [C++20] replace with concepts/requires-clause
 		constexpr
-		function_ref(F && func) noexcept : storage{std::addressof(func)}, dispatch{traits::template functor<T>} {}
+		function_ref(F && func) noexcept : storage{std::addressof(static_cast<typename traits::template const_<T> &>(func))}, dispatch{traits::template functor<typename traits::template const_<T>>} {}
 
 		constexpr
 		function_ref(const function_ref &) noexcept =default;
-- 
2.43.0


From 24a75c078e39a1b571b77a89c1437b5a01c2f5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:26 +0000
Subject: [PATCH 18/29] fix: array could not be constructed from lvalues due to
 a reversed constraint

---
 inc/ptl/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/array.hpp b/inc/ptl/array.hpp
index dc13c95..1210835 100644
--- a/inc/ptl/array.hpp
+++ b/inc/ptl/array.hpp
@@ -174,7 +174,7 @@ namespace ptl {
 		using reverse_iterator       = std::reverse_iterator<      iterator>;
 		using const_reverse_iterator = std::reverse_iterator<const_iterator>;
 
-		template<typename... Args, typename = std::enable_if_t<(std::is_convertible_v<Type, Args> &&...)>> //TODO: [C++20] replace with concepts/requires-clause
+		template<typename... Args, typename = std::enable_if_t<(std::is_convertible_v<Args, Type> &&...)>> //TODO: [C++20] replace with concepts/requires-clause
 		constexpr
 		array(Args &&... args) : values{std::forward<Args>(args)...} {}
 
-- 
2.43.0


From f43ce29e38eb512181f7d6a645558deb6c84aa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:26 +0000
Subject: [PATCH 19/29] fix: array_ref to a base class could be created from a
 range of a derived class

---
 inc/ptl/array_ref.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/ptl/array_ref.hpp b/inc/ptl/array_ref.hpp
index 9069c86..509ae1c 100644
--- a/inc/ptl/array_ref.hpp
+++ b/inc/ptl/array_ref.hpp
@@ -31,7 +31,7 @@ namespace ptl {
 
 			static
 			constexpr
-			auto rebind(Type * ) noexcept -> valid;
+			auto rebind(Type (*)[]) noexcept -> valid;
 			static
 			constexpr
 			auto rebind(...) noexcept -> invalid;
@@ -45,7 +45,7 @@ namespace ptl {
 				if constexpr(std::is_same_v<Pointer, invalid>) return false;
 				else {
 					static_assert(std::is_pointer_v<Pointer>);
-					using Rebind = decltype(rebind(Pointer{}));
+					using Rebind = decltype(rebind(static_cast<std::remove_pointer_t<Pointer>(*)[]>(nullptr)));
 					return std::is_same_v<Rebind, valid>;
 				}
 			}
-- 
2.43.0


From 60a2548845f806d12753121c3c3cb56864c4b4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:35 +0000
Subject: [PATCH 20/29] fix: vector leaked an element if incrementing a source
 iterator threw

---
 inc/ptl/vector.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index c649c2e..f5753b2 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -193,6 +193,25 @@ namespace ptl {
 			pointer ptr{nullptr};
 		};
 
+		template<typename ForwardIterator>
+		static
+		void uninitialized_copy(ForwardIterator first, ForwardIterator last, Type * pos) { //contrary to std::uninitialized_copy doesn't leak an element if incrementing the iterator throws
+			if constexpr(std::is_trivially_destructible_v<Type>) std::uninitialized_copy(first, last, pos);
+			else {
+				auto current{pos};
+				try {
+					while(first != last) {
+						::new(static_cast<void *>(current)) Type(*first);
+						++current;
+						++first;
+					}
+				} catch(...) {
+					std::destroy(pos, current);
+					throw;
+				}
+			}
+		}
+
 		template<typename Func>
 		void assign_impl(std::size_t required_size, Func func) {
 			if(required_size <= capacity() - size()) { //no need for allocation nor double buffering
@@ -344,7 +363,7 @@ namespace ptl {
 		template<typename InputIterator, std::enable_if_t<std::is_same_v<std::input_iterator_tag, typename std::iterator_traits<InputIterator>::iterator_category>, int> = 0> //TODO: [C++20] replace with concepts/requires-clause
 		void assign(InputIterator first, InputIterator last) { *this = vector(first, last); }
 		template<typename ForwardIterator, std::enable_if_t<std::is_base_of_v<std::forward_iterator_tag, typename std::iterator_traits<ForwardIterator>::iterator_category>, int> = 0> //TODO: [C++20] replace with concepts/requires-clause
-		void assign(ForwardIterator first, ForwardIterator last) { assign_impl(std::distance(first, last), [&](auto pos) { std::uninitialized_copy(first, last, pos); }); }
+		void assign(ForwardIterator first, ForwardIterator last) { assign_impl(std::distance(first, last), [&](auto pos) { uninitialized_copy(first, last, pos); }); }
 		void assign(std::initializer_list<Type> ilist) { assign(ilist.begin(), ilist.end()); }
 		void assign(size_type count, const Type & value) { assign_impl(count, [&](auto pos) { std::uninitialized_fill_n(pos, count, value); }); }
 
@@ -364,7 +383,7 @@ namespace ptl {
 			return insert(pos, std::make_move_iterator(tmp.data()), std::make_move_iterator(tmp.data() + tmp.size()));
 		}
 		template<typename ForwardIterator, std::enable_if_t<std::is_base_of_v<std::forward_iterator_tag, typename std::iterator_traits<ForwardIterator>::iterator_category>, int> = 0> //TODO: [C++20] replace with concepts/requires-clause
-		auto insert(const_iterator pos, ForwardIterator first, ForwardIterator last) -> iterator { return insert_impl(pos, std::distance(first, last), [&](auto pos) { std::uninitialized_copy(first, last, pos); }); } //TODO: [C++??] precondition(begin() <= pos && pos <= end());
+		auto insert(const_iterator pos, ForwardIterator first, ForwardIterator last) -> iterator { return insert_impl(pos, std::distance(first, last), [&](auto pos) { uninitialized_copy(first, last, pos); }); } //TODO: [C++??] precondition(begin() <= pos && pos <= end());
 		auto insert(const_iterator pos, std::initializer_list<Type> ilist) -> iterator { return insert(pos, ilist.begin(), ilist.end()); }
 		auto insert(const_iterator pos, const Type & value) -> iterator { return insert(pos, 1, value); }
 		auto insert(const_iterator pos, Type && value) -> iterator { return emplace(pos, std::move(value)); }
-- 
2.43.0


From dfe700c0e027d152f79613ec851382d4589cdba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:03 +0000
Subject: [PATCH 21/29] fix: tuple with one member could not be copied from a
 non-const lvalue

---
 inc/ptl/tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/tuple.hpp b/inc/ptl/tuple.hpp
index eb02e63..365c93a 100644
--- a/inc/ptl/tuple.hpp
+++ b/inc/ptl/tuple.hpp
@@ -88,7 +88,7 @@ namespace ptl {
 
 		internal_tuple::storage_t<Types...> storage;
 	public:
-		template<typename... Args, typename = std::enable_if_t<sizeof...(Args) == sizeof...(Types) || sizeof...(Args) == 0>> //TODO: [C++20] replace with concepts/requires-clause
+		template<typename... Args, typename = std::enable_if_t<(sizeof...(Args) == sizeof...(Types) || sizeof...(Args) == 0) && !(std::is_same_v<std::remove_cv_t<std::remove_reference_t<Args>>, tuple> || ...)>> //TODO: [C++20] replace with concepts/requires-clause
 		constexpr
 		tuple(Args &&... args) : storage{std::forward<Args>(args)...} {}
 
-- 
2.43.0


From c1afd6803d19fd92f26baf50dad2c492d9a47f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:35 +0000
Subject: [PATCH 22/29] fix: variant assignment read its source after
 destroying it, if the source was part of the old value

---
 inc/ptl/variant.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index 281d45e..c16a82d 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -220,15 +220,16 @@ namespace ptl {
 				variant tmp{other};
 				internal_variant::destroy(indices_t{}, type, storage);
 				internal_variant::assign<true>(indices_t{}, tmp.type, storage, tmp.storage);
-				type = other.type;
+				type = tmp.type; //other may have been part of the destroyed value
 			}
 			return *this;
 		}
 		auto operator=(variant && other) noexcept -> variant & {
 			if(this != &other) { //TODO: [C++20] use [[likely]]
+				variant tmp{std::move(other)}; //other may be part of the value to destroy
 				internal_variant::destroy(indices_t{}, type, storage);
-				internal_variant::assign<true>(indices_t{}, other.type, storage, other.storage);
-				type = other.type;
+				internal_variant::assign<true>(indices_t{}, tmp.type, storage, tmp.storage);
+				type = tmp.type;
 			}
 			return *this;
 		}
-- 
2.43.0


From 5090ec9b2213b1ab7f78030e8706eef3cc9ce578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:35 +0000
Subject: [PATCH 23/29] fix: vector move assignment read its source after
 destroying it, if the source was part of an own element

---
 inc/ptl/vector.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index f5753b2..e943264 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -65,14 +65,8 @@ namespace ptl {
 
 			auto operator=(storage_t && other) noexcept -> storage_t & {
 				if(this != std::addressof(other)) { //TODO: [C++20] use [[likely]]
-					if(dealloc) {
-						std::destroy_n(ptr, siz);
-						dealloc(ptr);
-					}
-					dealloc = std::exchange(other.dealloc, nullptr);
-					ptr = std::exchange(other.ptr, nullptr);
-					cap = std::exchange(other.cap, 0);
-					siz = std::exchange(other.siz, 0);
+					storage_t tmp{std::move(other)}; //other may be part of an element to destroy
+					swap(tmp);
 				}
 				return *this;
 			}
-- 
2.43.0


From 3faf4a5e422adaa9673248a04b91566781f13c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:49 +0000
Subject: [PATCH 24/29] fix: bitset output applied the stream's width to the
 first digit only

---
 inc/ptl/bitset.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index 7acff9f..4f43c06 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -9,6 +9,7 @@
 #include <istream>
 #include <ostream>
 #include <memory>
+#include <string>
 #include <numeric>
 #include <algorithm>
 #include <stdexcept>
@@ -337,8 +338,11 @@ namespace ptl {
 
 		friend
 		auto operator<<(std::ostream & os, const bitset & self) -> std::ostream & {
-			for(size_type i{Size}; i != 0; --i) os << (self.test(i - 1) ? '1' : '0');
-			return os;
+			std::string digits(Size, '0'); //written at once, as the stream's width applies to the complete text
+			for(size_type i{0}; i < Size; ++i)
+				if(self[i])
+					digits[Size - 1 - i] = '1';
+			return os << digits;
 		}
 		friend
 		auto operator>>(std::istream & is,       bitset & self) -> std::istream & {
-- 
2.43.0


From 36718e445415337998249b4ecbe5ffacfc36b744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:58 +0000
Subject: [PATCH 25/29] fix: optional: copying or moving an element must not
 select its initializer_list-constructor

---
 inc/ptl/optional.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/inc/ptl/optional.hpp b/inc/ptl/optional.hpp
index 781cb9f..82dfd7c 100644
--- a/inc/ptl/optional.hpp
+++ b/inc/ptl/optional.hpp
@@ -36,14 +36,14 @@ namespace ptl {
 		optional(std::nullopt_t) noexcept {}
 
 		constexpr
-		optional(const optional & other) : initialized{other.initialized} { if(other) new(std::addressof(val)) Type{other.val}; } //TODO: [C++20] use std::construct_at
+		optional(const optional & other) : initialized{other.initialized} { if(other) new(std::addressof(val)) Type(other.val); } //TODO: [C++20] use std::construct_at
 		constexpr
-		optional(optional && other) noexcept : initialized{other.initialized} { if(other) new(std::addressof(val)) Type{std::move(other.val)}; } //TODO: [C++20] use std::construct_at
+		optional(optional && other) noexcept : initialized{other.initialized} { if(other) new(std::addressof(val)) Type(std::move(other.val)); } //TODO: [C++20] use std::construct_at
 
 		constexpr
-		optional(const Type & value) : initialized{true} { new(std::addressof(val)) Type{value}; } //TODO: [C++20] use std::construct_at
+		optional(const Type & value) : initialized{true} { new(std::addressof(val)) Type(value); } //TODO: [C++20] use std::construct_at
 		constexpr
-		optional(Type && value) noexcept : initialized{true} { new(std::addressof(val)) Type{std::move(value)}; } //TODO: [C++20] use std::construct_at
+		optional(Type && value) noexcept : initialized{true} { new(std::addressof(val)) Type(std::move(value)); } //TODO: [C++20] use std::construct_at
 
 		template<typename... Args>
 		constexpr
@@ -77,7 +77,7 @@ namespace ptl {
 		auto operator=(const Type & value) -> optional & {
 			if(initialized) **this = value;
 			else {
-				new(std::addressof(val)) Type{value}; //TODO: [C++20] use std::construct_at
+				new(std::addressof(val)) Type(value); //TODO: [C++20] use std::construct_at
 				initialized = true;
 			}
 			return *this;
@@ -86,7 +86,7 @@ namespace ptl {
 		auto operator=(Type && value) noexcept -> optional & {
 			if(initialized) **this = std::move(value);
 			else {
-				new(std::addressof(val)) Type{std::move(value)}; //TODO: [C++20] use std::construct_at
+				new(std::addressof(val)) Type(std::move(value)); //TODO: [C++20] use std::construct_at
 				initialized = true;
 			}
 			return *this;
@@ -172,12 +172,12 @@ namespace ptl {
 			if(this == &other) return; //TODO: [C++20] use [[unlikely]]
 			if(!*this && !other) return;
 			else if(*this && !other) {
-				new(std::addressof(other.val)) Type{std::move(val)}; //TODO: [C++20] use std::construct_at
+				new(std::addressof(other.val)) Type(std::move(val)); //TODO: [C++20] use std::construct_at
 				other.initialized = true;
 				std::destroy_at(std::addressof(val));
 				initialized = false;
 			} else if(!*this && other) {
-				new(std::addressof(val)) Type{std::move(other.val)}; //TODO: [C++20] use std::construct_at
+				new(std::addressof(val)) Type(std::move(other.val)); //TODO: [C++20] use std::construct_at
 				initialized = true;
 				std::destroy_at(std::addressof(other.val));
 				other.initialized = false;
-- 
2.43.0


From 4833988791e0ed1ba850cefc47d20e3eec4ed204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:58 +0000
Subject: [PATCH 26/29] fix: variant: copying or moving an element must not
 select its initializer_list-constructor

---
 inc/ptl/variant.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index c16a82d..0a10d8e 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -48,6 +48,7 @@ namespace ptl {
 			constexpr
 			void set(Args &&... args) { //TODO: [C++??] precondition(val is uninitialized);
 				if constexpr(I != 0) next.template set<I - 1>(std::forward<Args>(args)...);
+				else if constexpr((std::is_same_v<std::decay_t<Args>, Head> && ...) && sizeof...(Args) == 1) new(std::addressof(val)) Head(std::forward<Args>(args)...); //copies and moves must not select an initializer_list-constructor
 				else new(std::addressof(val)) Head{std::forward<Args>(args)...}; //TODO: [C++20] use std::construct_at here
 			}
 
-- 
2.43.0


From 45ce84da56d4670b97c2ba1c7bae69f6f75c406b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:58 +0000
Subject: [PATCH 27/29] fix: vector: copying or moving an element must not
 select its initializer_list-constructor

---
 inc/ptl/vector.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index e943264..728b9b0 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -383,7 +383,12 @@ namespace ptl {
 		auto insert(const_iterator pos, Type && value) -> iterator { return emplace(pos, std::move(value)); }
 		auto insert(const_iterator pos, size_type count, const Type & value) -> iterator { return insert_impl(pos, count, [&](auto pos) { std::uninitialized_fill_n(pos, count, value); }); }
 		template<typename... Args>
-		auto emplace(const_iterator pos, Args &&... args) -> iterator { return insert_impl(pos, 1, [&](auto pos) { new(pos) Type{std::forward<Args>(args)...}; }); } //TODO: [C++20] use construct_at
+		auto emplace(const_iterator pos, Args &&... args) -> iterator {
+			return insert_impl(pos, 1, [&](auto pos) {
+				if constexpr((std::is_same_v<std::decay_t<Args>, Type> && ...) && sizeof...(Args) == 1) new(pos) Type(std::forward<Args>(args)...); //copies and moves must not select an initializer_list-constructor
+				else new(pos) Type{std::forward<Args>(args)...};
+			});
+		} //TODO: [C++20] use construct_at
 
 		auto begin() const noexcept -> const_iterator { return data(); }
 		auto begin()       noexcept ->       iterator { return data(); }
-- 
2.43.0


From 772fb5358ebf5b02b8f07aa865c70eea595c2ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:58 +0000
Subject: [PATCH 28/29] fix: tuple: copying or moving an element must not
 select its initializer_list-constructor

---
 inc/ptl/tuple.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/inc/ptl/tuple.hpp b/inc/ptl/tuple.hpp
index 365c93a..ed153bf 100644
--- a/inc/ptl/tuple.hpp
+++ b/inc/ptl/tuple.hpp
@@ -42,11 +42,18 @@ namespace ptl {
 			auto less(const storage_t &) noexcept { return false; }
 		};
 
+		template<typename Type, typename Arg>
+		constexpr
+		auto make(Arg && arg) -> Type {
+			if constexpr(std::is_same_v<std::remove_cv_t<Type>, std::decay_t<Arg>>) return Type(std::forward<Arg>(arg)); //copies and moves must not select an initializer_list-constructor
+			else return Type{std::forward<Arg>(arg)};
+		}
+
 		#pragma pack(push, 1)
 		template<typename Head, typename... Tail>
 		struct storage_t<Head, Tail...> : storage_t<Tail...> {
 			template<typename Arg, typename... Args>
-			storage_t(Arg && arg, Args &&... args) : storage_t<Tail...>{std::forward<Args>(args)...}, value{std::forward<Arg>(arg)} {}
+			storage_t(Arg && arg, Args &&... args) : storage_t<Tail...>{std::forward<Args>(args)...}, value(internal_tuple::make<Head>(std::forward<Arg>(arg))) {}
 
 			template<std::size_t Index>
 			constexpr
-- 
2.43.0


From 612e10738af090003ac1e285b881da0565d3a9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:17 +0000
Subject: [PATCH 29/29] fix: array with elements constructible from anything
 could not be copied from a non-const lvalue

---
 inc/ptl/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/array.hpp b/inc/ptl/array.hpp
index 1210835..a9352c4 100644
--- a/inc/ptl/array.hpp
+++ b/inc/ptl/array.hpp
@@ -174,7 +174,7 @@ namespace ptl {
 		using reverse_iterator       = std::reverse_iterator<      iterator>;
 		using const_reverse_iterator = std::reverse_iterator<const_iterator>;
 
-		template<typename... Args, typename = std::enable_if_t<(std::is_convertible_v<Args, Type> &&...)>> //TODO: [C++20] replace with concepts/requires-clause
+		template<typename... Args, typename = std::enable_if_t<sizeof...(Args) != 1 || !(std::is_same_v<std::decay_t<Args>, array> && ...)>, typename = std::enable_if_t<(std::is_convertible_v<Args, Type> &&...)>> //TODO: [C++20] replace with concepts/requires-clause
 		constexpr
 		array(Args &&... args) : values{std::forward<Args>(args)...} {}
 
-- 
2.43.0

