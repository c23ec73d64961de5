From 55f387230239206e4914a3c1b9e845ae1aa0ac16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 01/19] fix: reject a document followed by a stray '/' or an
 unterminated comment

skip_whitespace() returns false both at the end and on a '/' that does not
start a comment; parse() took either for the end of the document.
---
 include/parser/parser_impl.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 94b601e..15f4386 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -38,7 +38,7 @@ inline std::optional<value> parser<accept_jsonc, parsing_t, accel_traits>::parse
     }
 
     // After the parsing is complete, there should be no more content other than spaces behind
-    if (skip_whitespace()) {
+    if (skip_whitespace() || (_cur != _end && *_cur != '\0')) {
         return std::nullopt;
     }
 
@@ -525,7 +525,11 @@ inline bool parser<accept_jsonc, parsing_t, accel_traits>::skip_comment() noexce
         return false;
     }
 
+    // Where to stay if this turns out not to be a complete comment
+    const auto comment_beg = _cur;
+
     if (++_cur == _end) {
+        _cur = comment_beg;
         return false;
     }
 
@@ -544,6 +548,7 @@ inline bool parser<accept_jsonc, parsing_t, accel_traits>::skip_comment() noexce
         t = comment_type::block;
         break;
     default:
+        _cur = comment_beg;
         return false;
     }
 
@@ -566,7 +571,12 @@ inline bool parser<accept_jsonc, parsing_t, accel_traits>::skip_comment() noexce
     }
 
     // _cur == _end
-    return t == comment_type::line;
+    if (t == comment_type::line) {
+        return true;
+    }
+
+    _cur = comment_beg;
+    return false;
 }
 
 template <bool accept_jsonc, typename parsing_t, typename accel_traits>
-- 
2.43.0


From e3ff337c1bc2315dd462c42c2d7f531f5c97a964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 02/19] fix: do not skip plain characters after an unpaired
 high surrogate

The block scan stepped over characters between the two halves of a surrogate
pair, so that \ud83dX\udca9 was accepted or not depending on the block size.
---
 include/parser/parser_impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 15f4386..7047289 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -316,7 +316,8 @@ inline std::optional<std::string> parser<accept_jsonc, parsing_t, accel_traits>:
 
     while (_cur != _end) {
         if constexpr (sizeof(*_cur) == 1 && accel_traits::available) {
-            if (!skip_string_literal_with_accel()) {
+            // an unpaired high surrogate must be followed by an escape, there is nothing to skip
+            if (!pair_high && !skip_string_literal_with_accel()) {
                 return std::nullopt;
             }
         }
-- 
2.43.0


From a091ff42b0b8760f4ea995b112909955e1ce5a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 03/19] fix: use block loads only on contiguous containers

Parsing a std::deque<char> read past the end of its chunks.
---
 include/common/utils.hpp       | 7 +++++++
 include/parser/parser_impl.hpp | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index 6a3eeeb..f499844 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -5,6 +5,7 @@
 #include <charconv>
 #include <cstddef>
 #include <iomanip>
+#include <iterator>
 #include <limits>
 #include <sstream>
 #include <string>
@@ -58,6 +59,12 @@ constexpr bool is_map = false;
 template <typename T>
 constexpr bool is_map<T, std::void_t<typename T::key_type, typename T::mapped_type>> = is_container<T>;
 
+// Elements are stored contiguously, so that they can be loaded in blocks
+template <typename T, typename = void>
+constexpr bool is_contiguous = false;
+template <typename T>
+constexpr bool is_contiguous<T, std::void_t<decltype(std::data(std::declval<const T&>()))>> = true;
+
 template <typename T, typename = void>
 constexpr bool is_fixed_array = false;
 template <template <typename, size_t> typename arr_t, typename value_t, size_t size>
diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 7047289..1b8693c 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -315,7 +315,7 @@ inline std::optional<std::string> parser<accept_jsonc, parsing_t, accel_traits>:
     uint16_t pair_high = 0;
 
     while (_cur != _end) {
-        if constexpr (sizeof(*_cur) == 1 && accel_traits::available) {
+        if constexpr (sizeof(*_cur) == 1 && accel_traits::available && _utils::is_contiguous<parsing_t>) {
             // an unpaired high surrogate must be followed by an escape, there is nothing to skip
             if (!pair_high && !skip_string_literal_with_accel()) {
                 return std::nullopt;
-- 
2.43.0


From 1c8584221a7378b72487a60974d100a59511cf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 04/19] fix: constructing a value from an lvalue wrapper moved
 from its content

value(wrapper_t&&) is a forwarding reference: it also took lvalue optionals
and smart pointers, and emptied what they hold. A shared pointee is not moved
from either.
---
 include/common/utils.hpp | 12 ++++++++++++
 include/common/value.hpp |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index f499844..c49d9e5 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -93,6 +93,18 @@ constexpr bool is_nullable<
 template <typename T, typename = std::enable_if_t<is_nullable<T>>>
 using nullable_value_t = std::decay_t<decltype(*std::declval<T>())>;
 
+// The wrapped value is moved from only if the wrapper is an rvalue which owns it exclusively
+template <typename T>
+constexpr decltype(auto) forward_nullable_value(std::remove_reference_t<T>& wrapper)
+{
+    if constexpr (std::is_lvalue_reference_v<T> || std::is_copy_constructible_v<T>) {
+        return *std::forward<T>(wrapper);
+    }
+    else {
+        return std::move(*wrapper);
+    }
+}
+
 template <typename T>
 constexpr bool is_variant = false;
 template <typename... args_t>
diff --git a/include/common/value.hpp b/include/common/value.hpp
index 2e304ba..9d29125 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -143,7 +143,7 @@ public:
                 && !_utils::has_to_json_in_member<wrapper_t>::value && !_utils::has_to_json_in_templ_spec<wrapper_t>::value,
             bool> = true>
     value(wrapper_t&& wrapper)
-        : value(wrapper ? value(std::move(*wrapper)) : value())
+        : value(wrapper ? value(_utils::forward_nullable_value<wrapper_t>(wrapper)) : value())
     {
     }
 
-- 
2.43.0


From a4c5139fc048d1a8dffffda5d5f5100477390580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 05/19] fix: leave a moved-from value null

It kept its array or object type with a null pointer: reading it crashed.
---
 include/common/value_impl.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 0838137..1408ce9 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -83,7 +83,11 @@ inline value::value(const value& rhs)
 {
 }
 
-inline value::value(value&& rhs) noexcept = default;
+inline value::value(value&& rhs) noexcept
+    : _type(std::exchange(rhs._type, value_type::null))
+    , _raw_data(std::exchange(rhs._raw_data, var_t {}))
+{
+}
 
 inline value::value(bool b)
     : _type(value_type::boolean)
@@ -851,7 +855,13 @@ inline value& value::operator=(const value& rhs)
     return *this;
 }
 
-inline value& value::operator=(value&& rhs) noexcept = default;
+inline value& value::operator=(value&& rhs) noexcept
+{
+    _type = std::exchange(rhs._type, value_type::null);
+    _raw_data = std::exchange(rhs._raw_data, var_t {});
+
+    return *this;
+}
 
 inline bool value::operator==(const value& rhs) const
 {
-- 
2.43.0


From d66f22058f868a04a02c9602eec8d89f49d2d421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 06/19] fix: assignment from an element of the assigned value

v = std::move(v["a"]), arr = arr[0].as_array() and the like destroyed the
source before or while reading it.
---
 include/common/array_impl.hpp  | 17 +++++++++++++++--
 include/common/object_impl.hpp | 17 +++++++++++++++--
 include/common/value_impl.hpp  |  6 ++++--
 3 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/include/common/array_impl.hpp b/include/common/array_impl.hpp
index af1cf4c..af066cf 100644
--- a/include/common/array_impl.hpp
+++ b/include/common/array_impl.hpp
@@ -23,8 +23,21 @@ inline array::array() = default;
 inline array::array(const array& rhs) = default;
 inline array::array(array&& rhs) noexcept = default;
 inline array::~array() noexcept = default;
-inline array& array::operator=(const array&) = default;
-inline array& array::operator=(array&&) noexcept = default;
+
+inline array& array::operator=(const array& rhs)
+{
+    // rhs may be nested in *this
+    raw_array temp = rhs._array_data;
+    _array_data.swap(temp);
+    return *this;
+}
+
+inline array& array::operator=(array&& rhs) noexcept
+{
+    raw_array temp = std::move(rhs._array_data);
+    _array_data.swap(temp);
+    return *this;
+}
 
 inline array::array(std::initializer_list<value_type> init_list)
     : _array_data(init_list)
diff --git a/include/common/object_impl.hpp b/include/common/object_impl.hpp
index b59a11b..79a624c 100644
--- a/include/common/object_impl.hpp
+++ b/include/common/object_impl.hpp
@@ -25,8 +25,21 @@ inline object::object() = default;
 inline object::object(const object& rhs) = default;
 inline object::object(object&& rhs) noexcept = default;
 inline object::~object() = default;
-inline object& object::operator=(const object&) = default;
-inline object& object::operator=(object&&) noexcept = default;
+
+inline object& object::operator=(const object& rhs)
+{
+    // rhs may be nested in *this
+    raw_object temp = rhs._object_data;
+    _object_data.swap(temp);
+    return *this;
+}
+
+inline object& object::operator=(object&& rhs) noexcept
+{
+    raw_object temp = std::move(rhs._object_data);
+    _object_data.swap(temp);
+    return *this;
+}
 
 inline object::object(std::initializer_list<value_type> init_list)
     : _object_data(std::make_move_iterator(init_list.begin()), std::make_move_iterator(init_list.end()))
diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 1408ce9..3ef8d05 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -857,8 +857,10 @@ inline value& value::operator=(const value& rhs)
 
 inline value& value::operator=(value&& rhs) noexcept
 {
-    _type = std::exchange(rhs._type, value_type::null);
-    _raw_data = std::exchange(rhs._raw_data, var_t {});
+    // rhs may be an element of *this, or *this itself
+    value temp(std::move(rhs));
+    std::swap(_type, temp._type);
+    std::swap(_raw_data, temp._raw_data);
 
     return *this;
 }
-- 
2.43.0


From ea3a7dca422d4612e6a2a115ca714389ddbdb2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 07/19] fix: merging an object nested in the merged one

obj |= obj["a"].as_object() destroyed its source when that has a key "a".
---
 include/common/object_impl.hpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/include/common/object_impl.hpp b/include/common/object_impl.hpp
index 79a624c..3a3a587 100644
--- a/include/common/object_impl.hpp
+++ b/include/common/object_impl.hpp
@@ -6,14 +6,8 @@ namespace json
 {
 namespace _object_impl_detail
 {
-inline void merge_object(object::raw_object& dst, const object& src)
-{
-    for (const auto& [key, val] : src) {
-        dst.insert_or_assign(key, val);
-    }
-}
-
-inline void merge_object_move(object::raw_object& dst, object& src)
+// src is by value: the original may be nested in dst, and be destroyed while assigning
+inline void merge_object(object::raw_object& dst, object::raw_object src)
 {
     for (auto& [key, val] : src) {
         dst.insert_or_assign(key, std::move(val));
@@ -299,38 +293,38 @@ inline value& object::operator[](std::string&& key)
 inline object object::operator|(const object& rhs) const&
 {
     object temp = *this;
-    _object_impl_detail::merge_object(temp._object_data, rhs);
+    _object_impl_detail::merge_object(temp._object_data, rhs._object_data);
     return temp;
 }
 
 inline object object::operator|(object&& rhs) const&
 {
     object temp = *this;
-    _object_impl_detail::merge_object_move(temp._object_data, rhs);
+    _object_impl_detail::merge_object(temp._object_data, std::move(rhs._object_data));
     return temp;
 }
 
 inline object object::operator|(const object& rhs) &&
 {
-    _object_impl_detail::merge_object(_object_data, rhs);
+    _object_impl_detail::merge_object(_object_data, rhs._object_data);
     return std::move(*this);
 }
 
 inline object object::operator|(object&& rhs) &&
 {
-    _object_impl_detail::merge_object_move(_object_data, rhs);
+    _object_impl_detail::merge_object(_object_data, std::move(rhs._object_data));
     return std::move(*this);
 }
 
 inline object& object::operator|=(const object& rhs)
 {
-    _object_impl_detail::merge_object(_object_data, rhs);
+    _object_impl_detail::merge_object(_object_data, rhs._object_data);
     return *this;
 }
 
 inline object& object::operator|=(object&& rhs)
 {
-    _object_impl_detail::merge_object_move(_object_data, rhs);
+    _object_impl_detail::merge_object(_object_data, std::move(rhs._object_data));
     return *this;
 }
 
-- 
2.43.0


From 812585cb384dd83932aee8eaf6f298fe262553dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 08/19] fix: as_array() and as_object() replaced an empty
 container

References obtained earlier were left dangling, also in v |= v.as_object().
---
 include/common/value_impl.hpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 3ef8d05..e22a741 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -643,7 +643,7 @@ inline const object& value::as_object() const
 
 inline array& value::as_array()
 {
-    if (empty()) {
+    if (!is_array() && empty()) {
         _type = value_type::array;
         _raw_data = std::make_unique<array>();
     }
@@ -657,7 +657,7 @@ inline array& value::as_array()
 
 inline object& value::as_object()
 {
-    if (empty()) {
+    if (!is_object() && empty()) {
         _type = value_type::object;
         _raw_data = std::make_unique<object>();
     }
@@ -998,21 +998,11 @@ inline value& value::operator[](size_t pos)
 
 inline value& value::operator[](const std::string& key)
 {
-    if (empty()) {
-        _type = value_type::object;
-        _raw_data = std::make_unique<object>();
-    }
-
     return as_object()[key];
 }
 
 inline value& value::operator[](std::string&& key)
 {
-    if (empty()) {
-        _type = value_type::object;
-        _raw_data = std::make_unique<object>();
-    }
-
     return as_object()[std::move(key)];
 }
 
-- 
2.43.0


From ed3d6a0a8a969e714e23dd164d1840f5c247cbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 09/19] fix: converting an rvalue to a container did not check
 its type

null, "" and {} became empty containers, where a const value throws.
---
 include/common/value.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/common/value.hpp b/include/common/value.hpp
index 9d29125..a3c9f66 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -622,6 +622,9 @@ public:
             bool> = true>
     explicit operator T() &&
     {
+        if (!is_array()) {
+            throw exception("Type error: cannot convert to array, expected=array, " + value_info());
+        }
         return std::move(as_array()).template as<T>();
     }
 
@@ -644,6 +647,9 @@ public:
             bool> = true>
     explicit operator T() &&
     {
+        if (!is_object()) {
+            throw exception("Type error: cannot convert to object, expected=object, " + value_info());
+        }
         return std::move(as_object()).template as<T>();
     }
 
-- 
2.43.0


From 8f4a51b3e200aed6f11c9088d2a09ffd0c4e5c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 10/19] fix: enum_to_string with values beyond int

The value was truncated to int, which named another enumerator.
---
 include/common/enum_reflection.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/common/enum_reflection.hpp b/include/common/enum_reflection.hpp
index a70ae04..3631a7e 100644
--- a/include/common/enum_reflection.hpp
+++ b/include/common/enum_reflection.hpp
@@ -184,15 +184,23 @@ constexpr std::string_view enum_to_string(E val)
 {
     constexpr int min = enum_range<E>::min;
     constexpr int max = enum_range<E>::max;
-    constexpr int range = max - min + 1;
 
     const auto& names = enum_name_storage<E>::names;
 
-    int idx = static_cast<int>(val) - min;
-    if (idx >= 0 && idx < range) {
-        return names[idx];
+    // The underlying type may be wider than int
+    if constexpr (std::is_signed_v<std::underlying_type_t<E>>) {
+        const auto num = static_cast<long long>(val);
+        if (num < min || num > max) {
+            return {};
+        }
     }
-    return {};
+    else {
+        const auto num = static_cast<unsigned long long>(val);
+        if (max < 0 || num > static_cast<unsigned long long>(max) || (min > 0 && num < static_cast<unsigned long long>(min))) {
+            return {};
+        }
+    }
+    return names[static_cast<int>(val) - min];
 }
 
 constexpr bool iequals(std::string_view a, std::string_view b)
-- 
2.43.0


From 7502ff1f982478bde7bfd5fbd89a47fc12d45644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:54 +0000
Subject: [PATCH 11/19] fix: reject a high surrogate escape followed by an
 ordinary escape

---
 include/parser/parser_impl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 1b8693c..edf82ca 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -438,6 +438,9 @@ inline bool parser<accept_jsonc, parsing_t, accel_traits>::skip_unicode_escape(u
         ext_cp = (((pair_high - 0xD800) << 10) | (cp - 0xDC00)) + 0x10000;
         pair_high = 0;
     }
+    else if (pair_high) {
+        return false;
+    }
 
     // utf8
     if (ext_cp <= 0x7F) {
-- 
2.43.0


From 6369caabeefe2f96618221d045248d944b2e3029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 12/19] fix: value::get with a string_view default returned a
 dangling view

---
 include/common/value_impl.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index e22a741..8a7fac1 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -446,11 +446,11 @@ inline auto value::get_helper(const value_t& default_value, first_key_t&& first,
 {
     if constexpr (std::is_constructible_v<std::string, first_key_t>) {
         return is_object() ? as_object().get_helper(default_value, std::forward<first_key_t>(first), std::forward<rest_keys_t>(rest)...)
-                           : default_value;
+                           : _utils::default_or_string(default_value);
     }
     else if constexpr (std::is_integral_v<std::decay_t<first_key_t>>) {
         return is_array() ? as_array().get_helper(default_value, std::forward<first_key_t>(first), std::forward<rest_keys_t>(rest)...)
-                          : default_value;
+                          : _utils::default_or_string(default_value);
     }
     else {
         static_assert(!sizeof(first_key_t), "Parameter must be integral or std::string constructible");
@@ -461,10 +461,12 @@ template <typename value_t, typename unique_key_t>
 inline auto value::get_helper(const value_t& default_value, unique_key_t&& first) const
 {
     if constexpr (std::is_constructible_v<std::string, unique_key_t>) {
-        return is_object() ? as_object().get_helper(default_value, std::forward<unique_key_t>(first)) : default_value;
+        return is_object() ? as_object().get_helper(default_value, std::forward<unique_key_t>(first))
+                           : _utils::default_or_string(default_value);
     }
     else if constexpr (std::is_integral_v<std::decay_t<unique_key_t>>) {
-        return is_array() ? as_array().get_helper(default_value, std::forward<unique_key_t>(first)) : default_value;
+        return is_array() ? as_array().get_helper(default_value, std::forward<unique_key_t>(first))
+                          : _utils::default_or_string(default_value);
     }
     else {
         static_assert(!sizeof(unique_key_t), "Parameter must be integral or std::string constructible");
-- 
2.43.0


From 08e19336d3b7b1cdf41f3c450af61eb88ea76ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 13/19] fix: null converts to an empty optional

---
 include/common/value_impl.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 8a7fac1..21de36f 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -704,6 +704,10 @@ inline value_t value::as() const&
         }
         return dst;
     }
+    else if constexpr (_utils::is_nullable<value_t>) {
+        // A std::optional<T> would rather be constructed from *this converted to T
+        return is_null() ? value_t {} : static_cast<value_t>(*this);
+    }
     else {
         return static_cast<value_t>(*this);
     }
@@ -729,6 +733,10 @@ inline value_t value::as() &&
         }
         return dst;
     }
+    else if constexpr (_utils::is_nullable<value_t>) {
+        // A std::optional<T> would rather be constructed from *this converted to T
+        return is_null() ? value_t {} : static_cast<value_t>(*this);
+    }
     else {
         return static_cast<value_t>(*this);
     }
-- 
2.43.0


From 31c069c3d558ea0f368709f7f885944a3e7cc9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 14/19] fix: conversion to one-element tuples and variants of
 json values

---
 include/common/value.hpp      | 12 ++++++------
 include/common/value_impl.hpp | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/common/value.hpp b/include/common/value.hpp
index a3c9f66..6418fc3 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -540,7 +540,7 @@ public:
         if (is_null()) {
             return std::nullopt;
         }
-        return std::optional<T>(static_cast<T>(*this));
+        return std::optional<T>(as<T>());
     }
 
     template <typename T>
@@ -549,7 +549,7 @@ public:
         if (is_null()) {
             return std::nullopt;
         }
-        return std::optional<T>(static_cast<T>(std::move(*this)));
+        return std::optional<T>(std::move(*this).template as<T>());
     }
 
     template <typename T>
@@ -558,7 +558,7 @@ public:
         if (is_null()) {
             return nullptr;
         }
-        return std::make_shared<T>(static_cast<T>(*this));
+        return std::make_shared<T>(as<T>());
     }
 
     template <typename T>
@@ -567,7 +567,7 @@ public:
         if (is_null()) {
             return nullptr;
         }
-        return std::make_shared<T>(static_cast<T>(std::move(*this)));
+        return std::make_shared<T>(std::move(*this).template as<T>());
     }
 
     template <typename T>
@@ -576,7 +576,7 @@ public:
         if (is_null()) {
             return nullptr;
         }
-        return std::make_unique<T>(static_cast<T>(*this));
+        return std::make_unique<T>(as<T>());
     }
 
     template <typename T>
@@ -585,7 +585,7 @@ public:
         if (is_null()) {
             return nullptr;
         }
-        return std::make_unique<T>(static_cast<T>(std::move(*this)));
+        return std::make_unique<T>(std::move(*this).template as<T>());
     }
 
     // Native support for converting to std::variant<Ts...>
diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 21de36f..0304a0f 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -704,9 +704,9 @@ inline value_t value::as() const&
         }
         return dst;
     }
-    else if constexpr (_utils::is_nullable<value_t>) {
-        // A std::optional<T> would rather be constructed from *this converted to T
-        return is_null() ? value_t {} : static_cast<value_t>(*this);
+    else if constexpr (_utils::is_nullable<value_t> || _utils::is_tuple_like<value_t> || _utils::is_variant<value_t>) {
+        // static_cast would rather construct these from *this converted to an element, e.g. std::optional<T> from T
+        return this->operator value_t();
     }
     else {
         return static_cast<value_t>(*this);
@@ -733,9 +733,9 @@ inline value_t value::as() &&
         }
         return dst;
     }
-    else if constexpr (_utils::is_nullable<value_t>) {
-        // A std::optional<T> would rather be constructed from *this converted to T
-        return is_null() ? value_t {} : static_cast<value_t>(*this);
+    else if constexpr (_utils::is_nullable<value_t> || _utils::is_tuple_like<value_t> || _utils::is_variant<value_t>) {
+        // static_cast would rather construct these from *this converted to an element, e.g. std::optional<T> from T
+        return this->operator value_t();
     }
     else {
         return static_cast<value_t>(*this);
-- 
2.43.0


From ab0fbe4b5a480372933feac6f6dc51fecdfb3843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 15/19] fix: assigning a value to an element of it

root["copy"] = root changed the type of the element before copying the
root, which then threw bad_variant_access.
---
 include/common/value_impl.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 0304a0f..ce9a4a8 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -859,10 +859,8 @@ inline bool value::all() const
 
 inline value& value::operator=(const value& rhs)
 {
-    _type = rhs._type;
-    _raw_data = deep_copy(rhs._raw_data);
-
-    return *this;
+    // *this may be an element of rhs
+    return *this = value(rhs);
 }
 
 inline value& value::operator=(value&& rhs) noexcept
-- 
2.43.0


From c9cfee8048bd197f89ec08c55b05c3744f706fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:28 +0000
Subject: [PATCH 16/19] fix: a reflected field named result was written as an
 empty object

---
 include/reflection/jsonization.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/reflection/jsonization.hpp b/include/reflection/jsonization.hpp
index ba0386b..c929b5a 100644
--- a/include/reflection/jsonization.hpp
+++ b/include/reflection/jsonization.hpp
@@ -428,11 +428,11 @@ namespace json::_private_macro
 #define MEO_TOJSON(...)                                                                                                    \
     json::value to_json() const                                                                                            \
     {                                                                                                                      \
-        json::object result;                                                                                               \
+        json::object _MEOJSON_VARNAME(result);                                                                             \
         json::_jsonization_helper::dumper()._to_json(                                                                      \
-            result,                                                                                                        \
+            _MEOJSON_VARNAME(result),                                                                                      \
             _MEOJSON_EXPAND(_MEOJSON_FOR_EACH(_MEOJSON_KEY_VALUE, __VA_ARGS__)) json::_jsonization_helper::va_arg_end {}); \
-        return result;                                                                                                     \
+        return _MEOJSON_VARNAME(result);                                                                                   \
     }
 
 #define MEO_CHECKJSON(...)                                                                                                 \
-- 
2.43.0


From b57bccd012e176d9a6df8676d3830ee6842ebace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:51 +0000
Subject: [PATCH 17/19] fix: names of enumerators that differ only in case

---
 include/common/enum_reflection.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/common/enum_reflection.hpp b/include/common/enum_reflection.hpp
index 3631a7e..1b97b0a 100644
--- a/include/common/enum_reflection.hpp
+++ b/include/common/enum_reflection.hpp
@@ -232,6 +232,12 @@ std::optional<E> string_to_enum(std::string_view str)
 
     const auto& names = enum_name_storage<E>::names;
 
+    // Names may differ only in case, the exact one goes first
+    for (int i = 0; i < range; ++i) {
+        if (!names[i].empty() && names[i] == str) {
+            return static_cast<E>(i + min);
+        }
+    }
     for (int i = 0; i < range; ++i) {
         if (!names[i].empty()) {
             if (iequals(names[i], str)) {
-- 
2.43.0


From 5f823536d07be6b91300c9a6197aa7a7615d21ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:51 +0000
Subject: [PATCH 18/19] fix: reading a boolean as an enum with underlying type
 bool

---
 include/common/value.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common/value.hpp b/include/common/value.hpp
index 6418fc3..7baa7e3 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -491,7 +491,7 @@ public:
                 throw exception("Cannot convert to enum: invalid enum string value, " + value_info());
             }
         }
-        else if (is_number()) {
+        else if (is_number() || (std::is_same_v<std::underlying_type_t<enum_t>, bool> && is_boolean())) {
             return static_cast<enum_t>(static_cast<std::underlying_type_t<enum_t>>(*this));
         }
         else {
-- 
2.43.0


From 3ab1b96866e3c7c19d1b62c8a6f8a3081f3e217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:37 +0000
Subject: [PATCH 19/19] fix: read back subnormal floating-point numbers

std::stof, stod and stold throw out_of_range for subnormal results, so a
float, double or long double that small was written but refused when read.
---
 include/common/value_impl.hpp | 66 +++++++++++++++++------------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index ce9a4a8..262a8c3 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -1,5 +1,9 @@
 #pragma once
 
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
+
 #include "value.hpp"
 
 namespace json
@@ -28,26 +32,36 @@ inline value_t parse_integer(const std::string& str, const char* target_type)
 }
 
 template <typename value_t>
-inline value_t parse_floating(const std::string& str, const char* target_type)
+inline bool try_parse_floating(const std::string& str, value_t& result) noexcept
 {
-    try {
-        size_t pos = 0;
-        value_t result {};
-        if constexpr (std::is_same_v<value_t, float>) {
-            result = std::stof(str, &pos);
-        }
-        else if constexpr (std::is_same_v<value_t, double>) {
-            result = std::stod(str, &pos);
-        }
-        else {
-            result = std::stold(str, &pos);
-        }
+    const int saved_errno = errno;
+    errno = 0;
+    char* end = nullptr;
+    if constexpr (std::is_same_v<value_t, float>) {
+        result = std::strtof(str.c_str(), &end);
+    }
+    else if constexpr (std::is_same_v<value_t, double>) {
+        result = std::strtod(str.c_str(), &end);
+    }
+    else {
+        result = std::strtold(str.c_str(), &end);
+    }
+    const bool range_error = errno == ERANGE;
+    errno = saved_errno;
 
-        if (pos == str.size()) {
-            return result;
-        }
+    if (end == str.c_str() || end != str.c_str() + str.size()) {
+        return false;
     }
-    catch (const std::exception&) {
+    // a subnormal result is reported as a range error too, but it is a value like any other
+    return !range_error || (result != 0 && std::isfinite(result));
+}
+
+template <typename value_t>
+inline value_t parse_floating(const std::string& str, const char* target_type)
+{
+    value_t result {};
+    if (try_parse_floating(str, result)) {
+        return result;
     }
 
     throw exception("Parse error: cannot convert number '" + str + "' to " + target_type);
@@ -56,22 +70,8 @@ inline value_t parse_floating(const std::string& str, const char* target_type)
 template <typename value_t>
 inline bool can_parse_floating(const std::string& str) noexcept
 {
-    try {
-        size_t pos = 0;
-        if constexpr (std::is_same_v<value_t, float>) {
-            (void)std::stof(str, &pos);
-        }
-        else if constexpr (std::is_same_v<value_t, double>) {
-            (void)std::stod(str, &pos);
-        }
-        else {
-            (void)std::stold(str, &pos);
-        }
-        return pos == str.size();
-    }
-    catch (const std::exception&) {
-        return false;
-    }
+    value_t result {};
+    return try_parse_floating(str, result);
 }
 } // namespace _value_impl_detail
 
-- 
2.43.0

